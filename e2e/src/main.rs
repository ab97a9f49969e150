//! Servers for the real runtime: each argument is one, `port/way/state/matcher-handler,...`. What the handlers
//! see goes back to the client and to the standard output.

use std::{fmt::Write as _, io::Read, time::Duration};

use lunatic::{net::TcpListener, sleep, Mailbox, Process};
use puck::{
    body::Body,
    core::{
        router::{Route, Router},
        Core, Stream, UsedStream,
    },
    ws::{message::Message, websocket::WebSocket},
    Request, Response,
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct St {
    tag: String,
    number: u64,
    list: Vec<(u8, String)>,
    maybe: Option<i32>,
}

trait Told {
    fn told(&self) -> String;
}
impl Told for () {
    fn told(&self) -> String {
        "()".into()
    }
}
impl Told for u64 {
    fn told(&self) -> String {
        self.to_string()
    }
}
impl Told for St {
    fn told(&self) -> String {
        format!("{}|{}|{:?}|{:?}", self.tag, self.number, self.list, self.maybe)
    }
}

fn header(req: &Request, name: &str) -> Option<String> {
    req.headers().iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.clone())
}

fn hex(bytes: &[u8]) -> String {
    let mut s = String::new();
    for b in bytes {
        write!(s, "{b:02x}").unwrap();
    }
    s
}

fn matcher<const I: u32>(req: &Request) -> bool {
    header(req, "x-mask").and_then(|m| u64::from_str_radix(&m, 16).ok()).map_or(false, |m| m >> I & 1 == 1)
}

fn method(req: &Request) -> String {
    match req.method() {
        puck::request::Method::OtherMethod(s) => s.clone(),
        m => format!("{m:?}").to_uppercase(),
    }
}

fn told(req: &mut Request, handler: u32, state: String) -> String {
    let mut s = String::new();
    writeln!(s, "handler {handler}").unwrap();
    writeln!(s, "state {}", hex(state.as_bytes())).unwrap();
    writeln!(s, "method {}", hex(method(req).as_bytes())).unwrap();
    writeln!(s, "url {}", hex(req.url().as_str().as_bytes())).unwrap();
    let mut fields: Vec<_> = req.headers().iter().map(|(k, v)| format!("{}: {v}", k.to_lowercase())).collect();
    fields.sort();
    for f in fields {
        writeln!(s, "field {}", hex(f.as_bytes())).unwrap();
    }
    if header(req, "content-length").is_some() {
        let mut b = req.take_body();
        let mut bytes = vec![];
        match b.read_to_end(&mut bytes) {
            Ok(_) => writeln!(s, "body {}", hex(&bytes)).unwrap(),
            Err(e) => writeln!(s, "nobody {e}").unwrap(),
        }
    }
    s
}

fn handler<const I: u32, S: Told>(mut req: Request, stream: Stream, state: S) -> UsedStream {
    let id = header(&req, "x-case").unwrap_or_default();
    println!("CALL {id} {I}");
    let act = header(&req, "x-act").unwrap_or_default();
    let mut act = act.split(' ');
    let number = |s: Option<&str>| s.and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    match act.next().unwrap_or("") {
        "panic" => panic!("the application's handler panics"),
        "silent" => return UsedStream::empty(),
        "hang" => loop {
            sleep(Duration::from_secs(3600));
        },
        "big" => {
            let n = number(act.next());
            let bytes: Vec<u8> = (0..n).map(|i| ((i * 31 + i / 251) % 256) as u8).collect();
            let r = Response::build()
                .status(200, "OK")
                .header("X-Case", &id)
                .header("Content-Length", n.to_string())
                .body(Body::from_reader(std::io::Cursor::new(bytes), Some(n)))
                .build();
            return stream.respond(r).unwrap_or_else(|_| UsedStream::empty());
        }
        "ws" => return sockets(&req, stream, &id),
        "fan" => {
            let (k, n, size) = (number(act.next()), number(act.next()), number(act.next()));
            return fan(&req, stream, &id, k, n, size);
        }
        then => {
            let text = told(&mut req, I, state.told());
            let r = Response::build()
                .status(200, "OK")
                .header("X-Case", &id)
                .header("Content-Length", text.len().to_string())
                .body(Body::from_string(text))
                .build();
            let used = stream.respond(r).unwrap_or_else(|_| UsedStream::empty());
            if then == "panicafter" {
                panic!("the application's handler panics after its response");
            }
            used
        }
    }
}

/// Sends every text and binary message back, to the end.
fn sockets(req: &Request, stream: Stream, id: &str) -> UsedStream {
    let mut ws = match stream.upgrade(req) {
        Ok(ws) => ws,
        Err(used) => {
            println!("REFUSED {id}");
            return used;
        }
    };
    println!("UPGRADED {id}");
    loop {
        match ws.next() {
            Some(Ok(m)) => {
                let text = match &m {
                    Message::Text(t) => format!("text {}", hex(t.as_bytes())),
                    Message::Binary(b) => format!("binary {}", hex(b)),
                    Message::Ping(p) => format!("ping {}", hex(p.as_deref().unwrap_or(b""))),
                    Message::Pong(p) => format!("pong {}", hex(p.as_deref().unwrap_or(b""))),
                };
                if let Message::Text(t) = &m {
                    if t == "please close" {
                        println!("CLOSED {id} {}", ws.close().is_ok());
                        return UsedStream::empty();
                    }
                }
                if matches!(m, Message::Text(_) | Message::Binary(_)) {
                    let _ = ws.send(m);
                } else {
                    let _ = ws.send(Message::Text(text));
                }
            }
            Some(Err(e)) => {
                println!("ENDED {id} {}", format!("{e:?}").replace(' ', ""));
                break;
            }
            None => {
                println!("ENDED {id} None");
                break;
            }
        }
    }
    println!("AFTER {id} {:?}", ws.send(Message::Text("late".into())).is_ok());
    UsedStream::empty()
}

/// Several processes send on one WebSocket.
fn fan(req: &Request, stream: Stream, id: &str, k: usize, n: usize, size: usize) -> UsedStream {
    let mut ws = match stream.upgrade(req) {
        Ok(ws) => ws,
        Err(used) => return used,
    };
    println!("UPGRADED {id}");
    for sender in 0..k {
        let _ = Process::spawn((ws.make_copy(), sender as u64, n as u64, size as u64), |(ws, sender, n, size): (WebSocket, u64, u64, u64), _: Mailbox<()>| {
            for i in 0..n {
                let text = format!("{sender}:{i}:{}", "x".repeat(((i * 7 + sender) % (size + 1)) as usize));
                let m = if i % 2 == 0 { Message::Text(text) } else { Message::Binary(text.into_bytes()) };
                if ws.send(m).is_err() {
                    return;
                }
            }
        });
    }
    while let Some(Ok(_)) = ws.next() {}
    UsedStream::empty()
}

type M = fn(&Request) -> bool;
type H<S> = fn(Request, Stream, S) -> UsedStream;

fn matchers() -> [M; 8] {
    [matcher::<0>, matcher::<1>, matcher::<2>, matcher::<3>, matcher::<4>, matcher::<5>, matcher::<6>, matcher::<7>]
}

fn handlers<S: Told>() -> [H<S>; 8] {
    [handler::<0, S>, handler::<1, S>, handler::<2, S>, handler::<3, S>, handler::<4, S>, handler::<5, S>, handler::<6, S>, handler::<7, S>]
}

fn start<S>(port: u16, way: &str, routes: &[(usize, usize)], state: S)
where
    S: Clone + Serialize + DeserializeOwned + Told,
{
    let mut router = Router::<S>::new();
    for (m, h) in routes {
        router = router.route(Route::new(matchers()[*m], handlers::<S>()[*h]));
    }
    match way {
        "serve" => Core::bind((std::net::Ipv4Addr::LOCALHOST, port), state).expect("bind").serve_router(router),
        "run" => router.run(TcpListener::bind((std::net::Ipv4Addr::LOCALHOST, port)).expect("bind"), state),
        _ => Core::bind((std::net::Ipv4Addr::LOCALHOST, port), state).expect("bind").for_each(handlers::<S>()[routes[0].1]),
    }
}

fn server(spec: String, _: Mailbox<()>) {
    let parts: Vec<&str> = spec.split('/').collect();
    let port = parts[0].parse().unwrap();
    let routes: Vec<(usize, usize)> = parts[3]
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| {
            let (m, h) = s.split_once('-').unwrap();
            (m.parse().unwrap(), h.parse().unwrap())
        })
        .collect();
    match parts[2].split_once('=') {
        None => start(port, parts[1], &routes, ()),
        Some(("u64", n)) => start(port, parts[1], &routes, n.parse::<u64>().unwrap()),
        Some((_, n)) => {
            let n: u64 = n.parse().unwrap();
            let state = St {
                tag: format!("tag {n} é€😀"),
                number: n.wrapping_mul(0x9e3779b97f4a7c15),
                list: (0..n % 5).map(|i| ((i * n) as u8, "é".repeat(i as usize))).collect(),
                maybe: if n % 2 == 0 { None } else { Some(-(n as i32)) },
            };
            println!("STATE {n} {}", hex(state.told().as_bytes()));
            start(port, parts[1], &routes, state)
        }
    }
}

#[lunatic::main]
fn main(_: Mailbox<()>) {
    for spec in std::env::args().skip(1) {
        if spec.contains('/') && spec.as_bytes()[0].is_ascii_digit() {
            let _ = Process::spawn(spec, server);
        }
    }
    println!("STARTED");
    loop {
        sleep(Duration::from_secs(3600));
    }
}
