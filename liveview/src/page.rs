//! C27: what a browser makes of the pages that the real server serves.

use std::{
    sync::{
        atomic::{AtomicU16, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use lunatic::testkit::{self, PipeEnd};
use puck::{
    core::{
        router::{
            match_url::{any_integer, anything, path, Match, Segment},
            Route, Router,
        },
        Core, Stream, UsedStream,
    },
    Request,
};
use puck_liveview::{component::manage, init};
use serde_json::json;

use crate::{
    browser::{self, fine, Browser},
    ctx::{patience, Case, Ctx},
    ensure,
    live::{entries, next_id, telling, Entry, Handle, Input, Session, Show, Start},
    refws,
    rng::Rng,
    sections::{deliver, finish, mask},
    tree::Gen,
};

#[derive(Clone, Copy, Debug)]
enum Part {
    Text(&'static str),
    Any,
    Int,
}

/// Where the index page is.
#[derive(Clone, Default)]
struct Mount {
    parts: Vec<Part>,
    slash: bool,
    /// What the component shows at first. It tells its inputs if there is nothing.
    start: Option<Start>,
}

static MOUNT: Mutex<Option<Mount>> = Mutex::new(None);
static STARTED: Mutex<Vec<(u64, Handle)>> = Mutex::new(vec![]);
static PORT: AtomicU16 = AtomicU16::new(4000);
static SERVED: AtomicU64 = AtomicU64::new(0);

fn mount() -> Mount {
    MOUNT.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap()
}

fn at(end: Option<&'static str>) -> Match {
    let mut m = Match::new();
    for p in mount().parts {
        m = m.at(match p {
            Part::Text(t) => path(t),
            Part::Any => anything(),
            Part::Int => any_integer(),
        });
    }
    match end {
        Some(e) => m.at(Segment::Static(e)),
        None => m,
    }
}

fn is_index(r: &Request) -> bool {
    at(mount().slash.then_some("")).does_match(r.url())
}

fn is_js(r: &Request) -> bool {
    at(Some("js")).does_match(r.url())
}

fn is_ws(r: &Request) -> bool {
    at(Some("ws")).does_match(r.url())
}

fn index(_: Request, stream: Stream, _: u8) -> UsedStream {
    stream.respond(init::index()).unwrap_or_else(|_| UsedStream::empty())
}

fn js(_: Request, stream: Stream, _: u8) -> UsedStream {
    stream.respond(init::js()).unwrap_or_else(|_| UsedStream::empty())
}

fn ws(request: Request, stream: Stream, _: u8) -> UsedStream {
    match stream.upgrade(&request) {
        Ok(socket) => {
            let mut start = mount().start.unwrap();
            start.id = next_id();
            let id = start.id;
            let process = manage::<Show, Start, Input>(start, socket);
            STARTED.lock().unwrap().push((id, Handle(process)));
            UsedStream::empty()
        }
        Err(used) => used,
    }
}

/// Serves the three resources in the order which the permutation tells.
fn serve(order: usize) -> u16 {
    let port = PORT.fetch_add(1, Ordering::Relaxed);
    testkit::spawn_process(move || {
        let mut routes: Vec<(fn(&Request) -> bool, fn(Request, Stream, u8) -> UsedStream)> = vec![(is_index, index), (is_js, js), (is_ws, ws)];
        routes.rotate_left(order % 3);
        if order >= 3 {
            routes.swap(0, 1);
        }
        let mut router = Router::<u8>::new();
        for (m, h) in routes {
            router = router.route(Route::new(m, h));
        }
        Core::bind(("127.0.0.1", port), 7).expect("bind").serve_router(router);
    });
    let from = Instant::now();
    while !testkit::is_bound(port) {
        assert!(from.elapsed() < patience(), "the server did not bind its port");
        std::thread::sleep(Duration::from_micros(100));
    }
    port
}

struct Answer {
    status: u16,
    fields: Vec<(String, String)>,
    body: Vec<u8>,
}

impl Answer {
    fn field(&self, name: &str) -> Option<&str> {
        self.fields.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
}

fn head(bytes: &[u8]) -> Result<Option<(Answer, usize)>, String> {
    let Some(at) = bytes.windows(4).position(|w| w == b"\r\n\r\n") else { return Ok(None) };
    let text = std::str::from_utf8(&bytes[..at]).map_err(|_| "the head of an answer is not UTF-8".to_string())?;
    let mut lines = text.split("\r\n");
    let first = lines.next().unwrap_or("");
    let mut words = first.splitn(3, ' ');
    ensure!(matches!(words.next(), Some("HTTP/1.1" | "HTTP/1.0")), "the status line is {first:?}");
    let status = words.next().unwrap_or("").parse().map_err(|_| format!("the status line is {first:?}"))?;
    let mut fields = vec![];
    for l in lines {
        let (k, v) = l.split_once(':').ok_or_else(|| format!("a field without colon: {l:?}"))?;
        fields.push((k.to_string(), v.trim_matches(|c| c == ' ' || c == '\t').to_string()));
    }
    Ok(Some((Answer { status, fields, body: vec![] }, at + 4)))
}

/// What browsers send along.
fn usual(rng: &mut Rng, host: &str, upgrade: Option<&str>) -> String {
    let mut lines = vec![
        "User-Agent: Mozilla/5.0 (X11; Linux x86_64; rv:109.0) Gecko/20100101 Firefox/115.0".to_string(),
        "Accept-Language: en-US,en;q=0.5".into(),
        "Accept-Encoding: gzip, deflate".into(),
    ];
    match upgrade {
        None => lines.extend(["Connection: keep-alive".into(), "Accept: text/html,application/xhtml+xml,*/*;q=0.8".into()]),
        Some(key) => {
            lines.extend([
                format!("Connection: {}", rng.pick(&["Upgrade", "keep-alive, Upgrade"])),
                "Upgrade: websocket".into(),
                "Sec-WebSocket-Version: 13".into(),
                format!("Sec-WebSocket-Key: {key}"),
                format!("Origin: http://{host}"),
                "Cache-Control: no-cache".into(),
                "Pragma: no-cache".into(),
            ]);
            if rng.chance(2) {
                lines.push("Sec-WebSocket-Extensions: permessage-deflate; client_max_window_bits".into());
            }
        }
    }
    if rng.chance(3) {
        lines.push("Cookie: a=b; c=\"d\"".into());
    }
    if rng.chance(2) {
        rng.shuffle(&mut lines);
    }
    // the order in which the host comes is the browser's affair, too
    lines.insert(0, format!("Host: {host}"));
    lines.join("\r\n")
}

/// What of the address is sent in the request.
fn target(url: &str, scheme: &str, host: &str) -> Result<String, String> {
    let rest = url
        .strip_prefix(&format!("{scheme}://{host}"))
        .ok_or_else(|| format!("the page asks for {url}, which is not on the server it is from ({scheme}://{host})"))?;
    Ok(rest.split('#').next().unwrap().to_string())
}

fn dial(port: u16, rng: &mut Rng) -> Result<Arc<PipeEnd>, String> {
    let (near, far) = testkit::pipe();
    if rng.chance(3) {
        far.set_cut(rng.range(1, 100));
    }
    testkit::connect_transport(port, far).map_err(|e| format!("the server is gone: {e}"))?;
    Ok(near)
}

fn get(port: u16, rng: &mut Rng, host: &str, target: &str) -> Result<Answer, String> {
    let near = dial(port, rng)?;
    let request = format!("GET {target} HTTP/1.1\r\n{}\r\n\r\n", usual(rng, host, None));
    use lunatic::testkit::Transport;
    let mut sent = request.as_bytes();
    while !sent.is_empty() {
        let n = near.write(sent).map_err(|e| format!("GET {target}: {e}"))?;
        sent = &sent[n..];
    }
    let mut bytes = vec![];
    let whole = |b: &[u8], eof: bool| {
        eof || match head(b) {
            Ok(Some((a, at))) => a.field("content-length").and_then(|n| n.parse::<usize>().ok()).is_some_and(|n| b.len() >= at + n),
            Ok(None) => false,
            Err(_) => true,
        }
    };
    let (done, _) = near.collect(&mut bytes, patience(), whole);
    near.closed();
    ensure!(done, "GET {target}: there is no whole answer in time, but {} bytes", bytes.len());
    let (mut a, at) = head(&bytes)?.ok_or_else(|| format!("GET {target}: the answer ends after {} bytes", bytes.len()))?;
    a.body = bytes[at..].to_vec();
    if let Some(n) = a.field("content-length") {
        let n: usize = n.parse().map_err(|_| format!("GET {target}: the length is {n}"))?;
        ensure!(a.body.len() >= n, "GET {target}: the body has {} bytes, its length is given as {n}", a.body.len());
        a.body.truncate(n);
    }
    Ok(a)
}

/// Opens the socket as a browser does.
fn open_socket(port: u16, rng: &mut Rng, host: &str, target: &str) -> Result<(Arc<PipeEnd>, Vec<u8>), String> {
    use lunatic::testkit::Transport;
    let near = dial(port, rng)?;
    let key = refws::base64(&rng.bytes(16));
    let request = format!("GET {target} HTTP/1.1\r\n{}\r\n\r\n", usual(rng, host, Some(&key)));
    let mut sent = request.as_bytes();
    while !sent.is_empty() {
        let n = near.write(sent).map_err(|e| format!("GET {target}: {e}"))?;
        sent = &sent[n..];
    }
    let mut bytes = vec![];
    near.collect(&mut bytes, patience(), |b, eof| eof || !matches!(head(b), Ok(None)));
    let (a, at) = head(&bytes)?.ok_or_else(|| format!("the handshake at {target} is not answered: {} bytes", bytes.len()))?;
    ensure!(a.status == 101, "the socket of the page, {target}, is answered with {}", a.status);
    let has = |name: &str, token: &str| {
        a.fields.iter().any(|(k, v)| k.eq_ignore_ascii_case(name) && v.split(',').any(|t| t.trim().eq_ignore_ascii_case(token)))
    };
    ensure!(has("upgrade", "websocket") && has("connection", "upgrade"), "a browser refuses the handshake: {:?}", a.fields);
    ensure!(a.field("sec-websocket-accept") == Some(&refws::accept(&key)), "a browser refuses the handshake: {:?}", a.fields);
    for f in ["sec-websocket-extensions", "sec-websocket-protocol"] {
        ensure!(a.field(f).is_none() || f == "sec-websocket-extensions" && a.field(f) == Some(""), "a browser refuses the handshake: {:?}", a.fields);
    }
    Ok((near, bytes[at..].to_vec()))
}

const WORDS: [&str; 9] = ["a", "foo", "chat-room", "js", "ws", "x.html", "%C3%A9", "a+b", "index"];

fn anywhere(rng: &mut Rng) -> Mount {
    let parts: Vec<Part> = (0..rng.below(4))
        .map(|_| match rng.below(5) {
            0 => Part::Any,
            1 => Part::Int,
            _ => Part::Text(*rng.pick(&WORDS)),
        })
        .collect();
    let slash = parts.is_empty() || rng.chance(2);
    Mount { parts, slash, start: None }
}

/// An address at which the page is.
fn address(rng: &mut Rng, m: &Mount) -> String {
    let mut path = String::new();
    for p in &m.parts {
        path.push('/');
        path.push_str(match p {
            Part::Text(t) => t,
            Part::Int => *rng.pick(&["0", "12", "-3", "2147483647"]),
            Part::Any => *rng.pick(&["x", "%20", "a%2Fb", "%C3%A9t%C3%A9", "a:b", "@me", "~", "1", "js", "ws", "a;b=c", "x&y", "100%25"]),
        });
    }
    if m.slash {
        path.push('/');
    }
    path.push_str(*rng.pick(&["", "", "", "?x=1", "?a=/b/&c=?", "?", "#part", "?q#part/x"]));
    path
}

const HOSTS: [&str; 6] = ["example.org", "localhost:8081", "127.0.0.1:3000", "[::1]:81", "a-b.example.org:65535", "xn--bcher-kva.example"];

/// Visits the page and uses it for a while.
fn visit(case: &mut Case, b: &mut Browser, port: u16, m: &Mount, moves: usize) -> Result<(), String> {
    let host = *case.rng.pick(&HOSTS);
    let url = format!("http://{host}{}", address(&mut case.rng, m));
    case.key(url.as_bytes());
    case.input = json!({"url": url, "mounted at": format!("{:?}", m.parts)});
    let when = |e: String| format!("{url}, mounted at {:?}: {e}", m.parts);
    let mut problem = None;
    let mut asked: Vec<String> = vec![];
    let mut rng = case.rng.clone();
    let v = b.call_with(json!({"op": "visit", "url": url}), |wanted| {
        asked.push(wanted.to_string());
        match target(wanted, "http", host).and_then(|t| get(port, &mut rng, host, &t)) {
            Ok(a) => {
                if a.status != 200 {
                    problem.get_or_insert(format!("{wanted} is answered with {}", a.status));
                }
                // the first is the page
                let kind = a.field("content-type").unwrap_or("").split(';').next().unwrap().trim().to_ascii_lowercase();
                let script = ["application/javascript", "text/javascript", "application/x-javascript", "application/ecmascript", "text/ecmascript"];
                if asked.len() == 1 && kind != "text/html" || asked.len() > 1 && !script.contains(&kind.as_str()) {
                    problem.get_or_insert(format!("{wanted} is served as {kind:?}"));
                }
                let of = |name| a.field(name).map(|t| t.to_string());
                json!({"status": a.status, "type": of("content-type"), "nosniff": of("x-content-type-options"), "fields": a.fields, "body": String::from_utf8_lossy(&a.body)})
            }
            Err(e) => {
                problem.get_or_insert(e);
                json!({"status": 0, "type": "", "body": ""})
            }
        }
    });
    case.rng = rng;
    if let Some(p) = problem {
        return Err(when(p));
    }
    fine(&v).map_err(when)?;
    let urls = v["urls"].as_array().unwrap();
    ensure!(urls.len() == 1, "{url}: the page opens {} sockets", urls.len());
    let socket = target(urls[0].as_str().unwrap(), "ws", host).map_err(when)?;
    STARTED.lock().unwrap().clear();
    let (near, rest) = open_socket(port, &mut case.rng, host, &socket).map_err(when)?;
    case.count("resources loaded", asked.len() as u64);
    case.count("pages with a socket", 1);
    SERVED.fetch_add(1, Ordering::Relaxed);
    fine(&b.call(json!({"op": "opened"})))?;
    let from = Instant::now();
    let (id, process) = loop {
        if let Some(s) = STARTED.lock().unwrap().pop() {
            break s;
        }
        ensure!(from.elapsed() < patience(), "{url}: no component was started");
        std::thread::yield_now();
    };
    let mut s = Session::adopt(id, near, process.0, rest);
    let first = s.expect("after the page was opened").map_err(when)?;
    let start = m.start.as_ref().unwrap();
    deliver(b, &first, &start.tree, "the first page").map_err(when)?;
    let mut count = 0;
    for _ in 0..moves {
        if !start.tell {
            break;
        }
        // the children of a page which tells its inputs
        let n = telling(count, None).children.len();
        let (path, event, value) = match case.rng.below(3) {
            0 => (vec![0, n - 1], "input", Some(case.rng.text(10))),
            _ => (vec![0, n - 2], "click", None),
        };
        let v = b.call(json!({"op": "fire", "path": path, "type": event, "value": value}));
        fine(&v)?;
        let sent = v["sent"].as_array().unwrap();
        ensure!(sent.len() == 1, "{url}: the client sends {} messages for one {event}", sent.len());
        s.tell(sent[0].as_str().unwrap_or("(not text)"), mask(&mut case.rng));
        let input = Input::Event { name: if event == "input" { "value" } else { "tell" }.into(), kind: event.into(), value, render: count };
        count += 1;
        let m = s.expect(&format!("after event {count}")).map_err(when)?;
        let got = entries(s.id);
        ensure!(got.len() == count && got[count - 1] == Entry::Update(input.clone()), "{url}: the component has got {got:?}, it should be {input:?}");
        deliver(b, &m, &telling(count, Some(&input)), &format!("after event {count}")).map_err(when)?;
        case.count("events", 1);
    }
    finish(&mut s).map_err(when)
}

pub fn c27(ctx: &mut Ctx, script: &str) {
    ctx.rule = "An execution is a visit of a page by a browser, which loads what the page asks for from the real server, and uses it; two are distinct \
                when their addresses differ."
        .into();
    ctx.section("a page anywhere", 150, |case| {
        browser::with(script, |b| {
            let _ = testkit::take_traps();
            let mut m = anywhere(&mut case.rng);
            let tell = case.rng.chance(2);
            let tree = if tell { telling(0, None) } else { Gen::new(case.rng.clone()).tree() };
            m.start = Some(Start { id: 0, tree, queue: vec![], tell, slow_start: 0 });
            *MOUNT.lock().unwrap_or_else(|e| e.into_inner()) = Some(m.clone());
            let port = serve(case.rng.below(6));
            let n = case.rng.range(1, 3);
            let mut out = Ok(());
            for _ in 0..n {
                let moves = case.rng.below(5);
                out = visit(case, b, port, &m, moves);
                if out.is_err() {
                    break;
                }
            }
            testkit::shut(port);
            out
        })
    });
    ctx.all("every shape of address", 32, |case| {
        browser::with(script, |b| {
            let _ = testkit::take_traps();
            // the shapes of up to two segments, each with and without a slash at the end
            let i = case.index as usize;
            let kinds = [None, Some(Part::Text("foo")), Some(Part::Any), Some(Part::Int)];
            let parts: Vec<Part> = [i % 4, i / 4 % 4].iter().filter_map(|k| kinds[*k]).collect();
            let slash = parts.is_empty() || i / 16 % 2 == 1;
            let m = Mount { parts, slash, start: Some(Start { id: 0, tree: telling(0, None), queue: vec![], tell: true, slow_start: 0 }) };
            *MOUNT.lock().unwrap_or_else(|e| e.into_inner()) = Some(m.clone());
            let port = serve(i % 6);
            let out = visit(case, b, port, &m, 2);
            testkit::shut(port);
            out
        })
    });
}
