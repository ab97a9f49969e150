//! Routing and serving.

use std::{
    collections::{BTreeMap, HashMap},
    io::{self, Read},
    str::FromStr,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Condvar, Mutex,
    },
    time::{Duration, Instant},
};

use lunatic::{net::TcpListener, testkit, testkit::Transport};
use puck::{
    core::{
        router::{
            match_url::{any_integer, anything, path, Match, Segment},
            Route, Router,
        },
        Core, Stream, UsedStream,
    },
    Request, Response,
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::json;

use crate::{
    ctx::{same, show, Case, Ctx},
    ensure,
    gen::{self, Req},
    http::{break_head, check_request, read_answer},
    rng::{hash, Rng, SMALL},
    script::{cut, short_writes, End, Script},
    server,
};

type R = Result<(), String>;

// ---------------------------------------------------------------- patterns

#[derive(Clone, Copy, Debug, PartialEq)]
enum Seg {
    Static(&'static str),
    Any,
    Int,
}

const NAMES: &[&str] = &[
    "", "home", "Home", "a", "b", "ab", "page", "pages", "12", "0", "-5", "x-y", "index.html", "%20", "%61", "a%2Fb",
    "caf%C3%A9", "~u", "A", "a+b", "a;b=c", "a:b", "@", "...", "name", "_",
];

/// `None`: left open.
fn is_int(s: &str) -> Option<bool> {
    let digits = s.strip_prefix(['+', '-']).unwrap_or(s);
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return Some(false);
    }
    let short = digits.trim_start_matches('0');
    if short.len() > 10 {
        return None;
    }
    let n: i64 = short.parse().unwrap_or(0);
    let n = if s.starts_with('-') { -n } else { n };
    if (-(1i64 << 31)..1 << 31).contains(&n) {
        Some(true)
    } else {
        None
    }
}

/// What a pattern says about the parts of a path.
fn should_match(pattern: &[Seg], parts: &[&str]) -> Option<bool> {
    if pattern.len() != parts.len() {
        return Some(false);
    }
    let mut open = false;
    for (s, p) in pattern.iter().zip(parts) {
        match s {
            Seg::Static(t) if t != p => return Some(false),
            Seg::Int => match is_int(p) {
                Some(false) => return Some(false),
                None => open = true,
                _ => (),
            },
            _ => (),
        }
    }
    if open {
        None
    } else {
        Some(true)
    }
}

fn real(pattern: &[Seg]) -> Match {
    let mut m = Match::new();
    for s in pattern {
        m = m.at(match s {
            Seg::Static(t) => path(t),
            Seg::Any => anything(),
            Seg::Int => any_integer(),
        });
    }
    m
}

fn number(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => rng.pick(&["2147483647", "-2147483648", "+5", "007", "-0", "+0", "0", "-000012", "+2147483647"]).to_string(),
        1 | 2 => rng
            .pick(&["--1", "1.0", "+-1", "%201", "", "+", "-", "1e3", "0x10", "1_000", "%D9%A3", "1,000", "12a", "a12", "%312", "1-", "1%20", "Infinity", "NaN"])
            .to_string(),
        3 => rng.pick(&["2147483648", "-2147483649", "99999999999999999999"]).to_string(),
        4 => (rng.next() as i32).to_string(),
        _ => (rng.below(2000) as i32 - 1000).to_string(),
    }
}

fn some_part(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => number(rng),
        1 | 2 => rng.pick(NAMES).to_string(),
        _ => gen::segment(rng),
    }
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "Patterns of up to 6 segments (static from 26 texts, any, integer) are made together with paths that match, nearly match (one segment more, less, or changed; trailing slash; other case; escapes; numbers at the borders of 32 bits and texts which look like numbers) or are unrelated, in URLs with any scheme, host, query and fragment; the real matcher is compared with an independent one, also for URLs of parsed requests. Distinct: different patterns and paths.".into();
    let check = |c: &mut Case, pattern: &[Seg], parts: &[String]| -> R {
        let refs: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
        let p = format!("/{}", refs.join("/"));
        let mut url = format!("{}{p}", c.rng.pick(&["http://example.com", "https://a:8080", "http://u:p@127.0.0.1", "ftp://x", "http://[::1]:5"]));
        if c.rng.chance(3) {
            url += *c.rng.pick(&["?a=1", "?", "?x=/home/12", "?/"]);
        }
        if c.rng.chance(4) {
            url += *c.rng.pick(&["#f", "#/a", "#"]);
        }
        let u = url::Url::from_str(&url).map_err(|e| format!("harness: {url}: {e}"))?;
        ensure!(u.path() == p, "harness: the path {p:?} became {:?}", u.path());
        c.input = json!({"pattern": format!("{pattern:?}"), "url": url});
        c.key(format!("{pattern:?}{p}").as_bytes());
        let got = real(pattern).does_match(&u);
        match should_match(pattern, &refs) {
            None => c.count("left open", 1),
            Some(want) => {
                c.count(if want { "match" } else { "no match" }, 1);
                ensure!(got == want, "the pattern {pattern:?} {} {url}", if got { "matches" } else { "does not match" });
            }
        }
        Ok(())
    };
    ctx.section("patterns", 120_000, move |c| {
        let pattern: Vec<Seg> = (0..c.rng.below(7))
            .map(|_| match c.rng.below(4) {
                0 => Seg::Any,
                1 => Seg::Int,
                _ => Seg::Static(*c.rng.pick(NAMES)),
            })
            .collect();
        // a path which should match ...
        let mut parts: Vec<String> = pattern
            .iter()
            .map(|s| match s {
                Seg::Static(t) => t.to_string(),
                Seg::Any => some_part(&mut c.rng),
                Seg::Int => {
                    if c.rng.chance(3) {
                        number(&mut c.rng)
                    } else {
                        c.rng.below(100).to_string()
                    }
                }
            })
            .collect();
        // ... or nearly
        match c.rng.below(8) {
            0 => {
                let at = c.rng.below(parts.len() + 1);
                let p = if c.rng.chance(2) { String::new() } else { some_part(&mut c.rng) };
                parts.insert(at, p);
            }
            1 => parts.push(String::new()),
            2 => {
                parts.pop();
            }
            3 if !parts.is_empty() => {
                let at = c.rng.below(parts.len());
                parts[at] = some_part(&mut c.rng);
            }
            4 if !parts.is_empty() => {
                let at = c.rng.below(parts.len());
                let p = parts[at].clone();
                parts[at] = match c.rng.below(5) {
                    0 => p + "x",
                    1 => format!("x{p}"),
                    2 => p.to_uppercase(),
                    3 => p[..p.len() / 2].to_string(),
                    _ => p + "%20",
                };
                if parts[at].bytes().filter(|b| *b == b'%').count() > 0 && url::Url::from_str(&format!("http://a/{}", parts[at])).map_or(true, |u| u.path() != format!("/{}", parts[at])) {
                    parts[at] = "zz".into();
                }
            }
            5 if parts.len() > 1 => {
                let at = c.rng.below(parts.len() - 1);
                parts.swap(at, at + 1);
            }
            6 => parts = (0..c.rng.range(1, 5)).map(|_| some_part(&mut c.rng)).collect(),
            _ => (),
        }
        if parts.is_empty() {
            parts.push(String::new());
        }
        for p in parts.iter_mut() {
            // what an URL would change on its own
            if matches!(p.to_ascii_lowercase().as_str(), "." | ".." | "%2e" | "%2e%2e" | ".%2e" | "%2e.") {
                *p = "dot".into();
            }
        }
        check(c, &pattern, &parts)
    });
    // all patterns of up to 3 segments against all paths of up to 3 segments over a small alphabet
    let alphabet = [Seg::Static(""), Seg::Static("a"), Seg::Static("7"), Seg::Any, Seg::Int];
    let texts = ["", "a", "7", "-7", "A"];
    let sequences = |k: usize| (0..4u32).map(|n| k.pow(n)).sum::<usize>();
    ctx.all("all small ones", (sequences(5) * sequences(5)) as u64, move |c| {
        let pick = |mut n: usize, k: usize| {
            let mut len = 0;
            while n >= k.pow(len) {
                n -= k.pow(len);
                len += 1;
            }
            (0..len).map(|i| n / k.pow(i) % k).collect::<Vec<_>>()
        };
        let i = c.index as usize;
        let pattern: Vec<Seg> = pick(i % sequences(5), 5).into_iter().map(|i| alphabet[i]).collect();
        let mut parts: Vec<String> = pick(i / sequences(5), 5).into_iter().map(|i| texts[i].to_string()).collect();
        if parts.is_empty() {
            parts.push(String::new());
        }
        check(c, &pattern, &parts)
    });
    ctx.section("URLs of requests", 5_000, |c| {
        let want = gen::request(&mut c.rng, None, 3);
        c.key(&want.head);
        let req = match Request::parse(Script::whole(&want.head, End::Wait)) {
            Ok(Some(r)) => r,
            other => return Err(format!("the request was refused: {other:?}")),
        };
        let parts: Vec<&str> = want.path[1..].split('/').collect();
        let mut pattern: Vec<Seg> = parts.iter().map(|_| if c.rng.chance(4) { Seg::Int } else { Seg::Any }).collect();
        if c.rng.chance(4) {
            pattern.push(Seg::Any);
        }
        if let Some(expect) = should_match(&pattern, &parts) {
            c.count(if expect { "match" } else { "no match" }, 1);
            ensure!(real(&pattern).does_match(req.url()) == expect, "the pattern {pattern:?} is wrong about {:?}", want.path);
        }
        Ok(())
    });
    let _: fn(&'static str) -> Segment = path;
}

// ---------------------------------------------------------------- servers

/// The state of the servers: something with all kinds of parts.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct St {
    tag: String,
    number: u64,
    list: Vec<(u8, String)>,
    maybe: Option<i32>,
}

fn some_state(rng: &mut Rng) -> St {
    St {
        tag: rng.text(30),
        number: rng.next(),
        list: (0..rng.below(4)).map(|_| (rng.next() as u8, rng.text(10))).collect(),
        maybe: if rng.chance(2) { None } else { Some(rng.next() as i32) },
    }
}

/// What a state says about itself, so that handlers for any type of state can report it.
pub trait Told {
    fn told(&self) -> String;
}
impl Told for () {
    fn told(&self) -> String {
        "()".into()
    }
}
impl Told for u64 {
    fn told(&self) -> String {
        self.to_string()
    }
}
impl Told for St {
    fn told(&self) -> String {
        format!("{self:?}")
    }
}

/// What a case expects of its request, and what the handlers say.
struct Expect {
    want: Req,
    body: Vec<u8>,
    answer: Answer,
    calls: Vec<Call>,
}

#[derive(Clone, Default)]
struct Answer {
    size: usize,
    seed: u64,
    /// What the handler does.
    act: Act,
}

#[derive(Clone, Copy, Default, PartialEq, Debug)]
enum Act {
    #[default]
    Respond,
    /// Panics before it responds.
    Panic,
    /// Panics after it has responded.
    PanicAfter,
    /// Never returns, as far as the client can tell.
    Hang,
    /// Returns without a response.
    Silent,
}

#[derive(Clone, Debug)]
struct Call {
    handler: usize,
    state: String,
    problem: Option<String>,
}

static EXPECTED: Mutex<Option<HashMap<String, Expect>>> = Mutex::new(None);
/// Handlers and matchers which ran for a request that has no case.
static STRAY: AtomicU64 = AtomicU64::new(0);
static MATCHED: AtomicU64 = AtomicU64::new(0);
static NEXT_ID: AtomicU64 = AtomicU64::new(1);
static HANG: Mutex<()> = Mutex::new(());
static HANG_OVER: AtomicBool = AtomicBool::new(false);
static HANG_WAKE: Condvar = Condvar::new();

fn expected<T>(f: impl FnOnce(&mut HashMap<String, Expect>) -> T) -> T {
    f(EXPECTED.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new))
}

fn header<'a>(req: &'a Request, name: &str) -> Option<&'a str> {
    req.headers().iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
}

/// Matcher `I` accepts the requests whose mask has bit `I`.
fn matcher<const I: usize>(req: &Request) -> bool {
    MATCHED.fetch_add(1, Ordering::Relaxed);
    header(req, "x-mask").and_then(|m| u64::from_str_radix(m, 16).ok()).map_or(false, |m| m >> I & 1 == 1)
}

fn answer_body(handler: usize, a: &Answer) -> Vec<u8> {
    let mut b = format!("handler {handler} seed {} ", a.seed).into_bytes();
    let mut r = Rng::new(a.seed);
    let chunk = r.bytes(997);
    while b.len() < a.size {
        let n = (a.size - b.len()).min(chunk.len());
        b.extend_from_slice(&chunk[..n]);
    }
    b
}

fn handler<const I: usize, S: Told>(mut req: Request, stream: Stream, state: S) -> UsedStream {
    let id = header(&req, "x-case").map(|s| s.to_string()).unwrap_or_default();
    let Some((want, body, answer)) = expected(|e| e.get(&id).map(|x| (x.want.clone(), x.body.clone(), x.answer.clone()))) else {
        STRAY.fetch_add(1, Ordering::Relaxed);
        return UsedStream::empty();
    };
    let mut problem = check_request(&req, &want).err();
    if want.headers.iter().any(|(k, _)| k.eq_ignore_ascii_case("content-length")) {
        let mut got = vec![];
        let mut b = req.take_body();
        if let Err(e) = b.read_to_end(&mut got) {
            problem.get_or_insert(format!("the body could not be read: {e}"));
        }
        if let Err(e) = same("the body", &got, &body) {
            problem.get_or_insert(e);
        }
    }
    let call = Call { handler: I, state: state.told(), problem };
    expected(|e| e.get_mut(&id).map(|x| x.calls.push(call)));
    match answer.act {
        Act::Panic => panic!("the application's handler panics"),
        Act::Silent => return UsedStream::empty(),
        Act::Hang => {
            let mut guard = HANG.lock().unwrap_or_else(|e| e.into_inner());
            while !HANG_OVER.load(Ordering::SeqCst) {
                guard = HANG_WAKE.wait(guard).unwrap_or_else(|e| e.into_inner());
            }
            return UsedStream::empty();
        }
        _ => (),
    }
    let bytes = answer_body(I, &answer);
    let mut b = Response::build().header("X-Case", &id).header("X-Handler", I.to_string()).status(200, "OK");
    if answer.seed % 2 == 0 {
        b = b.header("Content-Length", bytes.len().to_string());
    }
    let n = bytes.len();
    let body = if answer.seed % 3 == 0 {
        puck::body::Body::from_reader(io::Cursor::new(bytes), Some(n))
    } else {
        match String::from_utf8(bytes) {
            Ok(s) => s.into(),
            Err(e) => puck::body::Body::from_reader(io::Cursor::new(e.into_bytes()), None),
        }
    };
    let used = stream.respond(b.body(body).build());
    if answer.act == Act::PanicAfter {
        panic!("the application's handler panics after its response");
    }
    used.unwrap_or_else(|_| UsedStream::empty())
}


type M = fn(&Request) -> bool;
type H<S> = fn(Request, Stream, S) -> UsedStream;

fn matchers() -> [M; 12] {
    [matcher::<0>, matcher::<1>, matcher::<2>, matcher::<3>, matcher::<4>, matcher::<5>, matcher::<6>, matcher::<7>, matcher::<8>, matcher::<9>, matcher::<10>, matcher::<11>]
}

fn handlers<S: Told>() -> [H<S>; 12] {
    [handler::<0, S>, handler::<1, S>, handler::<2, S>, handler::<3, S>, handler::<4, S>, handler::<5, S>, handler::<6, S>, handler::<7, S>, handler::<8, S>, handler::<9, S>, handler::<10, S>, handler::<11, S>]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    ServeRouter,
    Run,
    ForEach,
}

const WAYS: [Way; 3] = [Way::ServeRouter, Way::Run, Way::ForEach];

/// Starts the real server in one of its ways. For `ForEach`, the first handler of `routes` gets everything.
fn start<S>(way: Way, routes: &[(usize, usize)], state: S) -> u16
where
    S: Clone + Serialize + DeserializeOwned + Send + Told + 'static,
{
    let port = server::fresh_port();
    let routes = routes.to_vec();
    testkit::spawn_process(move || {
        let mut router = Router::<S>::new();
        for (m, h) in &routes {
            router = router.route(Route::new(matchers()[*m], handlers::<S>()[*h]));
        }
        match way {
            Way::ServeRouter => Core::bind(("127.0.0.1", port), state).expect("bind").serve_router(router),
            Way::Run => router.run(TcpListener::bind(("127.0.0.1", port)).expect("bind"), state),
            Way::ForEach => Core::bind(("127.0.0.1", port), state).expect("bind").for_each(handlers::<S>()[routes[0].1]),
        }
    });
    server::bound(port)
}

/// Registers a request with a new case number, and returns the number and the bytes.
fn register(rng: &mut Rng, mask: u64, answer: Answer) -> (String, Vec<u8>, Vec<usize>) {
    let id = format!("{}", NEXT_ID.fetch_add(1, Ordering::Relaxed));
    let body = if rng.chance(2) { Some(gen::body(rng)) } else { None };
    let mut want = gen::request(rng, body.as_ref().map(|b| b.len()), 18);
    let n = want.head.len();
    want.head.truncate(n - 2);
    for (k, v) in [("X-Case", id.clone()), ("X-Mask", format!("{mask:x}"))] {
        want.head.extend(format!("{k}: {v}\r\n").into_bytes());
        want.headers.push((k.to_string(), v));
    }
    want.head.extend(b"\r\n");
    let mut bytes = want.head.clone();
    let hints = want.hints.clone();
    let body = body.unwrap_or_default();
    bytes.extend(&body);
    expected(|e| e.insert(id.clone(), Expect { want, body, answer, calls: vec![] }));
    (id, bytes, hints)
}

fn unregister(id: &str) -> Vec<Call> {
    expected(|e| e.remove(id)).map(|x| x.calls).unwrap_or_default()
}

/// Checks the answer to one request.
fn check_answer(bytes: &[u8], id: &str, handler: usize, answer: &Answer) -> R {
    let r = read_answer(bytes)?;
    ensure!(r.status == 200, "the answer is {}", r.status);
    let find = |name: &str| r.fields.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str());
    ensure!(find("x-case") == Some(id), "the answer belongs to case {:?} and not to {id}", find("x-case"));
    ensure!(find("x-handler") == Some(&handler.to_string()), "the answer is from handler {:?} and not from {handler}", find("x-handler"));
    same("the body of the answer", &r.body, &answer_body(handler, answer))
}

fn some_answer(rng: &mut Rng) -> Answer {
    let size = match rng.below(12) {
        n if SMALL => n * 20,
        0 => rng.range(20_000, 300_000),
        1..=3 => rng.range(100, 10_000),
        _ => 0,
    };
    Answer { size, seed: rng.next() >> 8, act: Act::Respond }
}

fn some_routes(rng: &mut Rng, least: usize) -> Vec<(usize, usize)> {
    let n = match rng.below(40) {
        0 | 1 if !SMALL => rng.range(13, 80),
        2 if !SMALL => *rng.pick(&[127, 128, 255, 256, 257, 400]),
        3..=12 => least,
        13..=22 => rng.range(least, 12),
        _ => rng.range(least, 5),
    };
    (0..n).map(|_| (rng.below(12), rng.below(12))).collect()
}

/// The state of a server under test, and how it tells about itself.
fn start_any(rng: &mut Rng, way: Way, routes: &[(usize, usize)]) -> (u16, String) {
    match rng.below(3) {
        0 => (start(way, routes, ()), ().told()),
        1 => {
            let n = rng.next();
            (start(way, routes, n), n.told())
        }
        _ => {
            let s = some_state(rng);
            let told = s.told();
            (start(way, routes, s), told)
        }
    }
}

fn first_route(way: Way, routes: &[(usize, usize)], mask: u64) -> Option<usize> {
    match way {
        Way::ForEach => Some(routes[0].1),
        _ => routes.iter().find(|(m, _)| mask >> m & 1 == 1).map(|(_, h)| *h),
    }
}

/// Waits until something holds; false after a minute.
fn eventually(mut f: impl FnMut() -> bool) -> bool {
    let start = Instant::now();
    let mut n = 0;
    while !f() {
        n += 1;
        if n < 100 {
            std::thread::yield_now();
        } else {
            std::thread::sleep(Duration::from_micros(100));
        }
        if start.elapsed() > crate::ctx::patience() {
            return false;
        }
    }
    true
}

struct Baseline {
    live: usize,
}

impl Baseline {
    fn take() -> Baseline {
        let _ = testkit::take_traps();
        STRAY.store(0, Ordering::Relaxed);
        Baseline { live: testkit::live_processes() }
    }

    fn stop(self, port: u16) -> R {
        testkit::shut(port);
        ensure!(
            eventually(|| testkit::live_processes() <= self.live),
            "{} processes remain after the end of the server",
            testkit::live_processes() - self.live
        );
        ensure!(STRAY.load(Ordering::Relaxed) == 0, "a handler got a request which nobody sent");
        Ok(())
    }
}

pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "Routers of 0 to 12, sometimes up to 400, routes over 12 matchers and 12 handlers (with repetitions), with three types of state, are served in all three ways by the real server; batches of concurrent requests carry the set of matchers that accept them. The handlers record each call with the request and the state they got; the first route is computed independently, and each client's answer is taken apart. Distinct: different routers and requests.".into();
    ctx.section("batches", 1_200, |c| {
        let way = *c.rng.pick(&WAYS);
        let routes = some_routes(&mut c.rng, (way == Way::ForEach) as usize);
        let base = Baseline::take();
        let (port, told) = start_any(&mut c.rng, way, &routes);
        let mut open = vec![];
        for _ in 0..c.rng.range(1, 12) {
            let mask = match c.rng.below(5) {
                0 => 0,
                1 => 0xfff,
                2 => 1 << c.rng.below(12),
                _ => c.rng.next() & c.rng.next() & 0xfff,
            };
            let answer = some_answer(&mut c.rng);
            let (id, bytes, hints) = register(&mut c.rng, mask, answer.clone());
            c.key(format!("{way:?} {routes:?} {mask:x}").as_bytes());
            let script = Script::new(cut(&mut c.rng, &bytes, &hints), End::Wait);
            short_writes(&mut c.rng, &mut script.state().out, true);
            testkit::connect_transport(port, Arc::new(script.clone())).map_err(|e| format!("the server is gone: {e}"))?;
            open.push((id, mask, answer, script));
        }
        c.input = json!({"way": format!("{way:?}"), "routes (matcher, handler)": routes, "masks": open.iter().map(|o| o.1).collect::<Vec<_>>()});
        let mut result = Ok(());
        for (id, mask, answer, script) in open {
            let released = server::wait_closed(&script);
            let calls = unregister(&id);
            if result.is_err() {
                continue;
            }
            result = released.and_then(|_| {
                let want = first_route(way, &routes, mask);
                let ran: Vec<usize> = calls.iter().map(|c| c.handler).collect();
                c.count("requests", 1);
                c.count("calls of handlers", ran.len() as u64);
                ensure!(
                    ran == want.into_iter().collect::<Vec<_>>(),
                    "handlers {ran:?} ran for a request with mask {mask:x} on routes {routes:?} ({way:?}), it should be {want:?}"
                );
                let Some(h) = want else {
                    c.count("requests for no route", 1);
                    return Ok(());
                };
                ensure!(calls[0].state == told, "the handler got the state {} instead of {told}", calls[0].state);
                if let Some(p) = &calls[0].problem {
                    return Err(format!("the handler got another request: {p}"));
                }
                let bytes = script.state().out.bytes.clone();
                check_answer(&bytes, &id, h, &answer)
            });
        }
        result?;
        let traps = testkit::take_traps();
        ensure!(traps.is_empty(), "a process panicked: {traps:?}");
        base.stop(port)
    });
}

pub fn c11(ctx: &mut Ctx) {
    ctx.rule = "Broken requests of nine kinds (as for C03; truncations of the head, also to nothing) are sent in pieces, then the sending side ends, to the real server in all three ways to serve; the bytes it sends back are taken apart, and calls of matchers and handlers are counted. Distinct: different bytes, pieces and ways to serve.".into();
    for way in WAYS {
        let name = match way {
            Way::ServeRouter => "a router on a bound server",
            Way::Run => "a router on a listener",
            Way::ForEach => "a function on a bound server",
        };
        let base = Baseline::take();
        let port = start(way, &[(0, 0), (1, 1), (2, 2)], 7u64);
        ctx.section(name, 3_000, move |c| {
            let want = gen::request(&mut c.rng, None, 18);
            let mut bytes = want.head.clone();
            let what = break_head(&mut c.rng, &mut bytes, &want);
            if what != "truncated" && c.rng.chance(3) {
                let n = c.rng.below(2000);
                let more = c.rng.bytes(n);
                bytes.extend(more);
            }
            c.count(what, 1);
            c.key(&bytes);
            c.input = json!({"bytes": show(&bytes), "broken": what});
            let matched = MATCHED.load(Ordering::Relaxed);
            let script = Script::new(cut(&mut c.rng, &bytes, &want.hints), End::Eof);
            short_writes(&mut c.rng, &mut script.state().out, true);
            server::serve(port, &script)?;
            let st = script.state();
            let r = read_answer(&st.out.bytes).map_err(|e| format!("the answer to a broken request ({what}): {e}"))?;
            ensure!(r.status == 400, "the answer to a broken request ({what}) is {}", r.status);
            ensure!(MATCHED.load(Ordering::Relaxed) == matched, "a matcher was asked about a broken request ({what})");
            ensure!(STRAY.load(Ordering::Relaxed) == 0, "a handler ran for a broken request ({what})");
            let traps = testkit::take_traps();
            ensure!(traps.is_empty(), "a process panicked ({what}): {traps:?}");
            c.count("answers with 400", 1);
            Ok(())
        });
        if let Err(e) = base.stop(port) {
            ctx.section("the end", 1, move |_| Err(e.clone()));
        }
        // the client is gone before it can be answered
        let base = Baseline::take();
        let port = start(way, &[(0, 0)], 7u64);
        ctx.section("nobody reads the answer", 300, move |c| {
            let want = gen::request(&mut c.rng, None, 18);
            let mut bytes = want.head.clone();
            let what = break_head(&mut c.rng, &mut bytes, &want);
            c.key(&bytes);
            c.input = json!({"bytes": show(&bytes), "broken": what});
            let end = *c.rng.pick(&[End::Eof, End::Fail]);
            let script = Script::new(cut(&mut c.rng, &bytes, &want.hints), end);
            script.state().out.fail_at = Some(c.rng.below(60));
            server::serve(port, &script)?;
            let traps = testkit::take_traps();
            ensure!(traps.is_empty(), "a process panicked ({what}): {traps:?}");
            c.count("answers which cannot be written", 1);
            Ok(())
        });
        if let Err(e) = base.stop(port) {
            ctx.section("the end", 1, move |_| Err(e.clone()));
        }
    }
}

// ---------------------------------------------------------------- many clients at once

/// A client's side of a connection which the harness moves step by step.
#[derive(Default)]
struct LineState {
    input: Vec<u8>,
    at: usize,
    /// How much of the input has arrived.
    arrived: usize,
    eof: bool,
    broken: bool,
    /// Writes wait.
    stuck: bool,
    out: Vec<u8>,
    accept: usize,
    closed: bool,
    reads: u64,
}

#[derive(Clone, Default)]
struct Line(Arc<(Mutex<LineState>, Condvar)>);

impl Line {
    fn with<T>(&self, f: impl FnOnce(&mut LineState) -> T) -> T {
        let t = f(&mut self.0 .0.lock().unwrap());
        self.0 .1.notify_all();
        t
    }

    fn wait_closed(&self) -> bool {
        let deadline = Instant::now() + crate::ctx::patience();
        let mut s = self.0 .0.lock().unwrap();
        while !s.closed {
            let now = Instant::now();
            if now > deadline {
                return false;
            }
            s = self.0 .1.wait_timeout(s, deadline - now).unwrap().0;
        }
        true
    }
}

impl Transport for Line {
    fn read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0 .0.lock().unwrap();
        s.reads += 1;
        loop {
            if s.broken {
                return Err(io::Error::new(io::ErrorKind::Other, "connection reset"));
            }
            if s.at < s.arrived {
                let n = buf.len().min(s.arrived - s.at);
                let at = s.at;
                buf[..n].copy_from_slice(&s.input[at..at + n]);
                s.at += n;
                return Ok(n);
            }
            if s.eof {
                return Ok(0);
            }
            if !testkit::may_wait() {
                return Err(testkit::timed_out());
            }
            s = self.0 .1.wait(s).unwrap();
        }
    }

    fn write(&self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0 .0.lock().unwrap();
        while s.stuck && !s.broken {
            s = self.0 .1.wait(s).unwrap();
        }
        if s.broken {
            return Err(io::Error::new(io::ErrorKind::Other, "broken pipe"));
        }
        let n = buf.len().min(s.accept.max(1));
        s.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn closed(&self) {
        self.with(|s| s.closed = true);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Good,
    /// Sends part of a head and then nothing.
    Stalls,
    /// Sends part and is gone.
    Aborts,
    Garbage,
    /// Never takes the answer.
    NeverReads,
    HandlerPanics,
    HandlerPanicsAfter,
    HandlerHangs,
    /// Connects and says nothing.
    Mute,
    /// Stops in the middle of the body.
    StallsInBody,
}

const HOSTILE: [Kind; 9] = [
    Kind::Stalls,
    Kind::Aborts,
    Kind::Garbage,
    Kind::NeverReads,
    Kind::HandlerPanics,
    Kind::HandlerPanicsAfter,
    Kind::HandlerHangs,
    Kind::Mute,
    Kind::StallsInBody,
];

struct Client {
    kind: Kind,
    id: String,
    line: Line,
    answer: Answer,
    want: Option<usize>,
    total: usize,
    connected: bool,
}

impl Client {
    fn new(rng: &mut Rng, kind: Kind, way: Way, routes: &[(usize, usize)]) -> Client {
        let mut answer = some_answer(rng);
        let mask = 0xfff & (rng.next() | 1 << routes[0].0);
        answer.act = match kind {
            Kind::HandlerPanics => Act::Panic,
            Kind::HandlerPanicsAfter => Act::PanicAfter,
            Kind::HandlerHangs => Act::Hang,
            _ => Act::Respond,
        };
        let (id, mut bytes, hints) = register(rng, mask, answer.clone());
        let head = *hints.last().unwrap();
        match kind {
            Kind::Stalls | Kind::Aborts => {
                let at = rng.below(if kind == Kind::Stalls { head } else { bytes.len() });
                bytes.truncate(at);
            }
            Kind::Garbage => {
                let want = gen::request(rng, None, 10);
                bytes = want.head.clone();
                break_head(rng, &mut bytes, &want);
            }
            Kind::Mute => bytes.clear(),
            Kind::StallsInBody => {
                let n = rng.below(50);
                let body = rng.bytes(n);
                bytes = format!("POST / HTTP/1.1\r\nHost: a\r\nContent-Length: {}\r\nX-Case: {id}\r\nX-Mask: fff\r\n\r\n", n + 1 + rng.below(1000)).into_bytes();
                bytes.extend(body);
            }
            _ => (),
        }
        let line = Line::default();
        line.with(|s| {
            s.accept = *rng.pick(&[1usize << 20, 1 << 20, 1000, 7]);
            s.stuck = kind == Kind::NeverReads;
            s.input = bytes.clone();
        });
        let want = first_route(way, routes, mask);
        Client { kind, id, line, answer, want, total: bytes.len(), connected: false }
    }

    /// One step of the client: connects, or has some more bytes arrive. False if there is nothing more.
    fn step(&mut self, rng: &mut Rng, port: u16) -> Result<bool, String> {
        if !self.connected {
            self.connected = true;
            testkit::connect_transport(port, Arc::new(self.line.clone())).map_err(|e| format!("the server does not accept any more: {e}"))?;
            return Ok(true);
        }
        let left = self.total - self.line.with(|s| s.arrived);
        if left > 0 {
            let n = match rng.below(4) {
                0 => left,
                1 => 1,
                _ => rng.range(1, (left / 2).max(1)),
            };
            self.line.with(|s| s.arrived += n);
            return Ok(true);
        }
        if self.kind == Kind::Aborts {
            self.line.with(|s| {
                if rng.chance(2) {
                    s.broken = true
                } else {
                    s.eof = true
                }
            });
        }
        Ok(false)
    }

    /// What the client got, if it is one who should get a proper answer.
    fn check(&self) -> R {
        if !self.line.wait_closed() {
            return Err(format!(
                "a proper request got no complete answer in time: {}",
                self.line.with(|s| show(&s.out))
            ));
        }
        let out = self.line.with(|s| s.out.clone());
        check_answer(&out, &self.id, self.want.ok_or("harness: no route")?, &self.answer)
    }
}

fn release_hangs() {
    HANG_OVER.store(true, Ordering::SeqCst);
    let _guard = HANG.lock().unwrap_or_else(|e| e.into_inner());
    HANG_WAKE.notify_all();
}

/// Lets all clients step in a random order.
fn run_clients(c: &mut Case, clients: &mut [Client], port: u16) -> R {
    let mut busy: Vec<usize> = (0..clients.len()).collect();
    let mut order = vec![];
    while !busy.is_empty() {
        let at = c.rng.below(busy.len());
        let i = busy[at];
        order.push(i as u8);
        // often the same client goes on
        for _ in 0..*c.rng.pick(&[1, 1, 3, 50]) {
            if !clients[i].step(&mut c.rng, port)? {
                busy.swap_remove(at);
                break;
            }
        }
        if c.rng.chance(8) {
            std::thread::yield_now();
        }
        if c.rng.chance(12) {
            testkit::fail_accept(port);
            c.count("failures to accept", 1);
        }
    }
    c.key(&order);
    c.count("steps of clients", order.len() as u64);
    Ok(())
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule = "Good clients and hostile ones of nine kinds (stalling in head or body, mute, aborting, garbage, not reading, handlers that panic before or after the response or never return) are on the real server at once; a scheduler lets them connect and deliver bytes in a random order, and has calls of accept fail in between. While the hostile ones still hang, every good client must have the complete answer to its own request; afterwards they are released and a last good client is served. Distinct: different orders of steps.".into();
    ctx.section("mixtures", 900, |c| {
        let way = *c.rng.pick(&WAYS);
        let routes = some_routes(&mut c.rng, 1);
        HANG_OVER.store(false, Ordering::SeqCst);
        let base = Baseline::take();
        let (port, told) = start_any(&mut c.rng, way, &routes);
        let mut clients = vec![];
        for _ in 0..c.rng.range(1, 8) {
            clients.push(Client::new(&mut c.rng, Kind::Good, way, &routes));
        }
        for _ in 0..c.rng.range(1, 8) {
            let kind = *c.rng.pick(&HOSTILE);
            clients.push(Client::new(&mut c.rng, kind, way, &routes));
        }
        c.input = json!({"way": format!("{way:?}"), "routes": routes, "clients": clients.iter().map(|c| format!("{:?}", c.kind)).collect::<Vec<_>>()});
        let mut result = run_clients(c, &mut clients, port);
        for cl in clients.iter().filter(|c| c.kind == Kind::Good) {
            if result.is_ok() {
                result = cl.check().map_err(|e| format!("while hostile clients are there: {e}"));
                c.count("good clients", 1);
            }
        }
        // now the hostile ones end
        release_hangs();
        for cl in &clients {
            if cl.kind != Kind::Good {
                c.count("hostile clients", 1);
                cl.line.with(|s| {
                    s.broken = true;
                    s.stuck = false;
                });
            }
        }
        if result.is_ok() {
            let mut last = Client::new(&mut c.rng, Kind::Good, way, &routes);
            result = run_clients(c, std::slice::from_mut(&mut last), port).and_then(|_| last.check()).map_err(|e| format!("after hostile clients: {e}"));
            clients.push(last);
        }
        // handlers of hostile clients may not have got a turn before
        let stopped = base.stop(port);
        for cl in &clients {
            let calls = unregister(&cl.id);
            if result.is_ok() && cl.kind == Kind::Good {
                result = (|| {
                    ensure!(calls.len() == 1, "{} handlers ran for one request", calls.len());
                    ensure!(calls[0].state == told, "the handler got the state {} instead of {told}", calls[0].state);
                    match &calls[0].problem {
                        Some(p) => Err(format!("the handler got another request: {p}")),
                        None => Ok(()),
                    }
                })();
            }
        }
        result?;
        let ours = |t: &String| t.contains("the application's handler panics");
        let traps: Vec<_> = testkit::take_traps().into_iter().filter(|t| !ours(t)).collect();
        ensure!(traps.is_empty(), "a process panicked: {traps:?}");
        stopped
    });
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule = "Connections of all kinds (good, aborted, garbage, mute, panicking handlers, handlers without a response), one after another and at once, with answers of 0 bytes to 4 MB which clients take in pieces, are made to the real server; each answer must be complete and followed by the end of the stream, and afterwards the number of live processes, of connections held and of queued messages must be back to what it was, while the server still serves. Distinct: different connections.".into();
    ctx.section("histories", 250, |c| {
        let way = *c.rng.pick(&WAYS);
        let routes = some_routes(&mut c.rng, 1);
        HANG_OVER.store(false, Ordering::SeqCst);
        let base = Baseline::take();
        let (port, _) = start_any(&mut c.rng, way, &routes);
        let serving = testkit::live_processes();
        let rounds = c.rng.range(1, 4);
        let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
        for _ in 0..rounds {
            let mut clients = vec![];
            for _ in 0..c.rng.range(1, 12) {
                let kind = match c.rng.below(8) {
                    0 => Kind::Garbage,
                    1 => Kind::Aborts,
                    2 => Kind::Mute,
                    3 => *c.rng.pick(&[Kind::HandlerPanics, Kind::HandlerPanicsAfter]),
                    4 => *c.rng.pick(&[Kind::Stalls, Kind::StallsInBody, Kind::NeverReads]),
                    _ => Kind::Good,
                };
                *kinds.entry(format!("{kind:?}")).or_insert(0) += 1;
                c.key(format!("{way:?} {kind:?} {}", c.rng.clone().next()).as_bytes());
                clients.push(Client::new(&mut c.rng, kind, way, &routes));
            }
            run_clients(c, &mut clients, port)?;
            for cl in &clients {
                if cl.kind == Kind::Good || cl.kind == Kind::HandlerPanicsAfter {
                    cl.check()?;
                    c.count("complete answers", 1);
                } else {
                    // the client ends its part in one way or the other
                    let broken = c.rng.chance(2) || cl.kind == Kind::NeverReads;
                    cl.line.with(|s| {
                        s.eof = true;
                        s.broken |= broken;
                    });
                }
            }
            for cl in &clients {
                ensure!(cl.line.wait_closed(), "the connection of a client ({:?}) is still held long after its end", cl.kind);
                c.count("connections released", 1);
                unregister(&cl.id);
            }
            ensure!(
                eventually(|| testkit::live_processes() <= serving),
                "{} processes remain of {} finished connections",
                testkit::live_processes() - serving,
                clients.len()
            );
            ensure!(testkit::live_processes() == serving, "the server has ended");
            ensure!(testkit::queued_messages() == 0, "{} messages are left in mailboxes", testkit::queued_messages());
        }
        c.input = json!({"way": format!("{way:?}"), "routes": routes, "connections": kinds});
        let _ = testkit::take_traps();
        base.stop(port)
    });
    ctx.section("large answers", 60, |c| {
        let way = *c.rng.pick(&WAYS);
        let routes = [(0, 1)];
        let base = Baseline::take();
        let port = start(way, &routes, ());
        let answer = Answer { size: c.rng.range(500_000, 4_000_000), seed: c.rng.next() >> 8, act: Act::Respond };
        let (id, bytes, _) = register(&mut c.rng, 1, answer.clone());
        c.key(&hash(&bytes).to_le_bytes());
        c.input = json!({"way": format!("{way:?}"), "size": answer.size});
        let line = Line::default();
        line.with(|s| {
            s.accept = *c.rng.pick(&[1 << 22, 4096, 100, 1461]);
            s.arrived = bytes.len();
            s.input = bytes.clone();
        });
        testkit::connect_transport(port, Arc::new(line.clone())).map_err(|e| e.to_string())?;
        // a slow reader: the transport stops taking bytes now and then
        for _ in 0..c.rng.below(6) {
            let b = c.rng.chance(2);
            line.with(|s| s.stuck = b);
            std::thread::sleep(Duration::from_micros(c.rng.below(300) as u64));
        }
        line.with(|s| s.stuck = false);
        ensure!(line.wait_closed(), "the connection is not released long after a response of {} bytes", answer.size);
        unregister(&id);
        let out = line.with(|s| std::mem::take(&mut s.out));
        check_answer(&out, &id, 1, &answer)?;
        c.count("bytes in large answers", out.len() as u64);
        c.count("complete answers", 1);
        base.stop(port)
    });
    ctx.section("many connections", 2, |c| {
        let way = *c.rng.pick(&WAYS);
        let base = Baseline::take();
        let port = start(way, &[(0, 0), (1, 1)], 5u64);
        let serving = testkit::live_processes();
        for i in 0..1500 {
            let (id, bytes, hints) = register(&mut c.rng, 3, Answer { size: 0, seed: i, act: Act::Respond });
            let mut bytes = bytes;
            if i % 5 == 0 {
                bytes.truncate(c.rng.below(*hints.last().unwrap()));
            }
            let script = Script::whole(&bytes, End::Eof);
            server::serve(port, &script)?;
            unregister(&id);
            c.count("connections released", 1);
        }
        c.key(&c.index.to_le_bytes());
        ensure!(eventually(|| testkit::live_processes() <= serving), "{} processes remain of 1500 finished connections", testkit::live_processes() - serving);
        base.stop(port)
    });
}
