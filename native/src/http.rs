//! Requests, responses and bodies.

use std::{collections::BTreeMap, io::Read};

use puck::{body::Body, request::RequestParseError, response::encoder::Encoder, Request, Response};
use serde_json::json;

use crate::{
    alloc,
    ctx::{same, show, Case, Ctx},
    ensure,
    gen::{self, Pieces, Req},
    rng::{Rng, SMALL},
    script::{chunks, cut, short_writes, End, In, Script, Writes},
};

type R = Result<(), String>;

fn headers_of(h: &std::collections::HashMap<String, String>) -> BTreeMap<String, String> {
    h.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn parse_ok(script: &Script) -> Result<Request, String> {
    match Request::parse(script.clone()) {
        Ok(Some(r)) => Ok(r),
        Ok(None) => Err("a well-formed request was taken for none at all".into()),
        Err(e) => Err(format!("a well-formed request was refused: {e:?}")),
    }
}

pub fn check_request(req: &Request, want: &Req) -> R {
    let method = gen::method_name(req.method());
    ensure!(method == want.method, "the method is {method:?} instead of {:?}", want.method);
    let known = matches!(want.method.as_str(), "GET" | "POST" | "HEAD");
    let other = matches!(req.method(), puck::request::Method::OtherMethod(_));
    ensure!(known != other, "the method {:?} was parsed as {:?}", want.method, req.method());
    let url = req.url();
    ensure!(
        url.host_str().map(|h| h.to_ascii_lowercase()) == Some(want.host.0.to_ascii_lowercase()),
        "the host of the URL is {:?} instead of {:?}",
        url.host_str(),
        want.host.0
    );
    let port = want.host.1.unwrap_or(80);
    ensure!(
        url.port_or_known_default() == Some(port),
        "the port of the URL is {:?} instead of {port}",
        url.port_or_known_default()
    );
    ensure!(url.path() == want.path, "the path is {:?} instead of {:?}", url.path(), want.path);
    ensure!(
        url.query() == want.query.as_deref(),
        "the query is {:?} instead of {:?}",
        url.query(),
        want.query
    );
    let got = headers_of(req.headers());
    let exp = gen::map(&want.headers);
    for (k, v) in &exp {
        ensure!(got.get(k) == Some(v), "the header {k:?} is {:?} instead of {v:?}", got.get(k));
    }
    ensure!(
        got.len() == exp.len(),
        "there are headers which were not sent: {:?}",
        got.keys().filter(|k| !exp.contains_key(*k)).collect::<Vec<_>>()
    );
    Ok(())
}

fn note_cut(c: &mut Case, input: &[In]) {
    c.count("deliveries", input.len() as u64);
    if input.len() > 1 {
        c.count("requests cut into several deliveries", 1);
    }
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "Heads are generated with their meaning (method, target form, escapes, 1 to 20 fields, cases, white space), and delivered in pieces (whole, single bytes, fixed sizes, at line ends, random) to the real parser, on a stream that would wait forever after the last byte; what is parsed is compared with the meaning. Distinct: different bytes or pieces.".into();
    ctx.section("heads", 40_000, |c| {
        let length = if c.rng.chance(3) { Some(c.rng.below(50)) } else { None };
        let want = gen::request(&mut c.rng, length, 20);
        let mut bytes = want.head.clone();
        if c.rng.chance(4) {
            bytes.extend(c.rng.bytes(30));
        }
        let input = cut(&mut c.rng, &bytes, &want.hints);
        c.input = json!({"bytes": show(&bytes), "pieces": input.len()});
        note_cut(c, &input);
        c.count("header fields", want.headers.len() as u64);
        c.key(format!("{:?}", input).as_bytes());
        let script = Script::new(input, End::Wait);
        let req = parse_ok(&script)?;
        check_request(&req, &want)?;
        ensure!(!script.state().waited, "parsing waited for bytes after the head");
        Ok(())
    });
    // names which differ in case only are names that were sent as well; of a name which was sent
    // several times in the same case, a map can only have one of the values, or all in one
    ctx.section("repeated names", 2_000, |c| {
        let mut want = gen::request(&mut c.rng, None, 12);
        let end = want.head.len() - 2;
        let mut values: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (k, v) in &want.headers {
            values.entry(k.clone()).or_default().push(v.clone());
        }
        let mut more = vec![];
        for _ in 0..c.rng.range(1, 8) {
            let all: Vec<&String> = values.keys().filter(|k| !k.eq_ignore_ascii_case("host")).collect();
            if all.is_empty() {
                break;
            }
            let name = all[c.rng.below(all.len())].clone();
            let name = if c.rng.chance(3) { name } else { gen::any_case(&mut c.rng, &name) };
            let value = gen::header_value(&mut c.rng);
            more.extend_from_slice(format!("{name}: {value}\r\n").as_bytes());
            values.entry(name).or_default().push(value);
        }
        want.head.splice(end..end, more);
        c.input = json!({"bytes": show(&want.head)});
        c.key(&want.head);
        let script = Script::new(cut(&mut c.rng, &want.head, &[]), End::Wait);
        let req = parse_ok(&script)?;
        let got = req.headers();
        for (k, v) in &values {
            let Some(g) = got.get(k) else {
                return Err(format!("the header {k:?} was sent and is not there: {got:?}"));
            };
            ensure!(
                v.contains(g) || v.iter().all(|v| g.contains(v.as_str())),
                "the header {k:?} is {g:?}, and {v:?} were sent"
            );
            c.count("names which were sent several times", (v.len() > 1) as u64);
        }
        ensure!(got.len() == values.len(), "there are headers which were not sent: {got:?}");
        Ok(())
    });
    // every position where a head can be cut in two
    ctx.section("two pieces", 300, |c| {
        let want = loop {
            let w = gen::request(&mut c.rng, None, 6);
            if w.head.len() < 500 {
                break w;
            }
        };
        c.input = json!({"bytes": show(&want.head)});
        for i in 1..want.head.len() {
            let script = Script::new(
                vec![In::Data(want.head[..i].to_vec()), In::Data(want.head[i..].to_vec())],
                End::Wait,
            );
            let req = parse_ok(&script).map_err(|e| format!("cut at {i}: {e}"))?;
            check_request(&req, &want).map_err(|e| format!("cut at {i}: {e}"))?;
            c.count("positions of a cut", 1);
        }
        c.key(&want.head);
        Ok(())
    });
    ctx.section("over a socket", 3_000, |c| {
        let want = gen::request(&mut c.rng, None, 20);
        let input = cut(&mut c.rng, &want.head, &want.hints);
        c.input = json!({"bytes": show(&want.head), "pieces": input.len()});
        c.key(format!("{:?}", input).as_bytes());
        note_cut(c, &input);
        let script = Script::new(input, End::Wait);
        match Request::parse(script.stream()) {
            Ok(Some(req)) => check_request(&req, &want),
            other => Err(format!("a well-formed request was refused: {other:?}")),
        }
    });
}

/// More than 32 bits can count.
const AMOUNT: u64 = (1 << 32) + 12345;

/// A source which has some bytes, then so many that only their number is looked at, and then never any more.
struct Endless {
    head: Vec<u8>,
    at: usize,
    left: u64,
    step: usize,
}

impl Endless {
    const FIRST: u8 = 1;
    const LAST: u8 = 2;

    fn new(head: &[u8], left: u64) -> Self {
        Endless { head: head.to_vec(), at: 0, left, step: 1 << 19 }
    }
}

impl Read for Endless {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.at < self.head.len() {
            let n = buf.len().min(self.head.len() - self.at);
            buf[..n].copy_from_slice(&self.head[self.at..self.at + n]);
            self.at += n;
            return Ok(n);
        }
        if self.left == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, crate::script::WOULD_WAIT));
        }
        self.step = (self.step + 1) % (1 << 20) + (1 << 19);
        let n = (buf.len().min(self.step) as u64).min(self.left) as usize;
        self.left -= n as u64;
        if n > 0 {
            buf[0] = Endless::FIRST;
            buf[n - 1] = Endless::LAST;
        }
        Ok(n)
    }
}

impl std::io::BufRead for Endless {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        Ok(&[Endless::LAST; 100])
    }
    fn consume(&mut self, _: usize) {}
}

/// The number of bytes which a body has.
fn amount_of(mut body: impl Read) -> Result<u64, String> {
    let mut buf = vec![0; 1 << 20];
    let mut total = 0u64;
    loop {
        match body.read(&mut buf).map_err(|e| format!("reading after {total} bytes: {e}"))? {
            0 => return Ok(total),
            n => total += n as u64,
        }
        ensure!(total <= AMOUNT + (1 << 22), "a body of {AMOUNT} bytes has more than {total}");
    }
}

/// Counts what is written, without keeping it.
struct Counting {
    head: Vec<u8>,
    total: u64,
}

impl std::io::Write for Counting {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = buf.len().min(5000usize.saturating_sub(self.head.len()));
        self.head.extend_from_slice(&buf[..n]);
        self.total += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Counting {
    fn body(&self) -> Result<u64, String> {
        let at = self.head.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no head was written")?;
        Ok(self.total - at as u64 - 4)
    }
}

/// Reads a body in some way, and returns what it had.
fn read_body(c: &mut Case, mut body: Body, ends: bool) -> Result<Vec<u8>, String> {
    let mode = c.rng.below(4);
    if mode == 1 && ends {
        return body.into_bytes().map_err(|e| format!("into_bytes failed: {e}"));
    }
    let mut out = vec![];
    let mut buf = vec![0u8; if SMALL { 1000 } else { 20_000 }];
    let size = *c.rng.pick(&[0, 1, 3, 64, 1000, if SMALL { 900 } else { 20_000 }]);
    let mut zero = 0;
    loop {
        let n = if size == 0 { c.rng.below(300) } else { size };
        let fill = c.rng.next() as u8;
        buf[..n].fill(fill);
        let got = body
            .read(&mut buf[..n])
            .map_err(|e| format!("reading the body failed after {} bytes: {e}", out.len()))?;
        c.count("reads of a body", 1);
        ensure!(got <= n, "a read into {n} bytes claims to have read {got}");
        out.extend_from_slice(&buf[..got]);
        if n > 0 && got == 0 {
            zero += 1;
            if zero == 3 {
                return Ok(out);
            }
        } else if got > 0 {
            ensure!(zero == 0, "the body went on after it had ended");
        }
    }
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "Requests with a Content-Length are generated (any case of the name; bodies of 0 bytes to 200 kB, text, binary, or looking like requests; bytes after the body or none) and delivered in pieces on a stream that would wait forever after the last byte; the body is read in pieces, as bytes or as a string and compared with what was sent. Distinct: different bytes or pieces.".into();
    ctx.section("bodies", 16_000, |c| {
        let body = gen::body(&mut c.rng);
        let want = gen::request(&mut c.rng, Some(body.len()), 20);
        let mut bytes = want.head.clone();
        bytes.extend_from_slice(&body);
        let end = bytes.len();
        if c.rng.chance(2) {
            if c.rng.chance(2) {
                bytes.extend_from_slice(b"GET /next HTTP/1.1\r\nHost: a\r\n\r\n");
            } else {
                let n = c.rng.range(1, 3000);
                bytes.extend(c.rng.bytes(n));
            }
            c.count("bytes after the body", 1);
        }
        let mut hints = want.hints.clone();
        hints.extend([want.head.len(), end]);
        let input = cut(&mut c.rng, &bytes, &hints);
        c.input = json!({"head": show(&want.head), "body": show(&body), "after": bytes.len() - end, "pieces": input.len()});
        note_cut(c, &input);
        c.key(format!("{:?}", input).as_bytes());
        let script = Script::new(input, if c.rng.chance(4) { End::Eof } else { End::Wait });
        let mut req = parse_ok(&script)?;
        let taken = if c.rng.chance(2) {
            req.take_body()
        } else {
            req.replace_body("new")
        };
        if c.rng.chance(4) {
            let got = taken.into_string();
            match std::str::from_utf8(&body) {
                Ok(_) => same("the body as a string", got.map_err(|e| format!("into_string failed: {e}"))?.as_bytes(), &body)?,
                Err(_) => ensure!(got.is_err(), "a body which is not UTF-8 became a string"),
            }
            c.count("bodies read as a string", 1);
        } else {
            let got = read_body(c, taken, true)?;
            same("the body", &got, &body)?;
        }
        c.count("bytes of bodies", body.len() as u64);
        ensure!(!script.state().waited, "reading the body waited for more than Content-Length announces");
        Ok(())
    });
    ctx.section("huge bodies", 10, |c| {
        let text = c.rng.chance(2);
        let n = gen::huge(&mut c.rng, c.index);
        let body = gen::much(&mut c.rng, n, text);
        let want = gen::request(&mut c.rng, Some(n), 20);
        let bytes = [&want.head[..], &body[..], b"GET / HTTP/1.1\r\n"].concat();
        let input = chunks(&mut c.rng, &bytes);
        c.input = json!({"head": show(&want.head), "body": n, "pieces": input.len()});
        c.key(format!("{n} {}", input.len()).as_bytes());
        let script = Script::new(input, End::Wait);
        let taken = parse_ok(&script)?.take_body();
        let got = if text && c.rng.chance(2) {
            taken.into_string().map_err(|e| format!("into_string failed: {e}"))?.into_bytes()
        } else {
            taken.into_bytes().map_err(|e| format!("into_bytes failed: {e}"))?
        };
        same("the body", &got, &body)?;
        c.count("bytes of bodies", n as u64);
        ensure!(!script.state().waited, "reading the body waited for more than Content-Length announces");
        Ok(())
    });
    ctx.section("more than 4 GiB", 1, |c| {
        let head = format!("POST / HTTP/1.1\r\nHost: a\r\nContent-Length: {AMOUNT}\r\n\r\n");
        c.key(head.as_bytes());
        let mut req = match Request::parse(Endless::new(head.as_bytes(), AMOUNT + 10)) {
            Ok(Some(r)) => r,
            other => return Err(format!("a well-formed request was refused: {other:?}")),
        };
        let n = amount_of(req.take_body())?;
        ensure!(n == AMOUNT, "a body of {AMOUNT} bytes ended after {n}");
        c.count("bytes of bodies", n);
        Ok(())
    });
    ctx.section("cut anywhere", 150, |c| {
        let n = c.rng.range(1, 60);
        let body = c.rng.bytes(n);
        let want = loop {
            let w = gen::request(&mut c.rng, Some(n), 4);
            if w.head.len() < 300 {
                break w;
            }
        };
        let mut bytes = want.head.clone();
        bytes.extend_from_slice(&body);
        c.input = json!({"bytes": show(&bytes)});
        c.key(&bytes);
        bytes.extend_from_slice(b"more");
        for i in want.head.len() - 5..bytes.len() {
            let script = Script::new(
                vec![In::Data(bytes[..i].to_vec()), In::Data(bytes[i..].to_vec())],
                End::Wait,
            );
            let mut req = parse_ok(&script)?;
            let got = req.take_body().into_bytes().map_err(|e| format!("cut at {i}: {e}"))?;
            same(&format!("the body, cut at {i}"), &got, &body)?;
            c.count("positions of a cut", 1);
        }
        Ok(())
    });
}

/// Breaks a well-formed head so that no reading of it is right.
pub fn break_head(rng: &mut Rng, bytes: &mut Vec<u8>, want: &Req) -> &'static str {
    let line = bytes.windows(2).position(|w| w == b"\r\n").unwrap();
    let rest = bytes[line + 2..].to_vec();
    let no_host: Vec<u8> = {
        let mut v = vec![];
        for (k, val) in &want.headers {
            if !k.eq_ignore_ascii_case("host") {
                v.extend_from_slice(format!("{k}: {val}\r\n").as_bytes());
            }
        }
        v
    };
    let first = bytes[..line + 2].to_vec();
    let put = |bytes: &mut Vec<u8>, first: &[u8], rest: &[u8]| {
        bytes.clear();
        bytes.extend_from_slice(first);
        bytes.extend_from_slice(rest);
    };
    match rng.below(9) {
        0 => {
            let mut r = no_host;
            r.extend_from_slice(b"\r\n");
            put(bytes, &first, &r);
            "no Host"
        }
        1 => {
            let n = rng.range(21usize.saturating_sub(want.headers.len()), 60);
            let mut r = vec![];
            for i in 0..n {
                r.extend_from_slice(format!("Extra-{i}: x\r\n").as_bytes());
            }
            r.extend_from_slice(&rest);
            put(bytes, &first, &r);
            "too many fields"
        }
        2 => {
            let bad: &[u8] = *rng.pick(&[
                &b"NoColonHere\r\n"[..],
                b"Bad Name: x\r\n",
                b"Bad\x01Name: x\r\n",
                b": no name\r\n",
                b"Bad(Name): x\r\n",
                b"B\xc3\xa9: x\r\n",
                b"Value: a\x00b\r\n",
                b"Value: a\x7fb\r\n",
                b" Name: x\r\n",
            ]);
            // not as the first field, where a leading space could be read as something else
            let mut r = vec![];
            let mut lines: Vec<Vec<u8>> = rest
                .split_inclusive(|&b| b == b'\n')
                .map(|l| l.to_vec())
                .collect();
            let most = lines.len() - 1;
            let at = rng.below(most + 1);
            let bad = if bad[0] == b' ' && at > 0 { b"NoColonHere\r\n" } else { bad };
            lines.insert(at, bad.to_vec());
            for l in lines {
                r.extend_from_slice(&l);
            }
            put(bytes, &first, &r);
            "bad field"
        }
        3 => {
            let bad: &[u8] = *rng.pick(&[
                &b"GET\r\n"[..],
                b"GET /\r\n",
                b"GET / HTTP/2.0\r\n",
                b"GET / HTTP/1.\r\n",
                b"GET / HTTP/x.1\r\n",
                b"GET / HTTPS/1.1\r\n",
                b"GET / http/1.1\r\n",
                b"GET / HTTP/1.1 x\r\n",
                b"GET /a b HTTP/1.1\r\n",
                b"G(T / HTTP/1.1\r\n",
                b"G\x01T / HTTP/1.1\r\n",
                b" / HTTP/1.1\r\n",
                b"GET  HTTP/1.1\r\n",
                b"/ GET HTTP/1.1\r\n",
                b"HTTP/1.1 200 OK\r\n",
                b"GET /\x00 HTTP/1.1\r\n",
                b"\x16\x03\x01\x02\x00\x01\r\n",
            ]);
            put(bytes, bad, &rest);
            "bad request line"
        }
        4 => {
            let bad = *rng.pick(&[
                "*", "foo", "foo/bar", "ftp://a/b", "ws://a/b", "file:///etc/passwd", "a:80", "?x", "#", "..",
                "mailto:a@b", "htp://a/", "://", "javascript:1", "http:/", "httpx://a/",
            ]);
            put(bytes, format!("{} {bad} HTTP/1.1\r\n", want.method).as_bytes(), &rest);
            "bad target"
        }
        5 => {
            let bad = *rng.pick(&[
                "a b", "exa<mple", "a>b", "ex^ample", "", "[::1", "::1]", "host:99999", "host:x", "a/b", "a?b",
                "a#b", "u@h", "u:p@h", "a\\b", "/", "?", "a|b", "[", "256.256.256.256", "%00", "host:-1", "a.example/b?c=",
            ]);
            let mut r = no_host;
            r.extend_from_slice(format!("Host: {bad}\r\n\r\n").as_bytes());
            let target = if rng.chance(2) { "/x" } else { "/" };
            put(bytes, format!("GET {target} HTTP/1.1\r\n").as_bytes(), &r);
            "bad Host"
        }
        6 => {
            let mut r = no_host;
            r.extend_from_slice(b"Host: a\r\nX-Bad-Utf8: a\xffb\r\n\r\n");
            if want.headers.len() >= 20 {
                r = b"Host: a\r\nX: \xc3\x28\r\n\r\n".to_vec();
            }
            put(bytes, &first, &r);
            "not UTF-8"
        }
        _ => {
            let at = rng.below(bytes.len());
            bytes.truncate(at);
            "truncated"
        }
    }
}

/// What came of some bytes, in a form which can be compared.
fn outcome(bytes: Vec<In>, end: End, as_string: bool) -> Result<String, String> {
    let script = Script::new(bytes, end);
    Ok(match Request::parse(script.clone()) {
        Ok(None) | Err(_) => "refused".to_string(),
        Ok(Some(mut r)) => {
            let head = format!(
                "{} {} {:?}",
                gen::method_name(r.method()),
                r.url(),
                headers_of(r.headers())
            );
            let body = if as_string {
                match r.take_body().into_string() {
                    Ok(s) => show(s.as_bytes()) + &format!("{:x}", crate::rng::hash(s.as_bytes())),
                    Err(_) => "failed".into(),
                }
            } else {
                match r.take_body().into_bytes() {
                    Ok(s) => show(&s) + &format!("{:x}", crate::rng::hash(&s)),
                    Err(_) => "failed".into(),
                }
            };
            head + " / " + &body
        }
    })
}

fn nasty(rng: &mut Rng) -> Vec<u8> {
    let length = if rng.chance(2) { Some(rng.below(40)) } else { None };
    let want = gen::request(rng, length, 20);
    let mut b = want.head.clone();
    match rng.below(8) {
        0 => {
            let n = rng.below(300);
            b = rng.bytes(n);
        }
        1 => {
            // claims
            let claim = *rng.pick(&[
                "18446744073709551615", "9223372036854775807", "9223372036854775808", "4294967295", "4294967296",
                "1099511627776", "99999999999999999999999", "-1", "+5", " 5", "5 5", "0x10", "1e9", "", "5,5", "4611686018427387904",
            ]);
            b = format!("POST / HTTP/1.1\r\nHost: a\r\nContent-Length: {claim}\r\n\r\nhello").into_bytes();
        }
        2 => {
            let (x, y) = *rng.pick(&[
                ("Host: one.example", "host: two.example"),
                ("HOST: one.example", "hOst: two.example"),
                ("Content-Length: 3", "content-length: 7"),
                ("content-length: 7", "CONTENT-LENGTH: 3"),
                ("Content-Length: x", "content-length: 2"),
                ("Host: one.example", "Host: two.example"),
            ]);
            let mut lines = vec![x, y, "A: b", "C: d"];
            if !x.to_ascii_lowercase().starts_with("host") {
                lines.push("Host: a");
            }
            rng.shuffle(&mut lines);
            b = format!("POST /p HTTP/1.1\r\n{}\r\n\r\nbody of some length", lines.join("\r\n")).into_bytes();
        }
        3 => {
            b = b"\r\n\r\n".to_vec();
            b.extend_from_slice(&want.head);
        }
        4 => {
            break_head(rng, &mut b, &want);
        }
        _ => {
            for _ in 0..rng.range(1, 6) {
                let at = rng.below(b.len());
                match rng.below(5) {
                    0 => b[at] = rng.next() as u8,
                    1 => {
                        b.remove(at);
                    }
                    2 => b.insert(at, *rng.pick(b"\r\n :/?#@[]%\x00\xff")),
                    3 => {
                        let to = (at + rng.below(20)).min(b.len());
                        let piece = b[at..to].to_vec();
                        let to = rng.below(b.len());
                        b.splice(to..to, piece);
                    }
                    _ => b.truncate(at),
                }
                if b.is_empty() {
                    break;
                }
            }
        }
    }
    if rng.chance(2) {
        let n = rng.below(100);
        b.extend(rng.bytes(n));
    }
    b
}

pub fn c03(ctx: &mut Ctx) {
    ctx.rule = "Well-formed heads are broken in one of nine ways (each of which leaves no valid reading), truncated at every position, or mutated at random (with huge or conflicting Content-Lengths); deliveries in pieces, with read errors. Monitored: nothing broken is accepted, no panic, peak memory of the thread against the bytes received, and equal outcomes of repeated runs and of different pieces. Distinct: different bytes.".into();
    ctx.section("broken heads", 30_000, |c| {
        let length = if c.rng.chance(3) { Some(5) } else { None };
        let want = gen::request(&mut c.rng, length, 20);
        let mut bytes = want.head.clone();
        let how = break_head(&mut c.rng, &mut bytes, &want);
        c.input = json!({"how": how, "bytes": show(&bytes)});
        c.key(&bytes);
        c.count(how, 1);
        let input = cut(&mut c.rng, &bytes, &[]);
        let script = Script::new(input, End::Eof);
        match Request::parse(script) {
            Ok(Some(r)) => Err(format!(
                "a broken head ({how}) became a request: {:?} {} {:?}",
                r.method(),
                r.url(),
                r.headers()
            )),
            _ => Ok(()),
        }
    });
    ctx.section("all truncations", 200, |c| {
        let want = gen::request(&mut c.rng, None, 6);
        let head = &want.head[..];
        c.input = json!({"bytes": show(head)});
        c.key(head);
        let from = head.len().saturating_sub(800);
        for i in from..head.len() {
            let end = if c.rng.chance(2) { End::Eof } else { End::Fail };
            let script = Script::whole(&head[..i], end);
            if let Ok(Some(r)) = Request::parse(script) {
                return Err(format!("the first {i} of {} bytes of a head became a request: {r:?}", head.len()));
            }
            c.count("truncations", 1);
        }
        Ok(())
    });
    ctx.section("anything", 20_000, |c| {
        let bytes = nasty(&mut c.rng);
        c.input = json!({"bytes": show(&bytes)});
        c.key(&bytes);
        let as_string = c.rng.chance(2);
        let whole = vec![In::Data(bytes.clone())];
        let (first, peak) = alloc::peak(|| outcome(whole.clone(), End::Eof, as_string));
        let first = first?;
        if first != "refused" {
            c.count("accepted", 1);
        } else {
            c.count("refused", 1);
        }
        let bound = 256 * 1024 + 20 * bytes.len();
        ensure!(peak <= bound, "{peak} bytes of memory for {} bytes received", bytes.len());
        for _ in 0..4 {
            let again = outcome(whole.clone(), End::Eof, as_string)?;
            ensure!(again == first, "the same bytes had two outcomes: {first} and {again}");
            let pieces = cut(&mut c.rng, &bytes, &[]);
            let again = outcome(pieces, End::Eof, as_string)?;
            ensure!(again == first, "the same bytes in other pieces had two outcomes: {first} and {again}");
        }
        Ok(())
    });
    ctx.section("read errors", 4_000, |c| {
        let body = c.rng.bytes(30);
        let want = gen::request(&mut c.rng, Some(30), 8);
        let mut bytes = want.head.clone();
        bytes.extend_from_slice(&body);
        let at = if c.rng.chance(2) {
            c.rng.below(want.head.len())
        } else {
            want.head.len() + c.rng.below(30)
        };
        c.input = json!({"bytes": show(&bytes), "fails at": at});
        c.key(&bytes[..at]);
        let script = Script::new(cut(&mut c.rng, &bytes[..at], &[]), End::Fail);
        match Request::parse(script) {
            Ok(Some(mut r)) => {
                ensure!(at >= want.head.len(), "a head that could not be read became a request");
                ensure!(
                    r.take_body().into_bytes().is_err(),
                    "a body that could not be read to its end was returned as a whole"
                );
            }
            Ok(None) => return Err("a read error was taken for the end of the stream".into()),
            Err(RequestParseError::IoError(_)) => {}
            Err(e) => return Err(format!("a read error was reported as {e:?}")),
        }
        Ok(())
    });
}

/// An independent reading of a message: first line, fields, body.
pub fn split_message(bytes: &[u8]) -> Result<(String, Vec<(String, String)>, Vec<u8>), String> {
    let at = bytes
        .windows(4)
        .position(|w| w == b"\r\n\r\n")
        .ok_or_else(|| format!("there is no end of the head in {:?}", show(bytes)))?;
    let head = std::str::from_utf8(&bytes[..at]).map_err(|_| "the head is not UTF-8".to_string())?;
    let mut lines = head.split("\r\n");
    let first = lines.next().unwrap_or("").to_string();
    let mut fields = vec![];
    for l in lines {
        let (k, v) = l.split_once(':').ok_or_else(|| format!("a field without colon: {l:?}"))?;
        ensure!(
            !k.is_empty() && k.bytes().all(|b| gen::TCHAR.contains(&b)),
            "a field with the name {k:?}"
        );
        fields.push((k.to_string(), v.trim_matches(|c| c == ' ' || c == '\t').to_string()));
    }
    Ok((first, fields, bytes[at + 4..].to_vec()))
}

pub struct Answer {
    pub status: u16,
    pub fields: Vec<(String, String)>,
    /// All bytes after the head, up to the end of the stream.
    pub body: Vec<u8>,
}

/// An independent reading of a response which is followed by the end of the stream (or, after a 101, by frames).
pub fn read_answer(bytes: &[u8]) -> Result<Answer, String> {
    let (first, fields, body) = split_message(bytes)?;
    let mut parts = first.splitn(3, ' ');
    let version = parts.next().unwrap_or("");
    ensure!(version == "HTTP/1.1" || version == "HTTP/1.0", "the status line is {first:?}");
    let code = parts.next().unwrap_or("");
    let status = code.parse().map_err(|_| format!("the status line is {first:?}"))?;
    ensure!(code.len() == 3, "the status line is {first:?}");
    if status != 101 {
        for (k, v) in &fields {
            if k.eq_ignore_ascii_case("content-length") {
                ensure!(v.parse() == Ok(body.len()), "Content-Length is {v} and the body has {} bytes: {}", body.len(), show(&body));
            }
        }
        ensure!(!body.windows(9).any(|w| w == b"HTTP/1.1 "), "a second response follows: {}", show(&body));
    }
    Ok(Answer { status, fields, body })
}

fn compare_fields(mut got: Vec<(String, String)>, want: &[(String, String)]) -> R {
    let mut want = want.to_vec();
    got.sort();
    want.sort();
    ensure!(got == want, "the header fields are {got:?} instead of {want:?}");
    Ok(())
}

struct Out {
    url: String,
    path: String,
    query: Option<String>,
    method: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}

fn outgoing(rng: &mut Rng, small: bool) -> Out {
    let method = gen::method(rng);
    let host = gen::host(rng);
    let path = if small { "/".to_string() + &gen::segment(rng) } else { gen::path(rng) };
    let query = gen::query(rng);
    let scheme = if rng.chance(4) { "https" } else { "http" };
    let mut url = format!("{scheme}://{}{path}", gen::host_text(&host));
    if let Some(q) = &query {
        url += &format!("?{q}");
    }
    if rng.chance(5) {
        url += "#fragment";
    }
    let body = if small {
        let n = rng.below(20);
        rng.bytes(n)
    } else {
        gen::body(rng)
    };
    let n = if small { 2 } else { rng.below(18) };
    let mut headers = gen::headers(rng, n, &mut vec![]);
    headers.push((gen::any_case(rng, "Host"), gen::host_text(&host)));
    if rng.chance(3) || !small {
        headers.push((gen::any_case(rng, "Content-Length"), body.len().to_string()));
    }
    Out {
        url,
        path,
        query,
        method,
        headers,
        body,
    }
}

fn build_request(rng: &mut Rng, o: &Out) -> Request {
    let mut b = if rng.chance(2) {
        Request::build(&o.url)
    } else {
        Request::try_build(&o.url).expect("the URL is valid")
    };
    if rng.chance(2) {
        b = b.headers(o.headers.clone());
    } else {
        for (k, v) in &o.headers {
            b = b.header(k.clone(), v.clone());
        }
    }
    b = b.method(gen::to_method(&o.method));
    b = b.body(gen::source(rng, &o.body));
    if rng.chance(2) {
        b.build()
    } else {
        b.try_build().expect("all parts are there")
    }
}

struct W<'a>(&'a mut Writes);

impl std::io::Write for W<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.0.write(buf)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn c04(ctx: &mut Ctx) {
    ctx.rule = "Requests are built with the real builder (all methods, URLs with and without query and fragment, up to 20 fields, bodies from strings and readers), written to a writer which accepts all, or little at a time, or is interrupted; the bytes are read by an independent reader and by Request::parse, and compared with what was built. For write errors, every offset of small messages fails in turn. Distinct: different bytes or ways to accept.".into();
    ctx.section("round trips", 12_000, |c| {
        let o = outgoing(&mut c.rng, false);
        c.input = json!({"url": o.url, "method": o.method, "headers": o.headers, "body": show(&o.body)});
        let mut req = build_request(&mut c.rng, &o);
        let mut w = Writes::default();
        short_writes(&mut c.rng, &mut w, true);
        if !w.accept.is_empty() {
            c.count("writers which accept only part", 1);
        }
        req.write(&mut W(&mut w)).map_err(|e| format!("writing failed: {e}"))?;
        c.count("bytes written", w.bytes.len() as u64);
        c.key(&w.bytes);
        let (first, fields, body) = split_message(&w.bytes)?;
        let target = match &o.query {
            Some(q) => format!("{}?{q}", o.path),
            None => o.path.clone(),
        };
        ensure!(
            first == format!("{} {target} HTTP/1.1", o.method),
            "the request line is {first:?}, for {} of {}",
            o.method,
            o.url
        );
        compare_fields(fields, &o.headers)?;
        same("the body on the wire", &body, &o.body)?;
        let script = Script::new(cut(&mut c.rng, &w.bytes, &[]), End::Eof);
        let mut back = parse_ok(&script)?;
        ensure!(back.method() == &gen::to_method(&o.method), "the method came back as {:?}", back.method());
        ensure!(back.url().path() == o.path, "the path came back as {:?}", back.url().path());
        ensure!(back.url().query() == o.query.as_deref(), "the query came back as {:?}", back.url().query());
        ensure!(
            headers_of(back.headers()) == gen::map(&o.headers),
            "the headers came back as {:?} instead of {:?}",
            back.headers(),
            o.headers
        );
        let got = back.take_body().into_bytes().map_err(|e| format!("reading the body: {e}"))?;
        same("the body that came back", &got, &o.body)
    });
    ctx.section("huge bodies", 10, |c| {
        let mut o = outgoing(&mut c.rng, true);
        let n = gen::huge(&mut c.rng, c.index);
        o.body = gen::much(&mut c.rng, n, c.index % 2 == 0);
        o.headers.retain(|(k, _)| !k.eq_ignore_ascii_case("content-length"));
        o.headers.push(("Content-Length".into(), n.to_string()));
        c.input = json!({"url": o.url, "method": o.method, "headers": o.headers, "body": n});
        let mut req = build_request(&mut c.rng, &o);
        let mut w = Writes { accept: vec![*c.rng.pick(&[1usize << 30, 1 << 16, 1460])], ..Default::default() };
        req.write(&mut W(&mut w)).map_err(|e| format!("writing failed: {e}"))?;
        c.key(format!("{n}").as_bytes());
        c.count("bytes written", w.bytes.len() as u64);
        let (_, fields, body) = split_message(&w.bytes)?;
        compare_fields(fields, &o.headers)?;
        same("the body on the wire", &body, &o.body)?;
        let script = Script::new(chunks(&mut c.rng, &w.bytes), End::Eof);
        let got = parse_ok(&script)?.take_body().into_bytes().map_err(|e| format!("reading the body: {e}"))?;
        same("the body that came back", &got, &o.body)
    });
    ctx.section("more than 4 GiB written", 1, |c| {
        let body = Body::from_reader(std::io::BufReader::new(Endless::new(b"", u64::MAX).take(AMOUNT)), None);
        let mut req = Request::build("http://a/").method(gen::to_method("POST")).header("Host", "a").body(body).build();
        let mut to = Counting { head: vec![], total: 0 };
        req.write(&mut to).map_err(|e| format!("writing after {} bytes: {e}", to.total))?;
        c.key(b"more than 4 GiB");
        ensure!(to.body()? == AMOUNT, "of a body of {AMOUNT} bytes, {} were written", to.body()?);
        Ok(())
    });
    ctx.section("failing writers", 250, |c| {
        let o = outgoing(&mut c.rng, true);
        c.input = json!({"url": o.url, "method": o.method, "headers": o.headers, "body": show(&o.body)});
        let mut w = Writes::default();
        build_request(&mut c.rng, &o).write(&mut W(&mut w)).map_err(|e| format!("writing failed: {e}"))?;
        let total = w.bytes.len();
        c.key(&w.bytes);
        for at in 0..=total {
            let mut f = Writes {
                fail_at: Some(at),
                ..Default::default()
            };
            short_writes(&mut c.rng, &mut f, true);
            let r = build_request(&mut c.rng, &o).write(&mut W(&mut f));
            c.count("write failures", f.failed.min(1) as u64);
            if at < total {
                ensure!(r.is_err(), "writing was reported as a success, with {at} of {total} bytes written");
            } else {
                ensure!(r.is_ok(), "writing failed although all was accepted: {r:?}");
            }
        }
        Ok(())
    });
    ctx.section("failing bodies", 2_000, |c| {
        let o = outgoing(&mut c.rng, true);
        let mut req = build_request(&mut c.rng, &o);
        let n = c.rng.below(20);
        let data = c.rng.bytes(n);
        c.key(&data);
        let pieces = vec![Ok(data), Err(std::io::ErrorKind::Other)];
        let _ = req.replace_body(Body::from_reader(Pieces::new(pieces), None));
        c.input = json!({"url": o.url, "body fails after": n});
        let mut w = Writes::default();
        ensure!(
            req.write(&mut W(&mut w)).is_err(),
            "a request whose body could not be read was reported as written"
        );
        Ok(())
    });
}

pub struct Resp {
    pub status: u16,
    pub reason: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

pub fn response(rng: &mut Rng, small: bool) -> Resp {
    let status = if rng.chance(2) {
        *rng.pick(&[200, 204, 301, 400, 404, 500, 101, 100, 599])
    } else {
        rng.range(100, 999) as u16
    };
    let reason = match rng.below(4) {
        0 => String::new(),
        1 => "OK".to_string(),
        2 => "not found".to_string(),
        _ => rng.word(b"abcdefghijklmnopqrstuvwxyz -:.'()", 0, 20).trim().to_string(),
    };
    let n = if small { rng.below(3) } else { rng.below(30) };
    let mut headers = gen::headers(rng, n, &mut vec![]);
    let body = if small {
        let n = rng.below(20);
        rng.bytes(n)
    } else {
        gen::body(rng)
    };
    if rng.chance(2) {
        headers.push((gen::any_case(rng, "Content-Length"), body.len().to_string()));
    }
    Resp {
        status,
        reason,
        headers,
        body,
    }
}

pub fn build_response(rng: &mut Rng, r: &Resp) -> Response {
    let mut b = Response::build();
    if rng.chance(2) {
        b = b.headers(r.headers.clone());
    } else {
        for (k, v) in &r.headers {
            b = b.header(k, v);
        }
    }
    if !(r.status == 200 && r.reason.is_empty() && rng.chance(2)) {
        b = b.status(r.status, &r.reason);
    }
    if !(r.body.is_empty() && rng.chance(2)) {
        b = b.body(gen::source(rng, &r.body));
    }
    b.build()
}

pub fn check_response_bytes(bytes: &[u8], r: &Resp) -> R {
    let (first, fields, body) = split_message(bytes)?;
    let want = format!("HTTP/1.1 {} {}", r.status, r.reason);
    ensure!(first.trim_end() == want.trim_end(), "the status line is {first:?} instead of {want:?}");
    compare_fields(fields, &r.headers)?;
    same("the body on the wire", &body, &r.body)
}

pub fn c05(ctx: &mut Ctx) {
    ctx.rule = "Responses are built with the real builder (statuses, reasons, up to 31 fields, bodies of 0 to 200 kB from strings and readers, declared lengths), encoded to a transport which accepts all, or little at a time, or is interrupted; an independent reader takes the bytes apart. For write errors, every offset of small messages fails in turn; bodies fail or are interrupted at any offset. Distinct: different bytes.".into();
    ctx.section("responses", 14_000, |c| {
        let r = response(&mut c.rng, false);
        c.input = json!({"status": r.status, "reason": r.reason, "headers": r.headers, "body": show(&r.body)});
        let res = build_response(&mut c.rng, &r);
        let socket = Script::whole(b"", End::Wait);
        let interrupts = c.rng.chance(2);
        short_writes(&mut c.rng, &mut socket.state().out, interrupts);
        let how = c.rng.below(3);
        match how {
            0 => puck::write_response(res, socket.clone()),
            1 => Encoder::new(res)
                .write_tcp_stream(socket.clone())
                .map_err(|e| format!("encoding failed: {e}"))?,
            _ => {
                let mut w: Vec<u8> = vec![];
                Encoder::new(res)
                    .write_tcp_stream(&mut w)
                    .map_err(|e| format!("encoding failed: {e}"))?;
                socket.state().out.bytes = w;
            }
        }
        let out = std::mem::take(&mut socket.state().out);
        c.count("writes", out.calls.len() as u64);
        c.count("bytes written", out.bytes.len() as u64);
        c.key(&out.bytes);
        check_response_bytes(&out.bytes, &r)
    });
    ctx.section("huge bodies", 10, |c| {
        let mut r = response(&mut c.rng, true);
        let n = gen::huge(&mut c.rng, c.index);
        r.body = gen::much(&mut c.rng, n, c.index % 2 == 0);
        r.headers.retain(|(k, _)| !k.eq_ignore_ascii_case("content-length"));
        c.input = json!({"headers": r.headers, "body": n});
        let res = build_response(&mut c.rng, &r);
        let mut w = Writes { accept: vec![*c.rng.pick(&[1usize << 30, 1 << 16, 1460])], ..Default::default() };
        Encoder::new(res).write_tcp_stream(W(&mut w)).map_err(|e| format!("encoding failed: {e}"))?;
        c.key(format!("{n}").as_bytes());
        c.count("bytes written", w.bytes.len() as u64);
        check_response_bytes(&w.bytes, &r)
    });
    ctx.section("more than 4 GiB written", 1, |c| {
        let body = Body::from_reader(std::io::BufReader::new(Endless::new(b"", u64::MAX).take(AMOUNT)), None);
        let mut to = Counting { head: vec![], total: 0 };
        Encoder::new(Response::build().body(body).build())
            .write_tcp_stream(&mut to)
            .map_err(|e| format!("writing after {} bytes: {e}", to.total))?;
        c.key(b"more than 4 GiB");
        ensure!(to.body()? == AMOUNT, "of a body of {AMOUNT} bytes, {} were written", to.body()?);
        Ok(())
    });
    ctx.section("failing transports", 250, |c| {
        let r = response(&mut c.rng, true);
        c.input = json!({"status": r.status, "reason": r.reason, "headers": r.headers, "body": show(&r.body)});
        let mut w: Vec<u8> = vec![];
        Encoder::new(build_response(&mut c.rng, &r))
            .write_tcp_stream(&mut w)
            .map_err(|e| format!("encoding failed: {e}"))?;
        c.key(&w);
        let total = w.len();
        for at in 0..=total {
            let mut f = Writes {
                fail_at: Some(at),
                ..Default::default()
            };
            short_writes(&mut c.rng, &mut f, true);
            let got = Encoder::new(build_response(&mut c.rng, &r)).write_tcp_stream(W(&mut f));
            c.count("write failures", f.failed.min(1) as u64);
            if at < total {
                ensure!(got.is_err(), "sending was reported as a success, with {at} of {total} bytes accepted");
            } else {
                ensure!(got.is_ok(), "sending failed although all was accepted: {got:?}");
            }
        }
        Ok(())
    });
    ctx.section("bodies from readers", 6_000, |c| {
        let mut r = response(&mut c.rng, true);
        r.body = gen::body(&mut c.rng);
        let mut pieces = vec![];
        let mut at = 0;
        let mut fails = None;
        let fail_at = if c.rng.chance(2) { Some(c.rng.below(r.body.len() + 1)) } else { None };
        while at < r.body.len() {
            if c.rng.chance(4) {
                pieces.push(Err(std::io::ErrorKind::Interrupted));
                c.count("interrupted reads of a body", 1);
            }
            let mut n = c.rng.range(1, 3000).min(r.body.len() - at);
            if let Some(f) = fail_at {
                if at < f {
                    n = n.min(f - at);
                }
                if at == f {
                    pieces.push(Err(std::io::ErrorKind::Other));
                    fails = Some(at);
                }
            }
            pieces.push(Ok(r.body[at..at + n].to_vec()));
            at += n;
        }
        let length = match c.rng.below(4) {
            0 => Some(r.body.len()),
            1 => Some(c.rng.below(r.body.len() + 1)),
            2 => Some(r.body.len() + c.rng.range(1, 10)),
            _ => None,
        };
        let want = length.unwrap_or(usize::MAX).min(r.body.len());
        c.input = json!({"body": show(&r.body), "length": length, "fails at": fails});
        c.key(format!("{length:?} {fails:?} {}", pieces.len()).as_bytes());
        let res = Response::build()
            .headers(r.headers.clone())
            .status(r.status, &r.reason)
            .body(Body::from_reader(Pieces::new(pieces), length))
            .build();
        let mut w: Vec<u8> = vec![];
        let got = Encoder::new(res).write_tcp_stream(&mut w);
        match fails {
            Some(f) if f < want => {
                c.count("failed reads of a body", 1);
                ensure!(got.is_err(), "a body which could not be read was reported as sent");
                r.body.truncate(f);
            }
            _ => {
                ensure!(got.is_ok(), "sending failed: {got:?}");
                r.body.truncate(want);
            }
        }
        // what was sent before a failure is the beginning of the response
        check_response_bytes(&w, &r).or_else(|e| {
            if got.is_err() && w.len() < 40 {
                Ok(())
            } else if got.is_err() {
                let (_, _, b) = split_message(&w)?;
                ensure!(r.body.starts_with(&b), "{e}");
                Ok(())
            } else {
                Err(e)
            }
        })
    });
}

fn wire_response(rng: &mut Rng, r: &Resp) -> (Vec<u8>, Vec<usize>) {
    let mut head = format!("HTTP/1.1 {} {}\r\n", r.status, r.reason).into_bytes();
    if r.reason.is_empty() && rng.chance(2) {
        head = format!("HTTP/1.1 {}\r\n", r.status).into_bytes();
    }
    let mut hints = vec![head.len()];
    for (k, v) in &r.headers {
        let pad = *rng.pick(&["", " ", " ", " ", "\t", "  "]);
        head.extend_from_slice(format!("{k}:{pad}{v}\r\n").as_bytes());
        hints.push(head.len());
    }
    head.extend_from_slice(b"\r\n");
    hints.push(head.len());
    (head, hints)
}

pub fn c06(ctx: &mut Ctx) {
    ctx.rule = "Responses are generated with their meaning and delivered in pieces to the real parser, with a Content-Length on a stream that would wait forever after the body, or up to the end of the stream; what is parsed is compared with the meaning. Broken heads: all truncations, bad status lines and fields, more than 20 fields. Distinct: different bytes or pieces.".into();
    ctx.section("responses", 20_000, |c| {
        let mut r = response(&mut c.rng, false);
        r.headers.retain(|(k, _)| !k.eq_ignore_ascii_case("content-length"));
        r.headers.truncate(19);
        let with_length = c.rng.chance(2);
        if with_length {
            let at = c.rng.below(r.headers.len() + 1);
            let name = gen::any_case(&mut c.rng, "Content-Length");
            r.headers.insert(at, (name, r.body.len().to_string()));
        }
        if c.rng.chance(2) && r.headers.len() < 20 && !r.headers.iter().any(|(k, _)| k.eq_ignore_ascii_case("content-type")) {
            let name = gen::any_case(&mut c.rng, "Content-Type");
            let value = c.rng.pick(&["text/html", "3", "application/octet-stream", "0"]).to_string();
            r.headers.push((name, value));
        }
        let (mut bytes, hints) = wire_response(&mut c.rng, &r);
        bytes.extend_from_slice(&r.body);
        let mut end = End::Eof;
        if with_length {
            end = End::Wait;
            if c.rng.chance(2) {
                bytes.extend_from_slice(b"HTTP/1.1 200 OK\r\n\r\nmore");
                c.count("bytes after the body", 1);
            }
        }
        let input = cut(&mut c.rng, &bytes, &hints);
        c.input = json!({"bytes": show(&bytes), "pieces": input.len()});
        c.key(format!("{input:?}").as_bytes());
        note_cut(c, &input);
        let script = Script::new(input, end);
        let mut got = match Response::parse(script.clone()) {
            Ok(Some(g)) => g,
            other => return Err(format!("a well-formed response was refused: {other:?}")),
        };
        ensure!(!script.state().waited, "parsing waited for bytes after the head");
        ensure!(*got.status() == r.status, "the status is {} instead of {}", got.status(), r.status);
        ensure!(got.reason() == r.reason, "the reason is {:?} instead of {:?}", got.reason(), r.reason);
        ensure!(
            headers_of(got.headers()) == gen::map(&r.headers),
            "the headers are {:?} instead of {:?}",
            got.headers(),
            r.headers
        );
        let taken = got.take_body();
        let body = read_body(c, taken, true)?;
        same("the body", &body, &r.body)?;
        ensure!(!script.state().waited, "reading the body waited for more than Content-Length announces");
        Ok(())
    });
    ctx.section("huge bodies", 10, |c| {
        let mut r = response(&mut c.rng, true);
        let n = gen::huge(&mut c.rng, c.index);
        r.body = gen::much(&mut c.rng, n, c.index % 2 == 0);
        r.headers.retain(|(k, _)| !k.eq_ignore_ascii_case("content-length"));
        let with_length = c.rng.chance(2);
        if with_length {
            r.headers.push(("content-length".into(), n.to_string()));
        }
        c.input = json!({"headers": r.headers, "body": n});
        c.key(format!("{n} {with_length}").as_bytes());
        let (mut bytes, _) = wire_response(&mut c.rng, &r);
        bytes.extend_from_slice(&r.body);
        let script = Script::new(chunks(&mut c.rng, &bytes), if with_length { End::Wait } else { End::Eof });
        let mut got = match Response::parse(script.clone()) {
            Ok(Some(g)) => g,
            other => return Err(format!("a well-formed response was refused: {other:?}")),
        };
        let body = got.take_body().into_bytes().map_err(|e| format!("reading the body: {e}"))?;
        ensure!(!script.state().waited, "reading the body waited for more than Content-Length announces");
        same("the body", &body, &r.body)
    });
    // what is to be made of it is left open, but it does not change from run to run
    ctx.section("repeated lengths", 500, |c| {
        let mut lines: Vec<String> = vec![];
        for n in 0..c.rng.range(2, 4) {
            let value = c.rng.pick(&["0", "3", "7", "11", "x", ""]).to_string();
            lines.push(format!("{}: {value}", gen::any_case(&mut c.rng, "Content-Length")));
            if c.rng.chance(2) {
                lines.push(format!("X-{n}: y"));
            }
        }
        let bytes = format!("HTTP/1.1 200 OK\r\n{}\r\n\r\nbody of some length", lines.join("\r\n")).into_bytes();
        c.input = json!({"bytes": show(&bytes)});
        c.key(&bytes);
        let mut first = None;
        for _ in 0..8 {
            let script = Script::new(cut(&mut c.rng, &bytes, &[]), End::Eof);
            let got = match Response::parse(script) {
                Ok(Some(mut r)) => Some(r.take_body().into_bytes().map_err(|e| e.to_string())),
                _ => None,
            };
            match &first {
                None => first = Some(got),
                Some(first) => ensure!(*first == got, "the same response is parsed with a body of {first:?} and with one of {got:?}"),
            }
        }
        Ok(())
    });
    ctx.section("more than 4 GiB", 1, |c| {
        let head = format!("HTTP/1.1 200 OK\r\nContent-Length: {AMOUNT}\r\n\r\n");
        c.key(head.as_bytes());
        let mut res = match Response::parse(Endless::new(head.as_bytes(), AMOUNT + 10)) {
            Ok(Some(r)) => r,
            other => return Err(format!("a well-formed response was refused: {other:?}")),
        };
        let n = amount_of(res.take_body())?;
        ensure!(n == AMOUNT, "a body of {AMOUNT} bytes ended after {n}");
        Ok(())
    });
    ctx.section("broken heads", 12_000, |c| {
        let mut r = response(&mut c.rng, false);
        r.headers.truncate(20);
        let (mut bytes, _) = wire_response(&mut c.rng, &r);
        let line = bytes.windows(2).position(|w| w == b"\r\n").unwrap();
        let rest = bytes[line + 2..].to_vec();
        let how = match c.rng.below(5) {
            0 => {
                let bad: &[u8] = *c.rng.pick(&[
                    &b"HTTP/1.1 abc OK\r\n"[..],
                    b"HTP/1.1 200 OK\r\n",
                    b"HTTP/1.1 20 OK\r\n",
                    b"HTTP/1.1 2000 OK\r\n",
                    b"HTTP/2.0 200 OK\r\n",
                    b"HTTP/1.1\r\n",
                    b"HTTP/1.1  200 OK\r\n",
                    b"200 OK\r\n",
                    b"GET / HTTP/1.1\r\n",
                    b"HTTP/1.1 -20 OK\r\n",
                ]);
                bytes = [bad, &rest].concat();
                "bad status line"
            }
            1 => {
                let bad: &[u8] = *c.rng.pick(&[
                    &b"NoColonHere\r\n"[..],
                    b"Bad Name: x\r\n",
                    b": no name\r\n",
                    b"Value: a\x00b\r\n",
                    b"B(d: x\r\n",
                ]);
                let first = bytes[..line + 2].to_vec();
                let mut lines: Vec<&[u8]> = rest.split_inclusive(|&b| b == b'\n').collect();
                let at = c.rng.below(lines.len());
                lines.insert(at, bad);
                bytes = [&first[..], &lines.concat()].concat();
                "bad field"
            }
            2 => {
                let first = bytes[..line + 2].to_vec();
                let n = c.rng.range(21 - r.headers.len(), 50);
                let more: String = (0..n).map(|i| format!("Extra-{i}: x\r\n")).collect();
                bytes = if c.rng.chance(2) {
                    [&first[..], more.as_bytes(), &rest].concat()
                } else {
                    [&first[..], &rest[..rest.len() - 2], more.as_bytes(), b"\r\n"].concat()
                };
                "too many fields"
            }
            3 => {
                let first = bytes[..line + 2].to_vec();
                bytes = [&first[..], b"X: \xff\r\n\r\n"].concat();
                "not UTF-8"
            }
            _ => {
                let at = c.rng.below(bytes.len());
                bytes.truncate(at);
                "truncated"
            }
        };
        c.count(how, 1);
        c.input = json!({"how": how, "bytes": show(&bytes)});
        c.key(&bytes);
        let script = Script::new(cut(&mut c.rng, &bytes, &[]), End::Eof);
        match Response::parse(script) {
            Ok(Some(r)) => Err(format!("a broken head ({how}) became a response: {r:?}")),
            _ => Ok(()),
        }
    });
    ctx.section("anything", 8_000, |c| {
        let r = response(&mut c.rng, true);
        let (mut bytes, _) = wire_response(&mut c.rng, &r);
        bytes.extend_from_slice(&r.body);
        for _ in 0..c.rng.range(1, 5) {
            let at = c.rng.below(bytes.len());
            match c.rng.below(3) {
                0 => bytes[at] = c.rng.next() as u8,
                1 => {
                    bytes.remove(at);
                }
                _ => bytes.insert(at, *c.rng.pick(b"\r\n: 9/\x00\xff")),
            }
        }
        c.input = json!({"bytes": show(&bytes)});
        c.key(&bytes);
        let run = |input: Vec<In>| match Response::parse(Script::new(input, End::Eof)) {
            Ok(Some(mut r)) => {
                let head = format!("{} {} {:?}", r.status(), r.reason(), headers_of(r.headers()));
                format!("{head} {:?}", r.take_body().into_bytes().ok())
            }
            _ => "refused".to_string(),
        };
        let one = run(vec![In::Data(bytes.clone())]);
        let two = run(cut(&mut c.rng, &bytes, &[]));
        ensure!(one == two, "the same bytes in other pieces had two outcomes: {one} and {two}");
        Ok(())
    });
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "Bodies are made from strings and from readers which deliver their data in pieces of any size, fail or are interrupted in between, with a declared length below, equal to, above the size, or none; they are read with all kinds of read sizes including 0, or as a whole; what comes out is compared with the source. Bodies of requests and responses are taken and replaced, also half-read ones. Distinct: different contents and histories.".into();
    ctx.section("reads", 15_000, |c| {
        let data = gen::body(&mut c.rng);
        let mut pieces = vec![];
        let mut at = 0;
        let mut errors = 0;
        let most = *c.rng.pick(&[1, 10, 1000, 100_000]);
        let most = if data.len() > 20_000 { most.max(500) } else { most };
        while at < data.len() {
            if c.rng.chance(5) {
                pieces.push(Err(*c.rng.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::Interrupted])));
                errors += 1;
            }
            let n = c.rng.range(1, most).min(data.len() - at);
            pieces.push(Ok(data[at..at + n].to_vec()));
            at += n;
        }
        let length = match c.rng.below(5) {
            0 => Some(data.len()),
            1 => Some(c.rng.below(data.len() + 1)),
            2 => Some(data.len() + c.rng.range(1, 10)),
            3 => Some(usize::MAX),
            _ => None,
        };
        let want = &data[..length.unwrap_or(usize::MAX).min(data.len())];
        c.input = json!({"content": show(&data), "length": length, "pieces": pieces.len(), "errors": errors});
        c.key(format!("{length:?} {} {errors} {}", pieces.len(), crate::rng::hash(&data)).as_bytes());
        c.count("errors of the source", errors);
        let mut body = Body::from_reader(Pieces::new(pieces), length);
        let mut out = vec![];
        let mut buf = vec![0u8; 30_000];
        let size = *c.rng.pick(&[0, 1, 2, 50, 8192, 30_000]);
        let size = if data.len() > 20_000 { size.max(100) } else { size };
        let mut ends = 0;
        let mut seen = 0;
        while ends < 3 {
            let n = if size == 0 || c.rng.chance(8) { c.rng.below(40) } else { size };
            match body.read(&mut buf[..n]) {
                Ok(got) => {
                    ensure!(got <= n, "a read into {n} bytes claims to have read {got}");
                    out.extend_from_slice(&buf[..got]);
                    c.count("reads", 1);
                    if n > 0 && got == 0 {
                        ends += 1;
                    } else if got > 0 {
                        ensure!(ends == 0, "the body went on after it had ended");
                    }
                }
                Err(_) => {
                    seen += 1;
                    ensure!(seen <= errors, "the body made up an error");
                }
            }
        }
        same("the body", &out, want)
    });
    ctx.section("whole", 15_000, |c| {
        let data = gen::body(&mut c.rng);
        let text = std::str::from_utf8(&data).is_ok();
        let as_string = c.rng.chance(2);
        let (mut body, want) = match c.rng.below(4) {
            0 => {
                let s = c.rng.text(300);
                let b = if c.rng.chance(2) { Body::from(s.as_str()) } else { Body::from_string(s.clone()) };
                (b, s.into_bytes())
            }
            1 => (Body::empty(), vec![]),
            2 => {
                let n = c.rng.below(data.len() + 1);
                (
                    Body::from_reader(Pieces::cut(&mut c.rng, &data), Some(n)),
                    data[..n].to_vec(),
                )
            }
            _ => (gen::source(&mut c.rng, &data), data.clone()),
        };
        c.input = json!({"content": show(&want), "as string": as_string});
        c.key(&want);
        let mut start = vec![0; c.rng.below(want.len() + 1)];
        if c.rng.chance(3) {
            body.read_exact(&mut start).map_err(|e| format!("read_exact: {e}"))?;
        } else {
            start.clear();
        }
        let rest = &want[start.len()..];
        if as_string {
            let got = body.into_string();
            match std::str::from_utf8(rest) {
                Ok(_) => {
                    start.extend(got.map_err(|e| format!("into_string: {e}"))?.into_bytes());
                    same("the body as a string", &start, &want)?;
                }
                Err(_) => {
                    ensure!(got.is_err(), "a body which is not UTF-8 became the string {:?}", got);
                    c.count("refused strings", 1);
                }
            }
        } else {
            start.extend(body.into_bytes().map_err(|e| format!("into_bytes: {e}"))?);
            same("the body as bytes", &start, &want)?;
        }
        let _ = text;
        Ok(())
    });
    ctx.section("huge bodies", 10, |c| {
        let text = c.rng.chance(2);
        let n = gen::huge(&mut c.rng, c.index);
        let data = gen::much(&mut c.rng, n, text);
        let length = *c.rng.pick(&[None, Some(n), Some(n - 1), Some(n / 2), Some(n + 5)]);
        let want = &data[..length.unwrap_or(n).min(n)];
        c.input = json!({"size": n, "length": length});
        c.key(format!("{n} {length:?}").as_bytes());
        let pieces = chunks(&mut c.rng, &data).into_iter().filter_map(|p| match p {
            In::Data(d) => Some(Ok(d)),
            _ => None,
        });
        let body = match (c.rng.below(3), std::str::from_utf8(&data)) {
            (0, Ok(s)) if length.is_none() => Body::from_string(s),
            _ => Body::from_reader(Pieces::new(pieces.collect()), length),
        };
        let got = if text && c.rng.chance(2) {
            body.into_string().map_err(|e| format!("into_string: {e}"))?.into_bytes()
        } else {
            body.into_bytes().map_err(|e| format!("into_bytes: {e}"))?
        };
        same("the body", &got, want)
    });
    // a source that never ends: only the amounts are looked at
    ctx.section("more than 4 GiB", 1, |c| {
        let amount = AMOUNT;
        c.key(b"endless");
        for length in [None, usize::try_from(amount).ok(), Some(usize::MAX)] {
            let mut body = Body::from_reader(Endless::new(b"", u64::MAX), length);
            let mut buf = vec![0; 1 << 20];
            let mut total = 0u64;
            loop {
                let n = body.read(&mut buf).map_err(|e| format!("reading after {total} bytes: {e}"))?;
                total += n as u64;
                c.count("reads", 1);
                if n == 0 || total > amount + (1 << 22) {
                    break;
                }
                ensure!(buf[0] == Endless::FIRST && buf[n - 1] == Endless::LAST, "a byte was altered after {total} bytes");
            }
            if length.map(|l| l as u64) == Some(amount) {
                ensure!(total == amount, "a body of {amount} bytes ended after {total}");
            } else if length.is_none() {
                ensure!(total > amount, "an endless body ended after {total} bytes");
            }
        }
        Ok(())
    });
    ctx.section("failing sources", 4_000, |c| {
        let mut data = gen::body(&mut c.rng);
        data.truncate(3000);
        let at = c.rng.below(data.len() + 1);
        let (a, b) = data.split_at(at);
        let kind = *c.rng.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::ConnectionReset]);
        let pieces = vec![Ok(a.to_vec()), Err(kind), Ok(b.to_vec())];
        c.input = json!({"content": show(&data), "fails at": at});
        c.key(&data);
        let body = Body::from_reader(Pieces::new(pieces), if c.rng.chance(2) { Some(data.len() + 1) } else { None });
        let failed = if c.rng.chance(2) {
            body.into_bytes().is_err()
        } else {
            body.into_string().is_err()
        };
        ensure!(failed, "a body whose source failed after {at} bytes was returned as a whole");
        Ok(())
    });
    ctx.section("replaced bodies", 5_000, |c| {
        let mut bodies: Vec<Vec<u8>> = (0..4).map(|_| {
            let mut b = gen::body(&mut c.rng);
            b.truncate(3000);
            b
        }).collect();
        c.input = json!({"bodies": bodies.iter().map(|b| show(b)).collect::<Vec<_>>()});
        c.key(&bodies.concat());
        let first = gen::source(&mut c.rng, &bodies[0]);
        enum Either {
            Req(Request),
            Res(Response),
        }
        let mut m = if c.rng.chance(2) {
            Either::Req(
                Request::build("http://a/")
                    .method(puck::request::Method::Post)
                    .header("Host", "a")
                    .header(gen::any_case(&mut c.rng, "Content-Type"), "text/plain")
                    .body(first)
                    .build(),
            )
        } else {
            let name = gen::any_case(&mut c.rng, "Content-Type");
            Either::Res(Response::build().header(name, "text/plain").body(first).build())
        };
        for i in 1..bodies.len() {
            let take = c.rng.chance(4);
            let next = gen::source(&mut c.rng, &bodies[i]);
            let mut old = match (&mut m, take) {
                (Either::Req(r), true) => r.take_body(),
                (Either::Req(r), false) => r.replace_body(next),
                (Either::Res(r), true) => r.take_body(),
                (Either::Res(r), false) => r.replace_body(next),
            };
            c.count("replacements", 1);
            let headers = match &m {
                Either::Req(r) => r.headers(),
                Either::Res(r) => r.headers(),
            };
            let types: Vec<_> = headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case("content-type")).collect();
            ensure!(
                types.len() == 1 && types[0].1 == "application/octet-stream",
                "after the body was replaced, the content type is {types:?}"
            );
            if take {
                bodies[i] = vec![];
            }
            let want = std::mem::take(&mut bodies[i - 1]);
            if c.rng.chance(3) {
                // put back, half read
                let mut half = vec![0; c.rng.below(want.len() + 1)];
                old.read_exact(&mut half).map_err(|e| format!("read_exact: {e}"))?;
                same("the first part of the old body", &half, &want[..half.len()])?;
                let put_aside = match &mut m {
                    Either::Req(r) => r.replace_body(old),
                    Either::Res(r) => r.replace_body(old),
                };
                let rest = match &mut m {
                    Either::Req(r) => r.replace_body(put_aside),
                    Either::Res(r) => r.replace_body(put_aside),
                };
                let rest = rest.into_bytes().map_err(|e| format!("into_bytes: {e}"))?;
                same("the rest of a body that was put back", &rest, &want[half.len()..])?;
            } else {
                let got = old.into_bytes().map_err(|e| format!("into_bytes: {e}"))?;
                same("the old body", &got, &want)?;
            }
        }
        let last = bodies.last().unwrap();
        let mut out: Vec<u8> = vec![];
        match m {
            Either::Req(mut r) => r.write(&mut out).map_err(|e| e.to_string())?,
            Either::Res(r) => Encoder::new(r).write_tcp_stream(&mut out).map_err(|e| e.to_string())?,
        }
        let (_, fields, body) = split_message(&out)?;
        same("the body that was written in the end", &body, last)?;
        let types: Vec<_> = fields.iter().filter(|(k, _)| k.eq_ignore_ascii_case("content-type")).collect();
        ensure!(
            types.len() == 1 && types[0].1 == "application/octet-stream",
            "not exactly the content type of the new body was written: {fields:?}"
        );
        Ok(())
    });
}
