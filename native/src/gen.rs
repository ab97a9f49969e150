//! Well-formed HTTP messages, made together with what they mean.

use std::{
    collections::BTreeMap,
    io::{self, BufRead, Read},
};

use crate::rng::{Rng, SMALL};

pub const TCHAR: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~";
const NAME: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
const PATH: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~!$&()*+,;=:@.";
const QUERY: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~!$&()*+,;=:@./?";

pub fn method(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 | 1 => "GET".into(),
        2 => "POST".into(),
        3 => "HEAD".into(),
        4 => rng
            .pick(&["PUT", "DELETE", "OPTIONS", "PATCH", "PROPFIND", "TRACE", "M-SEARCH"])
            .to_string(),
        _ => loop {
            // methods are case-sensitive, but puck takes the three it knows in any case
            let any = rng.chance(2);
            let m = rng.word(if any { TCHAR } else { b"ABCDEFGHIJKLMNOPQRSTUVWXYZ-_." }, 1, 12);
            if !["CONNECT", "PRI", "GET", "POST", "HEAD"].contains(&m.to_ascii_uppercase().as_str()) {
                break m;
            }
        },
    }
}

fn escaped(rng: &mut Rng) -> String {
    loop {
        let b = rng.next() as u8;
        if b != b'.' {
            return if rng.chance(2) {
                format!("%{b:02X}")
            } else {
                format!("%{b:02x}")
            };
        }
    }
}

pub fn segment(rng: &mut Rng) -> String {
    loop {
        let mut s = String::new();
        for _ in 0..rng.below(8) {
            if rng.chance(10) {
                s += &escaped(rng);
            } else {
                s.push(*rng.pick(PATH) as char);
            }
        }
        if s != "." && s != ".." {
            return s;
        }
    }
}

pub fn path(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => return "/".into(),
        1 => {
            // long
            let n = if rng.chance(30) && !SMALL { rng.range(6000, 140_000) } else { rng.range(1, 6000) };
            return "/".to_string() + &rng.word(b"abcdefgh/", n, n);
        }
        _ => {}
    }
    let mut s = String::new();
    for _ in 0..rng.range(1, 5) {
        s.push('/');
        s += &segment(rng);
    }
    s
}

pub fn query(rng: &mut Rng) -> Option<String> {
    if rng.chance(2) {
        return None;
    }
    let mut s = String::new();
    let n = match rng.below(200) {
        0 if !SMALL => rng.range(1000, 140_000),
        1..=5 => rng.range(16, 1000),
        _ => rng.below(16),
    };
    for _ in 0..n {
        if rng.chance(10) {
            s += &escaped(rng);
        } else {
            s.push(*rng.pick(QUERY) as char);
        }
    }
    Some(s)
}

/// A host and its port, as they may be in a Host field.
pub fn host(rng: &mut Rng) -> (String, Option<u16>) {
    let h = match rng.below(6) {
        0 => "127.0.0.1".to_string(),
        1 => "[::1]".to_string(),
        2 => "localhost".to_string(),
        3 => "Example.COM".to_string(),
        4 => "xn--bcher-kva.example".to_string(),
        _ => rng.word(b"abcdefghijklmnopqrstuvwxyz", 1, 10) + ".example",
    };
    let port = match rng.below(3) {
        0 => Some(80),
        1 => Some(rng.range(1, 65535) as u16),
        _ => None,
    };
    (h, port)
}

pub fn host_text(h: &(String, Option<u16>)) -> String {
    match h.1 {
        Some(p) => format!("{}:{}", h.0, p),
        None => h.0.clone(),
    }
}

pub fn header_name(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => rng
            .pick(&["Accept", "accept", "X-A", "User-Agent", "Cookie", "Content-Type", "ETag", "Connection", "Date"])
            .to_string(),
        1 => rng.word(TCHAR, 1, 12),
        _ => rng.word(NAME, 1, 14),
    }
}

pub fn header_value(rng: &mut Rng) -> String {
    let mut s = match rng.below(8) {
        0 => String::new(),
        1 => rng.word(b"abc,;=\"/ ", 1, 60),
        2 => "é€😀".to_string(),
        3 if rng.chance(150) && !SMALL => rng.word(b"0123456789abcdef", 3000, 140_000),
        3 if rng.chance(6) => rng.word(b"0123456789abcdef", 500, 3000),
        4 => rng.word(b"\t !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", 1, 20),
        _ => rng.word(TCHAR, 1, 20),
    };
    s = s.trim_matches(|c| c == ' ' || c == '\t').to_string();
    s
}

const RESERVED: [&str; 4] = ["host", "content-length", "transfer-encoding", "expect"];

/// Header fields with names which differ in more than case.
pub fn headers(rng: &mut Rng, n: usize, taken: &mut Vec<String>) -> Vec<(String, String)> {
    let mut out = vec![];
    while out.len() < n {
        let name = header_name(rng);
        let low = name.to_ascii_lowercase();
        if taken.contains(&low) || RESERVED.contains(&low.as_str()) {
            continue;
        }
        taken.push(low);
        let value = header_value(rng);
        out.push((name, value));
    }
    out
}

pub fn any_case(rng: &mut Rng, s: &str) -> String {
    match rng.below(4) {
        0 => s.to_string(),
        1 => s.to_ascii_lowercase(),
        2 => s.to_ascii_uppercase(),
        _ => s
            .chars()
            .map(|c| {
                if rng.chance(2) {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            })
            .collect(),
    }
}

pub fn body(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(10) {
        n if SMALL && n > 1 => rng.below(if n == 2 { 1100 } else { 80 }),
        0 => 0,
        1 => 1,
        2 => rng.range(9_900, 10_100),
        3 => rng.range(8_150, 8_250),
        4 => rng.range(980, 1030),
        5 if rng.chance(3) => rng.range(20_000, 200_000),
        _ => rng.below(200),
    };
    match rng.below(5) {
        0 => {
            let mut s = String::new();
            while s.len() < n {
                s += &rng.text(8);
                s.push('x');
            }
            s.into_bytes()
        }
        1 => vec![b'\n'; n],
        2 => b"GET / HTTP/1.1\r\nHost: a\r\n\r\n".iter().copied().cycle().take(n).collect(),
        _ => rng.bytes(n),
    }
}

/// A size which is much larger than any buffer: each order of magnitude in its turn.
pub fn huge(rng: &mut Rng, index: u64) -> usize {
    let n = [1 << 20, 1 << 24, 1 << 21, 3_000_000, 1 << 22, 10_000_000, 1 << 23, 20_000_000, 300_000, 1 << 19];
    let n: usize = n[index as usize % n.len()];
    if rng.chance(3) {
        n
    } else {
        n + rng.range(1, 1000)
    }
}

/// So many bytes which do not repeat at any distance that a buffer may have.
pub fn much(rng: &mut Rng, n: usize, text: bool) -> Vec<u8> {
    let mut out = Vec::with_capacity(n + 8);
    while out.len() < n {
        let x = rng.next();
        if text {
            out.extend(x.to_be_bytes().map(|b| b' ' + b % 95));
        } else {
            out.extend(x.to_be_bytes());
        }
    }
    out.truncate(n);
    out
}

#[derive(Clone)]
pub struct Req {
    pub method: String,
    pub host: (String, Option<u16>),
    pub path: String,
    pub query: Option<String>,
    pub headers: Vec<(String, String)>,
    /// The head as it goes over the wire.
    pub head: Vec<u8>,
    /// Interesting places to cut it.
    pub hints: Vec<usize>,
}

/// A well-formed request head. `length` is the Content-Length, if there shall be one.
pub fn request(rng: &mut Rng, length: Option<usize>, most: usize) -> Req {
    let method = method(rng);
    let host_header = host(rng);
    let mut path = path(rng);
    let query = query(rng);
    let mut target = path.clone();
    if let Some(q) = &query {
        target.push('?');
        target += q;
    }
    let mut host = host_header.clone();
    if rng.chance(6) {
        host = self::host(rng);
        if rng.chance(4) {
            // no path stands for the path `/`
            target.drain(..path.len());
            path = "/".into();
        }
        let scheme = if rng.chance(4) { any_case(rng, "http") } else { "http".into() };
        target = format!("{scheme}://{}{}", host_text(&host), target);
    }
    let fixed = 1 + length.is_some() as usize;
    let n = match rng.below(4) {
        0 => most - fixed,
        1 => 0,
        _ => rng.below(most - fixed + 1),
    };
    let mut all = headers(rng, n, &mut vec![]);
    let name = any_case(rng, "Host");
    let at = rng.below(all.len() + 1);
    all.insert(at, (name, host_text(&host_header)));
    if let Some(length) = length {
        let name = any_case(rng, "Content-Length");
        let value = if rng.chance(8) {
            format!("{length:05}")
        } else {
            length.to_string()
        };
        let at = rng.below(all.len() + 1);
        all.insert(at, (name, value));
    }
    let mut head = format!("{method} {target} HTTP/1.1\r\n").into_bytes();
    let mut hints = vec![method.len(), head.len() - 1, head.len()];
    for (k, v) in &all {
        let pad: &[u8] = match rng.below(8) {
            0 => b"",
            1 => b"  ",
            2 => b"\t",
            _ => b" ",
        };
        head.extend_from_slice(k.as_bytes());
        head.push(b':');
        head.extend_from_slice(pad);
        head.extend_from_slice(v.as_bytes());
        if rng.chance(10) && !v.is_empty() {
            head.extend_from_slice(b" \t");
        }
        head.extend_from_slice(b"\r\n");
        hints.push(head.len() - 1);
        hints.push(head.len());
    }
    head.extend_from_slice(b"\r\n");
    hints.push(head.len() - 1);
    hints.push(head.len());
    Req {
        method,
        host,
        path,
        query,
        headers: all,
        head,
        hints,
    }
}

pub fn map(v: &[(String, String)]) -> BTreeMap<String, String> {
    v.iter().cloned().collect()
}

pub fn method_name(m: &puck::request::Method) -> String {
    use puck::request::Method::*;
    match m {
        Get => "GET".into(),
        Post => "POST".into(),
        Head => "HEAD".into(),
        OtherMethod(s) => s.clone(),
    }
}

pub fn to_method(s: &str) -> puck::request::Method {
    use puck::request::Method::*;
    match s {
        "GET" => Get,
        "POST" => Post,
        "HEAD" => Head,
        s => OtherMethod(s.into()),
    }
}

/// A reader which delivers its data in given pieces, and may fail in between.
pub struct Pieces {
    pub pieces: std::collections::VecDeque<Result<Vec<u8>, io::ErrorKind>>,
    at: usize,
}

impl Pieces {
    pub fn new(pieces: Vec<Result<Vec<u8>, io::ErrorKind>>) -> Self {
        Pieces {
            pieces: pieces.into(),
            at: 0,
        }
    }

    pub fn cut(rng: &mut Rng, data: &[u8]) -> Self {
        let mut v = vec![];
        let mut at = 0;
        let most = *rng.pick(&[1, 7, 100, 5000, 1 << 20]);
        let most = if data.len() > 250_000 { most.max(5000) } else { most };
        while at < data.len() {
            let n = rng.range(1, most).min(data.len() - at);
            v.push(Ok(data[at..at + n].to_vec()));
            at += n;
        }
        Self::new(v)
    }
}

impl BufRead for Pieces {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        loop {
            match self.pieces.front() {
                Some(Ok(p)) if p.len() == self.at => {
                    self.pieces.pop_front();
                    self.at = 0;
                }
                Some(Err(_)) => {
                    let kind = self.pieces.pop_front().unwrap().unwrap_err();
                    return Err(io::Error::new(kind, "the source failed"));
                }
                _ => break,
            }
        }
        Ok(match self.pieces.front() {
            Some(Ok(p)) => &p[self.at..],
            _ => &[],
        })
    }
    fn consume(&mut self, n: usize) {
        self.at += n;
    }
}

impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let have = self.fill_buf()?;
            let n = have.len().min(buf.len());
            buf[..n].copy_from_slice(&have[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

/// A source for a body with the given content.
pub fn source(rng: &mut Rng, data: &[u8]) -> puck::body::Body {
    use puck::body::Body;
    let length = if rng.chance(2) { Some(data.len()) } else { None };
    match (rng.below(4), std::str::from_utf8(data)) {
        (0, Ok(s)) => Body::from_string(s),
        (1, Ok(s)) => Body::from(s.to_string()),
        (2, _) => Body::from_reader(Pieces::cut(rng, data), length),
        _ => Body::from_reader(io::Cursor::new(data.to_vec()), length),
    }
}
