//! RFC 6455 as it is written: frames, and what a server has to make of a client's bytes.

pub const TEXT: u8 = 1;
pub const BINARY: u8 = 2;
pub const CLOSE: u8 = 8;
pub const PING: u8 = 9;
pub const PONG: u8 = 10;

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub fin: bool,
    /// The three reserved bits, as a number.
    pub rsv: u8,
    pub op: u8,
    pub mask: Option<[u8; 4]>,
    pub payload: Vec<u8>,
}

impl Frame {
    pub fn new(op: u8, mask: [u8; 4], payload: Vec<u8>) -> Self {
        Frame { fin: true, rsv: 0, op, mask: Some(mask), payload }
    }

    pub fn encode(&self) -> Vec<u8> {
        let mut out = head(self.fin, self.rsv, self.op, self.mask, self.payload.len() as u64);
        match self.mask {
            Some(m) => out.extend(self.payload.iter().enumerate().map(|(i, b)| b ^ m[i & 3])),
            None => out.extend(&self.payload),
        }
        out
    }
}

/// The head of a frame with the given length, in the shortest form.
pub fn head(fin: bool, rsv: u8, op: u8, mask: Option<[u8; 4]>, len: u64) -> Vec<u8> {
    let mut out = vec![(fin as u8) << 7 | rsv << 4 | op];
    let m = (mask.is_some() as u8) << 7;
    if len < 126 {
        out.push(m | len as u8);
    } else if len < 65536 {
        out.push(m | 126);
        out.extend(&(len as u16).to_be_bytes());
    } else {
        out.push(m | 127);
        out.extend(&len.to_be_bytes());
    }
    if let Some(m) = mask {
        out.extend(&m);
    }
    out
}

#[derive(Debug, PartialEq)]
pub enum Take {
    Frame(Frame, usize),
    /// The bytes end inside a frame.
    Short,
    /// A length which is not in the shortest form, or has its first bit set.
    BadLength,
}

/// Takes one frame off the front.
pub fn take(b: &[u8]) -> Take {
    if b.len() < 2 {
        return Take::Short;
    }
    let (mut at, masked) = (2, b[1] & 0x80 != 0);
    let mut len = (b[1] & 0x7f) as u64;
    if len == 126 {
        if b.len() < 4 {
            return Take::Short;
        }
        len = u16::from_be_bytes([b[2], b[3]]) as u64;
        at = 4;
        if len < 126 {
            return Take::BadLength;
        }
    } else if len == 127 {
        if b.len() < 10 {
            return Take::Short;
        }
        len = u64::from_be_bytes(b[2..10].try_into().unwrap());
        at = 10;
        if len < 65536 || len >> 63 != 0 {
            return Take::BadLength;
        }
    }
    let mut mask = None;
    if masked {
        if b.len() < at + 4 {
            return Take::Short;
        }
        mask = Some([b[at], b[at + 1], b[at + 2], b[at + 3]]);
        at += 4;
    }
    if ((b.len() - at) as u64) < len {
        return Take::Short;
    }
    let mut payload = b[at..at + len as usize].to_vec();
    if let Some(m) = mask {
        for (i, x) in payload.iter_mut().enumerate() {
            *x ^= m[i % 4];
        }
    }
    let frame = Frame { fin: b[0] & 0x80 != 0, rsv: (b[0] >> 4) & 7, op: b[0] & 15, mask, payload };
    Take::Frame(frame, at + len as usize)
}

/// Takes apart what a server sent; an error if it is not a sequence of whole, proper server frames.
pub fn server_frames(mut b: &[u8]) -> Result<Vec<Frame>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        match take(b) {
            Take::Frame(f, n) => {
                if f.mask.is_some() {
                    return Err("a frame from the server is masked".into());
                }
                if f.rsv != 0 {
                    return Err("a frame from the server has a reserved bit set".into());
                }
                if !f.fin {
                    return Err("a frame from the server is not final".into());
                }
                if !matches!(f.op, TEXT | BINARY | CLOSE | PING | PONG) {
                    return Err(format!("a frame from the server has the opcode {}", f.op));
                }
                if f.op >= 8 && f.payload.len() > 125 {
                    return Err("a control frame from the server is longer than 125 bytes".into());
                }
                if f.op == TEXT && std::str::from_utf8(&f.payload).is_err() {
                    return Err("a text frame from the server is not UTF-8".into());
                }
                out.push(f);
                b = &b[n..];
            }
            Take::Short => return Err(format!("the server's bytes end inside a frame: {}", crate::ctx::show(b))),
            Take::BadLength => return Err("a length from the server is not in the shortest form".into()),
        }
    }
    Ok(out)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// Delivered to the application.
    Msg(u8, Vec<u8>),
    Closed,
    Violation,
    Eof,
    /// RFC 6455 and the properties leave open what happens from here.
    Open,
}

/// What a server has to make of these bytes, after which the stream ends.
pub fn receive(mut b: &[u8]) -> Vec<Ev> {
    let mut out = vec![];
    let mut parts: Option<(u8, Vec<u8>)> = None;
    loop {
        if b.is_empty() {
            out.push(Ev::Eof);
            return out;
        }
        let (f, n) = match take(b) {
            Take::Frame(f, n) => (f, n),
            Take::Short => {
                out.push(Ev::Eof);
                return out;
            }
            Take::BadLength => {
                out.push(Ev::Open);
                return out;
            }
        };
        b = &b[n..];
        if f.mask.is_none() && f.payload.is_empty() {
            out.push(Ev::Open);
            return out;
        }
        let control = f.op >= 8;
        let bad = f.mask.is_none()
            || f.rsv != 0
            || matches!(f.op, 3..=7 | 11..=15)
            || (control && (!f.fin || f.payload.len() > 125))
            || (f.op == 0 && parts.is_none())
            || (matches!(f.op, TEXT | BINARY) && parts.is_some());
        if bad {
            out.push(Ev::Violation);
            return out;
        }
        match f.op {
            CLOSE => {
                let p = &f.payload;
                let proper = p.is_empty() || (p.len() >= 2 && std::str::from_utf8(&p[2..]).is_ok());
                out.push(if proper { Ev::Closed } else { Ev::Open });
                return out;
            }
            PING | PONG => out.push(Ev::Msg(f.op, f.payload)),
            _ => {
                let (kind, mut all) = parts.take().unwrap_or((f.op, vec![]));
                all.extend(f.payload);
                if f.fin {
                    if kind == TEXT && std::str::from_utf8(&all).is_err() {
                        out.push(Ev::Violation);
                        return out;
                    }
                    out.push(Ev::Msg(kind, all));
                } else {
                    parts = Some((kind, all));
                }
            }
        }
    }
}

/// SHA-1, for the handshake.
pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend(((data.len() as u64) * 8).to_be_bytes());
    for chunk in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(chunk[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, x) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5A827999),
                1 => (b ^ c ^ d, 0x6ED9EBA1),
                2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*x);
            (e, d, c, b, a) = (d, c, b.rotate_left(30), a, t);
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0; 20];
    for (i, x) in h.iter().enumerate() {
        out[i * 4..i * 4 + 4].copy_from_slice(&x.to_be_bytes());
    }
    out
}

pub fn base64(data: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(A[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

/// The value of Sec-WebSocket-Accept for a key.
pub fn accept(key: &str) -> String {
    base64(&sha1(format!("{key}258EAFA5-E914-47DA-95CA-C5AB0DC85B11").as_bytes()))
}
