//! WebSockets.

use std::{
    cell::Cell,
    collections::{BTreeMap, BTreeSet, HashMap},
    io,
    sync::{Arc, Condvar, Mutex},
    time::{Duration, Instant},
};

use lunatic::{testkit::Transport, Mailbox, Process};
use puck::ws::{
    message::Message,
    websocket::{NextMessageError, WebSocket},
};
use serde_json::json;

use crate::{
    alloc,
    ctx::{same, show, Case, Ctx},
    ensure,
    gen::{huge, much},
    refws::{self, head, server_frames, Ev, Frame, BINARY, CLOSE, PING, PONG, TEXT},
    rng::{Rng, SMALL},
    script::{cut, short_writes, End, In, Script},
};

type R = Result<(), String>;

fn mask(rng: &mut Rng) -> [u8; 4] {
    match rng.below(6) {
        0 => [0; 4],
        1 => [0xff, 0, 0x80, 1],
        _ => (rng.next() as u32).to_be_bytes(),
    }
}

fn size(rng: &mut Rng, large: bool) -> usize {
    match rng.below(40) {
        n if SMALL && n > 4 => rng.range(1, 40),
        0..=3 => 0,
        4..=8 => rng.range(124, 128),
        9 if large => rng.range(65533, 65538),
        10 if large => rng.range(1000, 200_000),
        11..=14 => rng.range(129, 3000),
        15..=18 => rng.range(1, 4),
        _ => rng.range(1, 60),
    }
}

fn text_of(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut s = String::new();
    while s.len() < n {
        s += &rng.text(40);
        if n > 2000 && s.len() > 100 {
            let chunk = s.clone();
            while s.len() + chunk.len() < n {
                s += &chunk;
            }
        }
    }
    // what some readers take for a mark, and not for text
    if rng.chance(12) {
        s.insert_str(0, *rng.pick(&["\u{feff}", "\u{fffe}", "\u{feff}\u{feff}", "\0"]));
    }
    let end = if rng.chance(12) { *rng.pick(&["\0", "\u{feff}", "\n", "\r\n", " ", "\0\0\0"]) } else { "" };
    while s.len() + end.len() > n && s.pop().is_some() {}
    if s.len() + end.len() <= n {
        s.push_str(end);
    }
    while s.len() < n {
        s.push('x');
    }
    s.into_bytes()
}

fn payload(rng: &mut Rng, kind: u8, large: bool) -> Vec<u8> {
    match kind {
        TEXT => {
            let n = size(rng, large);
            text_of(rng, n)
        }
        BINARY => {
            let n = size(rng, large);
            rng.bytes(n)
        }
        _ => {
            let n = *rng.pick(&[0, 1, 2, 5, 20, 124, 125]);
            rng.bytes(n)
        }
    }
}

#[derive(Clone, Debug, Default)]
struct Scene {
    bytes: Vec<u8>,
    /// Places where a cut is interesting.
    hints: Vec<usize>,
    /// What happens, and the number of bytes which tell.
    events: Vec<(Ev, usize)>,
    note: Vec<String>,
}

impl Scene {
    fn frame(&mut self, f: &Frame) {
        self.note.push(format!(
            "{}{}{}[{}]{}",
            f.op,
            if f.fin { "" } else { "+" },
            if f.rsv != 0 { "r" } else { "" },
            f.payload.len(),
            if f.mask.is_none() { "u" } else { "" }
        ));
        let at = self.bytes.len();
        self.bytes.extend(f.encode());
        self.hints.extend([at + 1, at + 2, at + 4, self.bytes.len()]);
    }

    fn event(&mut self, e: Ev) {
        self.events.push((e, self.bytes.len()));
    }

    fn single(&mut self, rng: &mut Rng, kind: u8, large: bool) {
        let p = payload(rng, kind, large);
        self.frame(&Frame::new(kind, mask(rng), p.clone()));
        self.event(Ev::Msg(kind, p));
    }

    fn control(&mut self, rng: &mut Rng) {
        let kind = if rng.chance(3) { PONG } else { PING };
        self.single(rng, kind, false);
    }

    /// A message in several frames. `last`: whether its end is sent, too.
    fn fragmented(&mut self, rng: &mut Rng, controls: bool, last: bool) {
        let kind = *rng.pick(&[TEXT, BINARY]);
        let large = rng.chance(10);
        let p = payload(rng, kind, large);
        let n = rng.range(2, 6);
        let mut at: Vec<usize> = (0..n - 1).map(|_| rng.below(p.len() + 1)).collect();
        at.sort_unstable();
        at.push(p.len());
        let mut from = 0;
        for (i, to) in at.into_iter().enumerate() {
            if i == n - 1 && !last {
                break;
            }
            let f = Frame {
                fin: i == n - 1,
                rsv: 0,
                op: if i == 0 { kind } else { 0 },
                mask: Some(mask(rng)),
                payload: p[from..to].to_vec(),
            };
            self.frame(&f);
            from = to;
            if i < n - 1 && controls {
                while rng.chance(2) {
                    self.control(rng);
                }
            }
        }
        if last {
            self.event(Ev::Msg(kind, p));
        }
    }

    fn any(&mut self, rng: &mut Rng, large: bool) {
        match rng.below(8) {
            0 | 1 => self.control(rng),
            2 | 3 => {
                let controls = rng.chance(2);
                self.fragmented(rng, controls, true)
            }
            4 => self.single(rng, BINARY, large),
            _ => self.single(rng, TEXT, large),
        }
    }

    fn close_frame(&mut self, rng: &mut Rng) {
        let mut p = vec![];
        if rng.chance(2) {
            p = (*rng.pick(&[1000u16, 1001, 1002, 1003, 1007, 1011, 3000, 4999])).to_be_bytes().to_vec();
            let n = *rng.pick(&[0, 0, 1, 30, 123]);
            p.extend(text_of(rng, n));
        }
        self.frame(&Frame::new(CLOSE, mask(rng), p));
        self.event(Ev::Closed);
    }

    /// Something which RFC 6455 forbids. Returns what it is.
    fn violation(&mut self, rng: &mut Rng) -> &'static str {
        let m = mask(rng);
        let small = |rng: &mut Rng| {
            let n = rng.range(1, 60);
            text_of(rng, n)
        };
        let open = |s: &mut Scene, rng: &mut Rng| {
            let controls = rng.chance(2);
            s.fragmented(rng, controls, false)
        };
        let what;
        match rng.below(9) {
            0 => {
                what = "no mask";
                let inside = rng.chance(4);
                if inside {
                    open(self, rng);
                }
                let op = if inside { 0 } else { *rng.pick(&[TEXT, BINARY, PING, PONG, CLOSE]) };
                let p = if op == CLOSE { vec![3, 232] } else { small(rng) };
                self.frame(&Frame { fin: true, rsv: 0, op, mask: None, payload: p });
            }
            1 => {
                what = "reserved bit";
                let inside = rng.chance(4);
                if inside {
                    open(self, rng);
                }
                let op = if inside { 0 } else { *rng.pick(&[TEXT, BINARY, PING, PONG, CLOSE]) };
                let p = if op == CLOSE || rng.chance(4) { vec![] } else { small(rng) };
                let rsv = *rng.pick(&[1, 2, 4, 4, 7, 3]);
                self.frame(&Frame { fin: true, rsv, op, mask: Some(m), payload: p });
            }
            2 => {
                what = "reserved opcode";
                if rng.chance(4) {
                    open(self, rng);
                }
                let op = *rng.pick(&[3, 4, 5, 6, 7, 11, 12, 13, 14, 15]);
                let p = if rng.chance(3) { vec![] } else { small(rng) };
                let fin = op > 10 || !rng.chance(3);
                self.frame(&Frame { fin, rsv: 0, op, mask: Some(m), payload: p });
            }
            3 => {
                what = "fragmented control frame";
                if rng.chance(4) {
                    open(self, rng);
                }
                let op = *rng.pick(&[PING, PONG, CLOSE]);
                let p = if op == CLOSE || rng.chance(3) { vec![] } else { small(rng) };
                self.frame(&Frame { fin: false, rsv: 0, op, mask: Some(m), payload: p });
                if rng.chance(2) {
                    let p = small(rng);
                    let f = Frame { fin: true, rsv: 0, op: 0, mask: Some(m), payload: p };
                    self.bytes.extend(f.encode());
                }
            }
            4 => {
                what = "long control frame";
                if rng.chance(4) {
                    open(self, rng);
                }
                let op = *rng.pick(&[PING, PONG, CLOSE]);
                let n = *rng.pick(&[126, 126, 127, 128, 1000, 65535, 65536]);
                let mut p = vec![3, 232];
                p.extend(text_of(rng, n - 2));
                self.frame(&Frame { fin: true, rsv: 0, op, mask: Some(m), payload: p });
            }
            5 => {
                what = "continuation of nothing";
                let p = if rng.chance(3) { vec![] } else { small(rng) };
                let fin = !rng.chance(3);
                self.frame(&Frame { fin, rsv: 0, op: 0, mask: Some(m), payload: p });
            }
            6 => {
                what = "new message before the end of the last";
                open(self, rng);
                let op = *rng.pick(&[TEXT, BINARY]);
                let p = if rng.chance(3) { vec![] } else { small(rng) };
                let fin = !rng.chance(3);
                self.frame(&Frame { fin, rsv: 0, op, mask: Some(m), payload: p });
            }
            _ => {
                what = "text which is not UTF-8";
                let mut p = small(rng);
                let bad: &[u8] = *rng.pick(&[
                    &[0xff][..], &[0x80], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80],
                    &[0xe2, 0x82], &[0xc3], &[0xf0, 0x9f, 0x98], &[0xc3, 0x28],
                ]);
                if rng.chance(2) {
                    p.extend(bad);
                } else {
                    let rest = std::mem::take(&mut p);
                    p.extend(bad);
                    if bad.len() > 1 && std::str::from_utf8(bad).unwrap_err().error_len().is_none() {
                        p.push(b'x');
                    }
                    p.extend(rest);
                }
                assert!(std::str::from_utf8(&p).is_err());
                let at = rng.below(p.len() + 1);
                let pieces = if rng.chance(2) { vec![p] } else { vec![p[..at].to_vec(), p[at..].to_vec()] };
                let n = pieces.len();
                for (i, p) in pieces.into_iter().enumerate() {
                    let op = if i == 0 { TEXT } else { 0 };
                    self.frame(&Frame { fin: i == n - 1, rsv: 0, op, mask: Some(m), payload: p });
                }
            }
        }
        self.event(Ev::Violation);
        what
    }

    /// What no longer counts.
    fn suffix(&mut self, rng: &mut Rng) {
        let mut rest = Scene::default();
        for _ in 0..rng.below(4) {
            if rng.chance(6) {
                rest.close_frame(rng);
            } else {
                rest.any(rng, false);
            }
        }
        self.bytes.extend(rest.bytes);
        if rng.chance(4) {
            let n = rng.below(30);
            let junk = rng.bytes(n);
            self.bytes.extend(junk);
        }
    }
}

fn kind_of(m: &Message) -> (u8, Vec<u8>) {
    match m {
        Message::Ping(p) => (PING, p.clone().unwrap_or_default()),
        Message::Pong(p) => (PONG, p.clone().unwrap_or_default()),
        Message::Text(t) => (TEXT, t.clone().into_bytes()),
        Message::Binary(b) => (BINARY, b.clone()),
    }
}

fn message(kind: u8, p: Vec<u8>) -> Message {
    let some = |p: Vec<u8>| if p.is_empty() { None } else { Some(p) };
    match kind {
        PING => Message::Ping(some(p)),
        PONG => Message::Pong(some(p)),
        TEXT => Message::Text(String::from_utf8(p).unwrap()),
        _ => Message::Binary(p),
    }
}

fn name(kind: u8) -> &'static str {
    match kind {
        PING => "ping",
        PONG => "pong",
        TEXT => "text",
        BINARY => "binary",
        CLOSE => "close",
        _ => "other",
    }
}

fn same_message(got: &Message, kind: u8, want: &[u8]) -> R {
    let (k, p) = kind_of(got);
    ensure!(k == kind, "a {} message came out as {} {}", name(kind), name(k), show(&p));
    same(&format!("the content of a {} message", name(kind)), &p, want)
}

#[derive(Clone, Copy, Default)]
struct Judge {
    /// Pongs are compared with the pings.
    pongs: bool,
    /// The answer to a close frame, and that nothing happens after the end.
    close: bool,
    /// Writes fail, so nothing can be said about them.
    broken: bool,
}

/// Runs a scene on the real WebSocket, and compares all that can be observed.
fn drive(c: &mut Case, s: &Scene, end: End, judge: Judge, fail_at: Option<usize>) -> R {
    let input = cut(&mut c.rng, &s.bytes, &s.hints);
    let mut bounds = BTreeSet::new();
    let mut at = 0;
    for i in &input {
        if let In::Data(d) = i {
            at += d.len();
            bounds.insert(at);
        }
    }
    c.key(&s.bytes);
    c.key(format!("{:?}", bounds).as_bytes());
    c.count("deliveries", input.len() as u64);
    c.count("bytes received", s.bytes.len() as u64);
    let script = Script::new(input, end);
    script.state().out.fail_at = fail_at;
    let mut ws = WebSocket::new(script.stream());
    let mut pongs: Vec<Vec<u8>> = vec![];
    let mut ended = false;
    // the application may go on with a copy of the handle at any time
    let copies = c.rng.chance(6);
    for (n, (want, until)) in s.events.iter().enumerate() {
        if copies && c.rng.chance(2) {
            ws = ws.make_copy();
            c.count("copies of the handle", 1);
        }
        let got = ws.next().ok_or("the iterator ended")?;
        match (want, got) {
            (Ev::Msg(kind, p), Ok(m)) => {
                same_message(&m, *kind, p).map_err(|e| format!("event {n}: {e}"))?;
                c.count("messages delivered", 1);
                if *kind == PING {
                    pongs.push(p.clone());
                }
                let st = script.state();
                ensure!(!st.waited, "event {n}: message was delivered only after waiting for more bytes");
                ensure!(
                    !bounds.contains(until) || st.consumed <= *until,
                    "event {n}: {} bytes were read before the message was delivered which ends after {until}",
                    st.consumed
                );
                if judge.pongs && !judge.broken {
                    check_pongs(&st.out.bytes, &pongs).map_err(|e| format!("event {n} ({}): {e}", name(*kind)))?;
                }
            }
            (Ev::Msg(kind, p), Err(e)) => {
                return Err(format!("event {n}: {e:?} instead of the {} message {}", name(*kind), show(p)))
            }
            (w, Ok(m)) => return Err(format!("event {n}: the message {m:?} came out instead of {w:?}")),
            (Ev::Closed, Err(e)) => {
                c.count("close frames", 1);
                ended = true;
                ensure!(
                    !judge.close || matches!(e, NextMessageError::ConnectionClosed),
                    "{e:?} was reported for a close frame"
                );
            }
            (_, Err(_)) => {
                c.count("errors reported", 1);
                ended = true;
            }
        }
    }
    let answered = {
        let st = script.state();
        let closed = matches!(s.events.last(), Some((Ev::Closed, _)));
        if judge.close && !judge.broken {
            let closes = server_frames(&st.out.bytes)?.iter().filter(|f| f.op == CLOSE).count();
            ensure!(!closed || closes == 1, "{closes} close frames were sent in answer to one");
            let may = matches!(s.events.last(), Some((Ev::Violation | Ev::Eof, _)));
            ensure!(closed || closes == 0 || (may && closes == 1), "{closes} close frames were sent without one received");
        }
        if judge.pongs && !judge.broken {
            let frames = server_frames(&st.out.bytes)?;
            let got: Vec<_> = frames.iter().filter(|f| f.op == PONG).map(|f| f.payload.clone()).collect();
            ensure!(got == pongs, "{} pongs were sent for {} pings", got.len(), pongs.len());
            ensure!(frames.iter().all(|f| f.op == PONG || f.op == CLOSE), "something but pongs and a close frame was sent");
        }
        (st.reads, st.consumed, st.out.bytes.len(), st.out.calls.len())
    };
    if ended {
        for i in 0..c.rng.range(1, 4) {
            if copies {
                ws = ws.make_copy();
            }
            match ws.next() {
                Some(Ok(m)) => return Err(format!("after the end, {m:?} was delivered")),
                Some(Err(e)) => ensure!(
                    matches!(e, NextMessageError::ConnectionClosed),
                    "call {i} after the end reports {e:?} and not that the connection is closed"
                ),
                None => (),
            }
            c.count("calls after the end", 1);
        }
        let st = script.state();
        let now = (st.reads, st.consumed, st.out.bytes.len(), st.out.calls.len());
        ensure!(now.2 == answered.2 && now.3 == answered.3, "after the end, {} more bytes were written", now.2 - answered.2);
        ensure!(now.0 == answered.0, "after the end, the stream was read");
    }
    if judge.close {
        let before = script.state().out.bytes.len();
        if ended {
            let m = message(TEXT, b"late".to_vec());
            ensure!(ws.send(m).is_err(), "a message was sent after the end");
        }
        let result = ws.close().map(|_| ());
        let st = script.state();
        if ended {
            ensure!(st.out.bytes.len() == before, "closing a closed connection wrote {} bytes", st.out.bytes.len() - before);
        } else if judge.broken {
            ensure!(result.is_err() || st.out.failed == 0, "closing reports success though the write failed");
        } else {
            result.map_err(|e| format!("closing failed: {e:?}"))?;
            let frames = server_frames(&st.out.bytes[before..])?;
            ensure!(
                frames.len() == 1 && frames[0].op == CLOSE,
                "closing an open connection sent {:?}",
                frames.iter().map(|f| name(f.op)).collect::<Vec<_>>()
            );
        }
        c.count("closed by the application", 1);
    }
    Ok(())
}

fn check_pongs(out: &[u8], want: &[Vec<u8>]) -> R {
    let frames = server_frames(out)?;
    ensure!(
        frames.iter().all(|f| f.op == PONG),
        "{:?} was sent, where only pongs may be",
        frames.iter().map(|f| name(f.op)).collect::<Vec<_>>()
    );
    ensure!(frames.len() == want.len(), "{} pongs were sent for {} pings", frames.len(), want.len());
    for (f, w) in frames.iter().zip(want) {
        same("the payload of a pong", &f.payload, w)?;
    }
    Ok(())
}

const DELIVERY: Judge = Judge { pongs: false, close: false, broken: false };

pub fn c14(ctx: &mut Ctx) {
    ctx.rule = "Messages of all kinds with sizes around the borders of the length encodings are sent by the real WebSocket to a transport which takes all or part of a write; an independent RFC 6455 reader takes the bytes apart. For write errors, every offset of small frames fails in turn. Distinct: different messages or ways to accept.".into();
    ctx.section("sent", 20_000, |c| {
        let n = c.rng.range(1, 5);
        let script = Script::new(vec![], End::Wait);
        let ws = WebSocket::new(script.stream());
        short_writes(&mut c.rng, &mut script.state().out, true);
        let mut want = vec![];
        for _ in 0..n {
            let kind = *c.rng.pick(&[TEXT, BINARY, PING, PONG]);
            let large = c.rng.chance(3);
            let p = payload(&mut c.rng, kind, large);
            c.key(&[&[kind][..], &p[..]].concat());
            let r = if c.rng.chance(2) {
                ws.send(message(kind, p.clone()))
            } else {
                WebSocket::send_to_stream(script.stream(), message(kind, p.clone()))
            };
            r.map_err(|e| format!("sending a {} message of {} bytes failed: {e:?}", name(kind), p.len()))?;
            want.push((kind, p));
        }
        c.key(format!("{:?}", script.state().out.accept).as_bytes());
        c.input = json!({"messages": want.iter().map(|(k, p)| format!("{} {}", name(*k), p.len())).collect::<Vec<_>>()});
        let closing = c.rng.chance(2);
        if closing {
            ws.close().map_err(|e| format!("closing failed: {e:?}"))?;
            want.push((CLOSE, vec![]));
        }
        let st = script.state();
        let frames = server_frames(&st.out.bytes)?;
        ensure!(frames.len() == want.len(), "{} frames were sent for {} messages", frames.len(), want.len());
        for (f, (k, p)) in frames.iter().zip(&want) {
            ensure!(f.op == *k, "a {} message was sent with the opcode {}", name(*k), f.op);
            if *k != CLOSE {
                same(&format!("the payload of a {} frame", name(*k)), &f.payload, p)?;
            }
            c.count("frames sent", 1);
        }
        c.count("bytes sent", st.out.bytes.len() as u64);
        Ok(())
    });
    ctx.all("every length", 400, |c| {
        // the borders of the encodings, one by one
        let lengths: Vec<usize> = (0..300).chain(65_500..65_600).collect();
        let n = lengths[c.index as usize];
        for kind in [TEXT, BINARY, PING, PONG] {
            if kind >= 8 && n > 125 {
                continue;
            }
            let p = if kind == TEXT { text_of(&mut c.rng, n) } else { c.rng.bytes(n) };
            let script = Script::new(vec![], End::Wait);
            WebSocket::new(script.stream()).send(message(kind, p.clone())).map_err(|e| format!("{e:?}"))?;
            let st = script.state();
            let frames = server_frames(&st.out.bytes)?;
            ensure!(frames.len() == 1 && frames[0].op == kind, "a {} message of {n} bytes was not sent as one frame of its kind", name(kind));
            same("the payload", &frames[0].payload, &p)?;
            c.key(format!("{kind} {n}").as_bytes());
            c.count("frames sent", 1);
        }
        Ok(())
    });
    ctx.section("huge messages", 10, |c| {
        let kind = if c.index % 2 == 0 { TEXT } else { BINARY };
        let n = huge(&mut c.rng, c.index);
        let p = much(&mut c.rng, n, kind == TEXT);
        let script = Script::new(vec![], End::Wait);
        script.state().out.accept = vec![*c.rng.pick(&[1usize << 30, 1 << 16, 1460])];
        c.input = json!({"kind": name(kind), "size": n, "accept": script.state().out.accept});
        c.key(format!("{kind} {n}").as_bytes());
        WebSocket::new(script.stream()).send(message(kind, p.clone())).map_err(|e| format!("{e:?}"))?;
        let st = script.state();
        let frames = server_frames(&st.out.bytes)?;
        ensure!(frames.len() == 1 && frames[0].op == kind, "a {} message of {n} bytes was not sent as one frame of its kind", name(kind));
        same("the payload", &frames[0].payload, &p)?;
        c.count("frames sent", 1);
        c.count("bytes sent", st.out.bytes.len() as u64);
        Ok(())
    });
    ctx.section("long control messages", 300, |c| {
        let n = *c.rng.pick(&[126, 127, 130, 1000, 65535, 65536, 70000]);
        let p = c.rng.bytes(n);
        let kind = *c.rng.pick(&[PING, PONG]);
        c.key(&p);
        let script = Script::new(vec![], End::Wait);
        let r = WebSocket::new(script.stream()).send(message(kind, p));
        ensure!(r.is_err(), "a {} of {n} bytes was sent without an error", name(kind));
        ensure!(script.state().out.bytes.is_empty(), "part of a {} of {n} bytes was sent", name(kind));
        Ok(())
    });
    ctx.section("failing transports", 400, |c| {
        let kind = *c.rng.pick(&[TEXT, BINARY, PING, PONG, CLOSE]);
        let p = if kind == CLOSE { vec![] } else { payload(&mut c.rng, kind, false) };
        c.key(&[&[kind][..], &p[..]].concat());
        let total = if p.len() < 126 { 2 } else { 4 } + p.len();
        let step = (total / 300).max(1);
        for at in (0..total).step_by(step) {
            let script = Script::new(vec![], End::Wait);
            script.state().out.fail_at = Some(at);
            if at % 2 == 0 {
                script.state().out.accept = vec![1 + at % 7];
            }
            let ws = WebSocket::new(script.stream());
            let r = if kind == CLOSE { ws.close().map(|_| ()) } else { ws.send(message(kind, p.clone())) };
            ensure!(r.is_err(), "sending a {} of {} bytes reports success though the write failed after {at} bytes", name(kind), p.len());
            c.count("write failures", 1);
        }
        Ok(())
    });
}

pub fn c15(ctx: &mut Ctx) {
    ctx.rule = "Sequences of messages (each in one masked frame, all kinds, any mask, sizes around the borders of the length encodings up to 200 kB) are delivered in pieces (single bytes, fixed sizes, cuts inside heads, everything at once) to the real WebSocket on a stream that would wait forever after the last byte; what comes out is compared in order, kind and content. Distinct: different bytes or pieces.".into();
    ctx.section("messages", 16_000, |c| {
        let mut s = Scene::default();
        for _ in 0..c.rng.range(1, 10) {
            let kind = *c.rng.pick(&[TEXT, TEXT, BINARY, BINARY, PING, PONG]);
            let large = c.rng.chance(4);
            s.single(&mut c.rng, kind, large);
        }
        c.input = json!({"frames": s.note});
        drive(c, &s, End::Wait, DELIVERY, None)
    });
    ctx.all("every length", 400, |c| {
        let lengths: Vec<usize> = (0..300).chain(65_500..65_600).collect();
        let n = lengths[c.index as usize];
        let mut s = Scene::default();
        for kind in [TEXT, BINARY, PING, PONG] {
            if kind >= 8 && n > 125 {
                continue;
            }
            let p = if kind == TEXT { text_of(&mut c.rng, n) } else { c.rng.bytes(n) };
            s.frame(&Frame::new(kind, mask(&mut c.rng), p.clone()));
            s.event(Ev::Msg(kind, p));
        }
        drive(c, &s, End::Wait, DELIVERY, None)
    });
    ctx.section("huge messages", 10, |c| {
        let mut s = Scene::default();
        s.control(&mut c.rng);
        let kind = if c.index % 2 == 0 { TEXT } else { BINARY };
        let n = huge(&mut c.rng, c.index);
        let p = much(&mut c.rng, n, kind == TEXT);
        s.frame(&Frame::new(kind, mask(&mut c.rng), p.clone()));
        s.event(Ev::Msg(kind, p));
        s.single(&mut c.rng, TEXT, false);
        c.input = json!({"frames": s.note});
        drive(c, &s, End::Wait, DELIVERY, None)
    });
    // as much in one connection as a counter may have to hold, in messages of all sizes
    ctx.section("long conversations", 4, |c| {
        let mut s = Scene::default();
        let most = if c.index % 2 == 0 { 3000 } else { 70_000 };
        let n = if SMALL { 60 } else { most };
        for i in 0..n {
            let kind = *c.rng.pick(&[TEXT, BINARY, PING, PONG]);
            if i % 5000 == 7 {
                s.single(&mut c.rng, TEXT, true);
            } else {
                let p = if kind == TEXT { text_of(&mut c.rng, i % 11) } else { c.rng.bytes(i % 7) };
                s.frame(&Frame::new(kind, mask(&mut c.rng), p.clone()));
                s.event(Ev::Msg(kind, p));
            }
        }
        c.input = json!({"frames": n});
        drive(c, &s, End::Wait, Judge { pongs: false, close: true, broken: false }, None)
    });
    ctx.section("one by one", 3_000, |c| {
        let mut s = Scene::default();
        for _ in 0..c.rng.range(1, 6) {
            let kind = *c.rng.pick(&[TEXT, TEXT, BINARY, BINARY, PING, PONG]);
            let large = c.rng.chance(4);
            s.single(&mut c.rng, kind, large);
        }
        c.input = json!({"frames": s.note});
        c.key(&s.bytes);
        let script = Script::new(cut(&mut c.rng, &s.bytes, &s.hints), End::Wait);
        for (n, (want, _)) in s.events.iter().enumerate() {
            let got = Message::next(script.clone()).map_err(|e| format!("message {n}: {e:?}"))?;
            if let Ev::Msg(kind, p) = want {
                same_message(&got, *kind, p).map_err(|e| format!("message {n}: {e}"))?;
            }
        }
        c.count("messages delivered", s.events.len() as u64);
        Ok(())
    });
    ctx.section("moved between processes", 800, |c| {
        let mut s = Scene::default();
        for _ in 0..c.rng.range(2, 10) {
            if c.rng.chance(3) {
                s.fragmented(&mut c.rng, true, true);
            } else {
                let kind = *c.rng.pick(&[TEXT, TEXT, BINARY, BINARY, PING, PONG]);
                s.single(&mut c.rng, kind, false);
            }
        }
        c.input = json!({"frames": s.note});
        c.key(&s.bytes);
        let script = Script::new(cut(&mut c.rng, &s.bytes, &s.hints), End::Wait);
        let job = NEXT_JOB.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let hops: Vec<u64> = (0..40).map(|_| c.rng.range(1, 3) as u64).collect();
        let ws = WebSocket::new(script.stream());
        let _ = Process::spawn((ws, job, s.events.len() as u64, hops, 0u64), relay);
        let got = wait_job(job, s.events.len()).ok_or("the messages did not come out")?;
        for (n, ((want, _), got)) in s.events.iter().zip(&got).enumerate() {
            match (want, got) {
                (Ev::Msg(kind, p), Some((k, g))) => {
                    ensure!(k == kind, "message {n} came out as {}", name(*k));
                    same(&format!("message {n}"), g, p)?;
                }
                (w, None) => return Err(format!("message {n}: an error instead of {w:?}")),
                _ => (),
            }
        }
        c.count("messages delivered", s.events.len() as u64);
        Ok(())
    });
}

static NEXT_JOB: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
type Got = Vec<Option<(u8, Vec<u8>)>>;
static JOBS: Mutex<BTreeMap<u64, Got>> = Mutex::new(BTreeMap::new());
static JOB_DONE: Condvar = Condvar::new();

/// Receives some messages, and hands the WebSocket on to another process for the others.
fn relay((mut ws, job, left, hops, at): (WebSocket, u64, u64, Vec<u64>, u64), _: Mailbox<()>) {
    let n = left.min(hops[at as usize % hops.len()]);
    for _ in 0..n {
        let got = match ws.next() {
            Some(Ok(m)) => Some(kind_of(&m)),
            _ => None,
        };
        JOBS.lock().unwrap().entry(job).or_default().push(got);
        JOB_DONE.notify_all();
    }
    if left > n {
        let _ = Process::spawn((ws, job, left - n, hops, at + 1), relay);
    }
}

fn wait_job(job: u64, n: usize) -> Option<Got> {
    let deadline = Instant::now() + crate::ctx::patience();
    let mut jobs = JOBS.lock().unwrap();
    loop {
        if jobs.get(&job).map_or(0, |v| v.len()) >= n {
            return jobs.remove(&job);
        }
        if Instant::now() > deadline {
            return None;
        }
        jobs = JOB_DONE.wait_timeout(jobs, Duration::from_millis(200)).unwrap().0;
    }
}

pub fn c16(ctx: &mut Ctx) {
    ctx.rule = "Text and binary messages are cut into 2 to 6 fragments at any byte (also inside a character, and empty ones), with pings and pongs in between, and delivered in pieces to the real WebSocket; what comes out, and when, and the pongs, are compared with what RFC 6455 says. Distinct: different bytes or pieces.".into();
    let judge = Judge { pongs: true, close: false, broken: false };
    ctx.section("fragments", 16_000, move |c| {
        let mut s = Scene::default();
        for _ in 0..c.rng.range(1, 5) {
            match c.rng.below(5) {
                0 => s.any(&mut c.rng, false),
                1 => s.fragmented(&mut c.rng, false, true),
                _ => s.fragmented(&mut c.rng, true, true),
            }
        }
        c.input = json!({"frames": s.note});
        c.count("fragmented messages", s.note.iter().filter(|n| n.contains('+') && !n.starts_with('0')).count() as u64);
        drive(c, &s, End::Wait, judge, None)
    });
    ctx.section("many fragments", 200, move |c| {
        let mut s = Scene::default();
        let kind = *c.rng.pick(&[TEXT, BINARY]);
        let n = c.rng.range(50, 2000);
        let p = if kind == TEXT { text_of(&mut c.rng, n) } else { c.rng.bytes(n) };
        for (i, b) in p.iter().enumerate() {
            let f = Frame {
                fin: i == p.len() - 1,
                rsv: 0,
                op: if i == 0 { kind } else { 0 },
                mask: Some(mask(&mut c.rng)),
                payload: vec![*b],
            };
            s.frame(&f);
            if i < p.len() - 1 && c.rng.chance(30) {
                s.control(&mut c.rng);
            }
        }
        s.event(Ev::Msg(kind, p));
        s.single(&mut c.rng, TEXT, false);
        c.count("fragmented messages", 1);
        c.input = json!({"fragments": n, "kind": kind});
        drive(c, &s, End::Wait, judge, None)
    });
    ctx.section("huge messages", 10, move |c| {
        let mut s = Scene::default();
        let kind = if c.index % 2 == 0 { TEXT } else { BINARY };
        let n = huge(&mut c.rng, c.index);
        let p = much(&mut c.rng, n, kind == TEXT);
        let size = *c.rng.pick(&[n / 3 + 1, 1 << 16, 125_000, 1 << 20]);
        let last = p.chunks(size).len() - 1;
        for (i, part) in p.chunks(size).enumerate() {
            s.frame(&Frame { fin: i == last, rsv: 0, op: if i == 0 { kind } else { 0 }, mask: Some(mask(&mut c.rng)), payload: part.to_vec() });
            if i < last && c.rng.chance(3) && s.events.len() < 40 {
                s.control(&mut c.rng);
            }
        }
        s.event(Ev::Msg(kind, p));
        s.single(&mut c.rng, TEXT, false);
        c.input = json!({"size": n, "fragments": last + 1});
        c.count("fragmented messages", 1);
        drive(c, &s, End::Wait, judge, None)
    });
    // two fragments with one control frame between: every place of the cut in the message
    ctx.section("every place", 150, move |c| {
        let n = c.rng.range(1, 30);
        let p = text_of(&mut c.rng, n);
        for at in 0..=p.len() {
            let mut s = Scene::default();
            s.frame(&Frame { fin: false, rsv: 0, op: TEXT, mask: Some(mask(&mut c.rng)), payload: p[..at].to_vec() });
            s.control(&mut c.rng);
            s.frame(&Frame { fin: true, rsv: 0, op: 0, mask: Some(mask(&mut c.rng)), payload: p[at..].to_vec() });
            s.event(Ev::Msg(TEXT, p.clone()));
            drive(c, &s, End::Wait, judge, None).map_err(|e| format!("cut at {at}: {e}"))?;
            c.count("fragmented messages", 1);
        }
        Ok(())
    });
}

pub fn c17(ctx: &mut Ctx) {
    ctx.rule = "After any number of valid messages comes one violation out of nine kinds (also in the middle of a fragmented message), or the stream ends inside a frame or message, then any valid frames; delivered in pieces to the real WebSocket. The messages before must come out, then an error, and nothing afterwards: no message, no answer. Mutated frame sequences are judged by an independent RFC 6455 receiver. Distinct: different bytes or pieces.".into();
    let judge = Judge { pongs: true, close: false, broken: false };
    ctx.section("violations", 20_000, move |c| {
        let mut s = Scene::default();
        for _ in 0..c.rng.below(4) {
            s.any(&mut c.rng, false);
        }
        let what = s.violation(&mut c.rng);
        c.count(what, 1);
        s.suffix(&mut c.rng);
        c.input = json!({"frames": s.note, "violation": what, "bytes": show(&s.bytes)});
        let end = *c.rng.pick(&[End::Wait, End::Eof]);
        drive(c, &s, end, judge, None)
    });
    ctx.section("truncated", 8_000, move |c| {
        let mut s = Scene::default();
        for _ in 0..c.rng.below(4) {
            s.any(&mut c.rng, false);
        }
        let whole = s.bytes.len();
        if c.rng.chance(2) {
            s.fragmented(&mut c.rng, true, false);
        }
        let mut last = Scene::default();
        match c.rng.below(3) {
            0 => last.close_frame(&mut c.rng),
            _ => last.any(&mut c.rng, false),
        }
        // keep part of the last frames only
        let n = c.rng.below(last.bytes.len());
        let cut_off: Vec<u8> = last.bytes[..n].to_vec();
        let mut truncated = s.clone();
        truncated.bytes.extend(cut_off);
        if truncated.bytes.len() == whole {
            truncated.bytes.push(0x81);
        }
        // the independent receiver says what is left
        let events = refws::receive(&truncated.bytes);
        truncated.events = events.into_iter().map(|e| (e, usize::MAX)).collect();
        c.count("truncated", 1);
        c.input = json!({"frames": s.note, "bytes": show(&truncated.bytes)});
        drive(c, &truncated, End::Eof, judge, None)
    });
    // lengths which say something else if some of their bits are lost
    ctx.section("claims", 3_000, move |c| {
        let mut s = Scene::default();
        for _ in 0..c.rng.below(3) {
            s.any(&mut c.rng, false);
        }
        let small = c.rng.below(130) as u64;
        let len = (1u64 << *c.rng.pick(&[16, 24, 31, 32, 32, 32, 33, 48, 62, 63])) | small;
        let op = *c.rng.pick(&[TEXT, BINARY, TEXT, PING]);
        s.note.push(format!("{op}[{len}]"));
        s.bytes.extend(head(c.rng.chance(2), 0, op, Some(mask(&mut c.rng)), len));
        let n = if c.rng.chance(2) { small } else { small + c.rng.below(200) as u64 };
        let p = c.rng.bytes(n as usize);
        s.bytes.extend(p);
        s.events.push((Ev::Eof, usize::MAX));
        s.suffix(&mut c.rng);
        c.count("claimed lengths", 1);
        c.input = json!({"frames": s.note});
        if (s.bytes.len() as u64) < len {
            drive(c, &s, End::Eof, judge, None)
        } else {
            Ok(())
        }
    });
    ctx.section("mutated", 20_000, move |c| {
        let s = mutated(&mut c.rng);
        let mut t = Scene { bytes: s, ..Default::default() };
        let events = refws::receive(&t.bytes);
        c.input = json!({"bytes": show(&t.bytes)});
        let open = matches!(events.last(), Some(Ev::Open));
        // invalid text may be noticed before a control frame between its fragments
        let early = matches!(events.last(), Some(Ev::Violation)) && fail_fast(&t.bytes);
        if open || early {
            c.count("left open", 1);
            return Ok(());
        }
        match events.last() {
            Some(Ev::Violation) => c.count("violations", 1),
            Some(Ev::Closed) => c.count("closes", 1),
            _ => c.count("ends of the stream", 1),
        }
        t.events = events.into_iter().map(|e| (e, usize::MAX)).collect();
        drive(c, &t, End::Eof, judge, None)
    });
}

/// Whether these bytes have fragmented text at all (so that an early error is possible).
fn fail_fast(mut b: &[u8]) -> bool {
    while let refws::Take::Frame(f, n) = refws::take(b) {
        if f.op == TEXT && !f.fin {
            return true;
        }
        b = &b[n..];
    }
    false
}

/// A valid sequence of frames with some bytes changed.
fn mutated(rng: &mut Rng) -> Vec<u8> {
    let mut s = Scene::default();
    for _ in 0..rng.range(1, 6) {
        s.any(rng, false);
        if rng.chance(8) {
            s.close_frame(rng);
        }
    }
    let mut b = s.bytes;
    for _ in 0..rng.range(1, 4) {
        if b.is_empty() {
            break;
        }
        // heads are where it matters
        let at = if rng.chance(3) { rng.below(b.len()) } else { (*rng.pick(&s.hints)).saturating_sub(rng.below(3)).min(b.len() - 1) };
        match rng.below(6) {
            0 => b[at] ^= 1 << rng.below(8),
            1 => b[at] = rng.next() as u8,
            2 => {
                b.remove(at);
            }
            3 => b.insert(at, rng.next() as u8),
            4 => b.truncate(at),
            _ => {
                let to = rng.range(at, (at + 40).min(b.len()));
                let piece = b[at..to].to_vec();
                let to = rng.below(b.len() + 1);
                b.splice(to..to, piece);
            }
        }
    }
    b
}

pub fn c18(ctx: &mut Ctx) {
    ctx.rule = "Pings of all lengths among messages, fragments, pongs and a possible close or violation are delivered in pieces to the real WebSocket; at each delivery, the bytes written so far are taken apart by an independent RFC 6455 reader and must be exactly one equal pong per ping so far. In other runs, writing fails after any number of bytes: all messages must still come out. Distinct: different bytes or pieces.".into();
    let judge = Judge { pongs: true, close: false, broken: false };
    ctx.section("pings", 20_000, move |c| {
        let mut s = Scene::default();
        for _ in 0..c.rng.range(1, 8) {
            match c.rng.below(4) {
                0 => s.any(&mut c.rng, false),
                1 => s.fragmented(&mut c.rng, true, true),
                _ => s.control(&mut c.rng),
            }
        }
        let mut end = End::Wait;
        match c.rng.below(5) {
            0 => {
                s.close_frame(&mut c.rng);
                s.suffix(&mut c.rng);
            }
            1 => {
                s.violation(&mut c.rng);
                s.suffix(&mut c.rng);
            }
            2 => {
                s.event(Ev::Eof);
                end = End::Eof;
            }
            _ => (),
        }
        c.count("pings", s.events.iter().filter(|(e, _)| matches!(e, Ev::Msg(PING, _))).count() as u64);
        c.input = json!({"frames": s.note});
        drive(c, &s, end, judge, None)
    });
    ctx.all("every length", 126, move |c| {
        let mut s = Scene::default();
        for kind in [PING, PONG, PING] {
            let p = c.rng.bytes(c.index as usize);
            s.frame(&Frame::new(kind, mask(&mut c.rng), p.clone()));
            s.event(Ev::Msg(kind, p));
        }
        c.count("pings", 2);
        drive(c, &s, End::Wait, judge, None)
    });
    ctx.section("failing transports", 5_000, move |c| {
        let mut s = Scene::default();
        for _ in 0..c.rng.range(1, 8) {
            if c.rng.chance(3) {
                s.any(&mut c.rng, false);
            } else {
                s.control(&mut c.rng);
            }
        }
        let at = c.rng.below(20);
        c.input = json!({"frames": s.note, "writes fail after": at});
        drive(c, &s, End::Wait, Judge { broken: true, ..judge }, Some(at))
    });
    ctx.section("short writes", 2_000, move |c| {
        let mut s = Scene::default();
        for _ in 0..c.rng.range(1, 5) {
            s.control(&mut c.rng);
        }
        c.input = json!({"frames": s.note});
        c.key(&s.bytes);
        let script = Script::new(cut(&mut c.rng, &s.bytes, &s.hints), End::Wait);
        short_writes(&mut c.rng, &mut script.state().out, true);
        let mut ws = WebSocket::new(script.stream());
        let mut pongs = vec![];
        for (want, _) in &s.events {
            match ws.next() {
                Some(Ok(_)) => (),
                other => return Err(format!("{other:?} instead of {want:?}")),
            }
            if let Ev::Msg(PING, p) = want {
                pongs.push(p.clone());
            }
        }
        let st = script.state();
        check_pongs(&st.out.bytes, &pongs)
    });
}

pub fn c19(ctx: &mut Ctx) {
    ctx.rule = "Sequences of messages which end with a close frame (with and without code and reason, also between fragments), with the end of the stream, or not at all, followed by more frames, are delivered in pieces to the real WebSocket; then it is asked for more messages, to send and to close. An independent RFC 6455 reader counts the close frames which were written; reads and writes after the end are counted. Distinct: different bytes or pieces.".into();
    let judge = Judge { pongs: false, close: true, broken: false };
    let scene = |c: &mut Case| {
        let mut s = Scene::default();
        for _ in 0..c.rng.below(5) {
            s.any(&mut c.rng, false);
        }
        let mut end = *c.rng.pick(&[End::Wait, End::Eof]);
        match c.rng.below(8) {
            0 => {
                end = End::Wait;
                c.count("left open by the client", 1);
            }
            1 | 2 => {
                end = End::Eof;
                s.event(Ev::Eof);
                c.count("ended by the end of the stream", 1);
            }
            3 => {
                // the application goes away before the client has said all
                let keep = c.rng.below(s.events.len() + 1);
                s.events.truncate(keep);
                c.count("left open by the client", 1);
            }
            _ => {
                if c.rng.chance(3) {
                    s.fragmented(&mut c.rng, true, false);
                }
                s.close_frame(&mut c.rng);
                s.suffix(&mut c.rng);
            }
        }
        c.input = json!({"frames": s.note});
        (s, end)
    };
    ctx.section("closes", 20_000, move |c| {
        let (s, end) = scene(c);
        drive(c, &s, end, judge, None)
    });
    ctx.section("failing transports", 6_000, move |c| {
        let (s, end) = scene(c);
        let at = c.rng.below(8);
        drive(c, &s, end, Judge { broken: true, ..judge }, Some(at))
    });
    ctx.section("sent before", 3_000, move |c| {
        // messages of the application before it closes, and copies of the handle
        let script = Script::new(vec![], End::Wait);
        let ws = WebSocket::new(script.stream());
        let n = c.rng.below(5);
        for _ in 0..n {
            let kind = *c.rng.pick(&[TEXT, BINARY, PING, PONG]);
            let p = payload(&mut c.rng, kind, false);
            c.key(&p);
            ws.send(message(kind, p)).map_err(|e| format!("sending failed: {e:?}"))?;
        }
        short_writes(&mut c.rng, &mut script.state().out, true);
        ws.close().map_err(|e| format!("closing failed: {e:?}"))?;
        let st = script.state();
        let frames = server_frames(&st.out.bytes)?;
        ensure!(frames.len() == n + 1, "{} frames were sent for {n} messages and a close", frames.len());
        ensure!(frames[..n].iter().all(|f| f.op != CLOSE) && frames[n].op == CLOSE, "the close frame is not the last one");
        c.count("closed by the application", 1);
        Ok(())
    });
    ctx.section("moved between processes", 600, move |c| {
        let (s, end) = loop {
            let got = scene(c);
            if !matches!(got.0.events.last(), None | Some((Ev::Msg(..), _))) {
                break got;
            }
        };
        c.key(&s.bytes);
        let script = Script::new(cut(&mut c.rng, &s.bytes, &s.hints), end);
        let mut ws = WebSocket::new(script.stream());
        for (n, _) in s.events.iter().enumerate() {
            let got = ws.next();
            ensure!((n + 1 == s.events.len()) == matches!(got, Some(Err(_))), "event {n}: {got:?}");
        }
        let (reads, written) = {
            let st = script.state();
            (st.reads, st.out.bytes.len())
        };
        let job = NEXT_JOB.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let what = c.rng.below(3) as u64;
        let _ = Process::spawn((ws, job, what), late);
        let got = wait_job(job, 1).ok_or("the process did not answer")?;
        ensure!(got[0].is_none(), "a WebSocket which had ended was used by another process (call {what})");
        let st = script.state();
        ensure!(st.reads == reads, "the stream was read in another process, after the end");
        ensure!(st.out.bytes.len() == written, "{} more bytes were written by another process, after the end", st.out.bytes.len() - written);
        c.count("uses by another process", 1);
        Ok(())
    });
}

/// Uses a WebSocket which has ended.
fn late((mut ws, job, what): (WebSocket, u64, u64), _: Mailbox<()>) {
    let got = match what {
        0 => matches!(ws.next(), Some(Ok(_))),
        1 => ws.send(message(TEXT, b"late".to_vec())).is_ok(),
        _ => {
            let _ = ws.close();
            false
        }
    };
    JOBS.lock().unwrap().entry(job).or_default().push(got.then(|| (TEXT, vec![])));
    JOB_DONE.notify_all();
}

/// What a WebSocket makes of some input: what it delivers until the first error, and what it writes.
fn outcome(input: Vec<In>, end: End) -> Result<(Vec<(u8, Vec<u8>)>, Vec<u8>), String> {
    let script = Script::new(input, end);
    let mut ws = WebSocket::new(script.stream());
    let mut out = vec![];
    let n = script.state().input_len();
    loop {
        match ws.next() {
            Some(Ok(m)) => out.push(kind_of(&m)),
            _ => break,
        }
        ensure!(out.len() <= n / 2 + 1, "more messages came out than {n} bytes can hold");
    }
    match ws.next() {
        Some(Ok(m)) => return Err(format!("{m:?} was delivered after an error")),
        _ => (),
    }
    let bytes = script.state().out.bytes.clone();
    Ok((out, bytes))
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "Random bytes, mutated and truncated frame sequences, and frames which claim lengths up to 2^64-1, with the end of the stream or a read error at any point, are received by the real WebSocket until it reports an error. Monitored: no panic, an end within the calls the bytes allow, peak memory of the thread against the bytes received, and the same outcome for different pieces. Distinct: different bytes.".into();
    ctx.section("anything", 30_000, |c| {
        let mut b = match c.rng.below(6) {
            0 => {
                let n = c.rng.below(200);
                c.rng.bytes(n)
            }
            1 | 2 => mutated(&mut c.rng),
            _ => vec![],
        };
        if b.is_empty() || c.rng.chance(3) {
            // claims
            let len = match c.rng.below(10) {
                0 => u64::MAX,
                1 => 1 << 63,
                2 => i64::MAX as u64,
                3 => u32::MAX as u64,
                4 => 1 << 32,
                5 => (1 << 32) + c.rng.below(20) as u64,
                6 => 1 << 31,
                7 => (1 << 31) - 1,
                8 => c.rng.next() >> c.rng.below(64),
                _ => 1 << c.rng.range(7, 40),
            };
            let op = *c.rng.pick(&[0, 1, 2, 8, 9, 10, 3, 15]);
            let fin = c.rng.chance(2);
            let mask = if c.rng.chance(5) { None } else { Some(mask(&mut c.rng)) };
            if op == 0 {
                let p = c.rng.bytes(5);
                b.extend(Frame { fin: false, rsv: 0, op: 2, mask: Some([1, 2, 3, 4]), payload: p }.encode());
            }
            b.extend(head(fin, 0, op, mask, len));
            let n = c.rng.below(100);
            let rest = c.rng.bytes(n);
            b.extend(rest);
            c.count("claimed lengths", 1);
        }
        c.key(&b);
        c.count("bytes received", b.len() as u64);
        c.input = json!({"bytes": show(&b)});
        let mut first = None;
        for turn in 0..3 {
            let mut input = if turn == 0 { vec![In::Data(b.clone())] } else { cut(&mut c.rng, &b, &[1, 2, 4, 10, 14]) };
            if turn == 2 {
                // a read error somewhere
                let at = c.rng.below(input.len() + 1);
                input.insert(at, In::Fail);
                let (r, peak) = alloc::peak(|| outcome(input, End::Fail));
                r?;
                check_peak(peak, b.len())?;
                c.count("read errors", 1);
                continue;
            }
            let (r, peak) = alloc::peak(|| outcome(input, End::Eof));
            let r = r?;
            check_peak(peak, b.len())?;
            match &first {
                None => first = Some(r),
                Some(f) => {
                    ensure!(f.0 == r.0, "the messages depend on the pieces: {:?} and {:?}", f.0, r.0);
                    ensure!(f.1 == r.1, "the answers depend on the pieces: {} and {}", show(&f.1), show(&r.1));
                }
            }
        }
        Ok(())
    });
    ctx.section("all truncations", 200, |c| {
        let mut s = Scene::default();
        for _ in 0..c.rng.range(1, 4) {
            s.any(&mut c.rng, false);
        }
        s.bytes.truncate(700);
        c.key(&s.bytes);
        for n in 0..s.bytes.len() {
            for end in [End::Eof, End::Fail] {
                let input = cut(&mut c.rng, &s.bytes[..n], &s.hints);
                let (r, peak) = alloc::peak(|| outcome(input, end));
                r.map_err(|e| format!("cut off at {n}: {e}"))?;
                check_peak(peak, n)?;
                c.count("truncations", 1);
            }
        }
        Ok(())
    });
    ctx.section("long streams", 30, |c| {
        // memory does not grow with what has been delivered
        let mut s = Scene::default();
        let n = c.rng.range(1000, 4000);
        for _ in 0..n {
            let kind = *c.rng.pick(&[TEXT, BINARY, PING, PONG]);
            s.single(&mut c.rng, kind, false);
        }
        c.key(&s.bytes);
        let script = Script::new(vec![In::Data(s.bytes.clone())], End::Eof);
        let mut ws = WebSocket::new(script.stream());
        let (r, peak) = alloc::peak(|| -> R {
            for (n, (want, _)) in s.events.iter().enumerate() {
                match (want, ws.next()) {
                    (Ev::Msg(k, p), Some(Ok(m))) => same_message(&m, *k, p)?,
                    (w, g) => return Err(format!("message {n}: {g:?} instead of {w:?}")),
                }
            }
            Ok(())
        });
        r?;
        c.count("messages in long streams", n as u64);
        let longest = 3000;
        let allowed = 64 * longest + (1 << 16) + 2 * s.bytes.len();
        ensure!(peak <= allowed, "{peak} bytes of memory were in use for messages of at most {longest} bytes");
        Ok(())
    });
}

fn check_peak(peak: usize, received: usize) -> R {
    let allowed = 40 * received + (1 << 17);
    ensure!(peak <= allowed, "{peak} bytes of memory were in use for {received} bytes received");
    Ok(())
}

thread_local! {
    static WHO: Cell<usize> = const { Cell::new(usize::MAX) };
}

struct Turns {
    waiting: BTreeSet<usize>,
    active: usize,
    granted: Option<usize>,
    order: Vec<usize>,
    bytes: Vec<u8>,
    input: Vec<u8>,
}

/// A transport on which one write happens at a time, in the order which the scheduler decides.
struct Arena {
    state: Mutex<Turns>,
    moved: Condvar,
}

impl Transport for Arena {
    fn read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.state.lock().unwrap();
        let n = buf.len().min(s.input.len());
        buf[..n].copy_from_slice(&s.input[..n]);
        s.input.drain(..n);
        Ok(n)
    }

    fn write(&self, buf: &[u8]) -> io::Result<usize> {
        let me = WHO.get();
        let mut s = self.state.lock().unwrap();
        s.waiting.insert(me);
        self.moved.notify_all();
        while s.granted != Some(me) {
            s = self.moved.wait(s).unwrap();
        }
        s.granted = None;
        s.order.push(me);
        s.bytes.extend_from_slice(buf);
        self.moved.notify_all();
        Ok(buf.len())
    }
}

impl Arena {
    fn schedule(&self, rng: &mut Rng) {
        // some runs switch often, some rarely
        let stay = *rng.pick(&[1, 2, 6]);
        let mut last = usize::MAX;
        loop {
            let mut s = self.state.lock().unwrap();
            while s.granted.is_some() || s.waiting.len() < s.active {
                s = self.moved.wait(s).unwrap();
            }
            if s.active == 0 {
                return;
            }
            let all: Vec<usize> = s.waiting.iter().copied().collect();
            let next = if all.contains(&last) && !rng.chance(stay) { last } else { *rng.pick(&all) };
            s.waiting.remove(&next);
            s.granted = Some(next);
            last = next;
            self.moved.notify_all();
        }
    }
}

struct Leave(Arc<Arena>);

impl Drop for Leave {
    fn drop(&mut self) {
        let mut s = self.0.state.lock().unwrap();
        s.active -= 1;
        s.waiting.remove(&WHO.get());
        self.0.moved.notify_all();
    }
}

pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "2 to 5 senders send numbered messages (small and large, text and binary) on copies of one WebSocket while pings are answered on it; a scheduler lets one write to the transport happen at a time, in a random order. An independent RFC 6455 reader takes the bytes apart: every message exactly once, unchanged, in the order of its sender. Distinct: different orders of writes.".into();
    ctx.section("interleavings", 4_000, |c| {
        let senders = c.rng.range(2, 5);
        let with_reader = c.rng.chance(2);
        let mut input = vec![];
        let mut pings = vec![];
        if with_reader {
            for i in 0..c.rng.range(1, 4) {
                let p = format!("ping {i}").into_bytes();
                input.extend(Frame::new(PING, mask(&mut c.rng), p.clone()).encode());
                pings.push(p);
            }
        }
        let arena = Arc::new(Arena {
            state: Mutex::new(Turns {
                waiting: BTreeSet::new(),
                active: senders + with_reader as usize,
                granted: None,
                order: vec![],
                bytes: vec![],
                input,
            }),
            moved: Condvar::new(),
        });
        let stream = lunatic::net::TcpStream::from_transport(arena.clone());
        let ws = WebSocket::new(stream.clone());
        let mut plans: Vec<Vec<(u8, Vec<u8>)>> = vec![];
        for t in 0..senders {
            let mut plan = vec![];
            for i in 0..c.rng.range(1, 4) {
                let kind = *c.rng.pick(&[TEXT, BINARY]);
                let large = c.rng.chance(6);
                let mut p = format!("{t}:{i}:").into_bytes();
                p.extend(payload(&mut c.rng, kind, large));
                plan.push((kind, p));
            }
            plans.push(plan);
        }
        let mut threads = vec![];
        let errors: Arc<Mutex<Vec<String>>> = Default::default();
        for (t, plan) in plans.iter().cloned().enumerate() {
            let (arena, errors) = (arena.clone(), errors.clone());
            let mine = ws.make_copy();
            let stream = stream.clone();
            threads.push(std::thread::spawn(move || {
                WHO.set(t);
                let _leave = Leave(arena);
                for (i, (kind, p)) in plan.into_iter().enumerate() {
                    let r = if (t + i) % 2 == 0 {
                        mine.send(message(kind, p))
                    } else {
                        WebSocket::send_to_stream(stream.clone(), message(kind, p))
                    };
                    if let Err(e) = r {
                        errors.lock().unwrap().push(format!("sending failed: {e:?}"));
                    }
                }
            }));
        }
        if with_reader {
            let mut mine = ws.make_copy();
            let (arena, n) = (arena.clone(), pings.len());
            threads.push(std::thread::spawn(move || {
                WHO.set(senders);
                let _leave = Leave(arena);
                for _ in 0..n {
                    let _ = mine.next();
                }
            }));
        }
        arena.schedule(&mut c.rng);
        let mut panicked = false;
        for t in threads {
            panicked |= t.join().is_err();
        }
        ensure!(!panicked, "a sender panicked: {}", crate::ctx::take_panic());
        if let Some(e) = errors.lock().unwrap().first() {
            return Err(e.clone());
        }
        let s = arena.state.lock().unwrap();
        c.key(format!("{:?}", s.order).as_bytes());
        c.count("writes", s.order.len() as u64);
        c.count("switches between senders", s.order.windows(2).filter(|w| w[0] != w[1]).count() as u64);
        c.input = json!({"order of the writes": s.order, "messages": plans.iter().map(|p| p.len()).collect::<Vec<_>>()});
        let frames = server_frames(&s.bytes).map_err(|e| format!("{e}, after writes in the order {:?}", s.order))?;
        let mut at = vec![0; senders];
        let mut pongs = 0;
        for f in &frames {
            if f.op == PONG {
                ensure!(pongs < pings.len() && f.payload == pings[pongs], "the pong {} was not due", show(&f.payload));
                pongs += 1;
                continue;
            }
            let text = String::from_utf8_lossy(&f.payload[..f.payload.len().min(4)]).to_string();
            let t: usize = text.split(':').next().and_then(|t| t.parse().ok()).unwrap_or(usize::MAX);
            ensure!(t < senders, "a message arrived which nobody sent: {}", show(&f.payload));
            ensure!(at[t] < plans[t].len(), "sender {t} has a message too many: {}", show(&f.payload));
            let (kind, p) = &plans[t][at[t]];
            ensure!(f.op == *kind, "message {} of sender {t} has the opcode {}", at[t], f.op);
            same(&format!("message {} of sender {t}", at[t]), &f.payload, p)?;
            at[t] += 1;
            c.count("messages received", 1);
        }
        for (t, n) in at.iter().enumerate() {
            ensure!(*n == plans[t].len(), "{n} of the {} messages of sender {t} arrived", plans[t].len());
        }
        ensure!(pongs == pings.len(), "{pongs} pongs for {} pings", pings.len());
        Ok(())
    });
}

#[derive(Clone, Debug)]
pub enum Handshake {
    Upgraded,
    Refused,
}

pub static SHAKEN: Mutex<Option<HashMap<String, Vec<Handshake>>>> = Mutex::new(None);

fn shake_handler(req: puck::Request, stream: puck::core::Stream, _: ()) -> puck::core::UsedStream {
    let id = req.headers().iter().find(|(k, _)| k.eq_ignore_ascii_case("x-case")).map(|(_, v)| v.clone());
    let note = |h| {
        if let Some(id) = &id {
            SHAKEN.lock().unwrap().get_or_insert_with(HashMap::new).entry(id.clone()).or_default().push(h)
        }
    };
    match stream.upgrade(&req) {
        Ok(ws) => {
            note(Handshake::Upgraded);
            let _ = ws.send(Message::Text("hello".into()));
            ws.close().unwrap_or_else(|_| puck::core::UsedStream::empty())
        }
        Err(used) => {
            note(Handshake::Refused);
            used
        }
    }
}

/// The fields of a handshake, and whether it should succeed.
fn handshake(rng: &mut Rng) -> (Vec<(String, String)>, Option<String>, &'static str) {
    let good = rng.chance(2);
    let wrong = if good { 9 } else { rng.below(5) };
    let mut key = match rng.below(4) {
        0 => "dGhlIHNhbXBsZSBub25jZQ==".to_string(),
        1 => rng.word(b"ABCxyz0189+/", 22, 22) + "==",
        2 => rng.word(b"abcdefghijklmnopqrstuvwxyz", 1, 90),
        3 if rng.chance(4) => rng.word(b"ABC+/=-_.,:;!{}\"' xyz", 1, 3000).trim().to_string(),
        3 if rng.chance(4) => rng.text(40).replace(|c: char| c.is_control(), "").trim().to_string(),
        _ => refws::base64(&rng.bytes(16)),
    };
    if key.is_empty() {
        key = "x".into();
    }
    let upgrade = crate::gen::any_case(rng, "websocket");
    let option = crate::gen::any_case(rng, "upgrade");
    let connection = match rng.below(8) {
        0 => format!("keep-alive, {option}"),
        1 => format!("{option}, keep-alive"),
        2 => format!("keep-alive,{option},x"),
        3 => format!("close ,\t{option} , foo"),
        4 if rng.chance(2) => format!("{}, {option},", vec!["x-option"; rng.range(1, 40)].join(",")),
        _ => option,
    };
    let why;
    let mut fields = vec![
        ("Upgrade", Some(upgrade)),
        ("Connection", Some(connection)),
        ("Sec-WebSocket-Key", Some(key.clone())),
    ];
    match wrong {
        0 => {
            why = "no Upgrade";
            fields[0].1 = None;
        }
        1 => {
            why = "another Upgrade";
            fields[0].1 = Some(rng.pick(&["h2c", "websockets", "web socket", "websocke", "", "xwebsocket", "TLS/1.0"]).to_string());
        }
        2 => {
            why = "no Connection";
            fields[1].1 = None;
        }
        3 => {
            why = "another Connection";
            let v = *rng.pick(&["keep-alive", "close", "", "upgraded", "upgrad", "xupgrade", "keep-alive, upgrade-x", "up, grade", "upgrade-insecure-requests"]);
            fields[1].1 = Some(v.to_string());
        }
        4 => {
            why = "no key";
            fields[2].1 = None;
        }
        _ => why = "",
    }
    let mut out = vec![];
    for (k, v) in fields {
        if let Some(v) = v {
            let name = if rng.chance(2) { k.to_string() } else { crate::gen::any_case(rng, k) };
            out.push((name, v));
        }
    }
    if rng.chance(2) {
        out.push(("Sec-WebSocket-Version".into(), "13".into()));
    }
    if rng.chance(3) {
        let taken = ["upgrade", "connection", "sec-websocket-key", "sec-websocket-version", "x-case", "host", "content-length"];
        let mut taken: Vec<String> = taken.iter().map(|s| s.to_string()).collect();
        let n = rng.range(1, 5);
        out.extend(crate::gen::headers(rng, n, &mut taken));
    }
    rng.shuffle(&mut out);
    (out, if good { Some(key) } else { None }, why)
}

/// Checks an answer to a handshake, and returns what follows it.
fn check_answer(bytes: &[u8], key: &Option<String>) -> Result<usize, String> {
    let resp = crate::http::read_answer(bytes)?;
    let n = if resp.status == 101 { bytes.len() - resp.body.len() } else { bytes.len() };
    let find = |name: &str| {
        let v: Vec<&(String, String)> = resp.fields.iter().filter(|(k, _)| k.eq_ignore_ascii_case(name)).collect();
        match v.len() {
            1 => Ok(v[0].1.clone()),
            n => Err(format!("{n} fields {name:?} in the answer")),
        }
    };
    match key {
        Some(key) => {
            ensure!(resp.status == 101, "the answer to a proper handshake is {}", resp.status);
            let v = find("Upgrade")?;
            ensure!(v.eq_ignore_ascii_case("websocket"), "Upgrade is {v:?} in the answer");
            let v = find("Connection")?;
            ensure!(v.eq_ignore_ascii_case("upgrade"), "Connection is {v:?} in the answer");
            let v = find("Sec-WebSocket-Accept")?;
            let want = refws::accept(key);
            ensure!(v == want, "Sec-WebSocket-Accept is {v:?} instead of {want:?}");
        }
        None => ensure!(resp.status == 400, "the answer to a bad handshake is {}", resp.status),
    }
    Ok(n)
}

pub fn c13(ctx: &mut Ctx) {
    ctx.rule = "Handshakes are generated with any case of names and values, lists in Connection, any key, other fields in any order, and one thing wrong in half of them; they are sent to the real server, whose handler upgrades. An independent SHA-1, Base64, HTTP and RFC 6455 reader takes the answer apart; the handler records what it got. For failing transports, every offset of the answer fails in turn. Distinct: different handshakes.".into();
    let port = crate::server::for_each((), shake_handler);
    ctx.section("handshakes", 8_000, move |c| {
        let (mut fields, key, why) = handshake(&mut c.rng);
        let id = format!("h{}", c.index);
        let at = c.rng.below(fields.len() + 1);
        fields.insert(at, ("X-Case".into(), id.clone()));
        let at = c.rng.below(fields.len() + 1);
        fields.insert(at, ("Host".into(), "localhost".into()));
        let mut bytes = b"GET /chat HTTP/1.1\r\n".to_vec();
        for (k, v) in &fields {
            bytes.extend(format!("{k}: {v}\r\n").into_bytes());
        }
        bytes.extend(b"\r\n");
        c.key(&bytes);
        c.count(if key.is_some() { "proper handshakes" } else { why }, 1);
        c.input = json!({"bytes": show(&bytes), "wrong": why});
        let script = Script::new(cut(&mut c.rng, &bytes, &[]), End::Wait);
        let failing = c.rng.chance(8);
        if failing {
            script.state().out.fail_at = Some(c.rng.below(150));
        } else {
            short_writes(&mut c.rng, &mut script.state().out, true);
        }
        SHAKEN.lock().unwrap().get_or_insert_with(HashMap::new).remove(&id);
        crate::server::serve(port, &script)?;
        let notes = SHAKEN.lock().unwrap().get_or_insert_with(HashMap::new).remove(&id).unwrap_or_default();
        let traps = lunatic::testkit::take_traps();
        ensure!(traps.is_empty(), "the handler's process panicked: {traps:?}");
        ensure!(notes.len() == 1, "the handler ran {} times", notes.len());
        let st = script.state();
        if failing && st.out.failed > 0 {
            c.count("answers which cannot be written", 1);
            let whole = check_answer(&st.out.bytes, &key);
            let upgraded = matches!(notes[0], Handshake::Upgraded);
            ensure!(!upgraded || whole.is_ok(), "the handler got a WebSocket though the answer could not be written");
            return Ok(());
        }
        let n = check_answer(&st.out.bytes, &key)?;
        match (&key, &notes[0]) {
            (Some(_), Handshake::Upgraded) => {
                let frames = server_frames(&st.out.bytes[n..])?;
                ensure!(
                    frames.len() == 2 && frames[0].payload == b"hello" && frames[1].op == CLOSE,
                    "what the WebSocket sent does not follow the answer: {}",
                    show(&st.out.bytes[n..])
                );
            }
            (None, Handshake::Refused) => {
                ensure!(st.out.bytes.len() == n, "{} follows the refusal", show(&st.out.bytes[n..]));
            }
            (k, got) => return Err(format!("the handler got {got:?} for a handshake that is {}", if k.is_some() { "proper" } else { why })),
        }
        Ok(())
    });
    ctx.section("functions", 8_000, |c| {
        let (fields, key, why) = handshake(&mut c.rng);
        let mut b = puck::Request::build("http://localhost/chat").method(puck::request::Method::Get);
        for (k, v) in &fields {
            b = b.header(k.clone(), v.clone());
        }
        let req = b.build();
        c.key(format!("{fields:?}").as_bytes());
        c.count(if key.is_some() { "proper handshakes" } else { why }, 1);
        let has_key = fields.iter().any(|(k, _)| k.eq_ignore_ascii_case("sec-websocket-key"));
        let should = key.is_some() || !has_key;
        ensure!(puck::ws::should_upgrade(&req) == should, "should_upgrade says {} for {fields:?}", !should);
        if should {
            let script = Script::new(vec![], End::Wait);
            let ok = puck::ws::perform_upgrade(&req, script.stream());
            ensure!(ok == key.is_some(), "perform_upgrade says {ok} ({why})");
            let st = script.state();
            let n = check_answer(&st.out.bytes, &key)?;
            ensure!(n == st.out.bytes.len(), "{} follows the answer", show(&st.out.bytes[n..]));
        }
        Ok(())
    });
    // names which differ in case: if each of the fields is as it should be the request is upgraded, if
    // none is it is not; what else is to be made of them is left open, but it does not change from run to run
    ctx.section("repeated fields", 1_500, |c| {
        let mut fields = vec![("Host".to_string(), "localhost".to_string())];
        let (mut proper, mut hopeless) = (true, false);
        for (name, good, bad) in [
            ("Upgrade", &["websocket", "WebSocket"][..], &["h2c", "", "websockets"][..]),
            ("Connection", &["upgrade", "keep-alive, Upgrade"], &["keep-alive", "close", "xupgrade"]),
            ("Sec-WebSocket-Key", &["dGhlIHNhbXBsZSBub25jZQ==", "x3JJHMbDL1EzLkh9GBhXDw=="], &[]),
        ] {
            let mut goods = 0;
            let n = c.rng.range(1, 4);
            for _ in 0..n {
                let value = if bad.is_empty() || c.rng.chance(2) {
                    goods += 1;
                    *c.rng.pick(good)
                } else {
                    *c.rng.pick(bad)
                };
                fields.push((crate::gen::any_case(&mut c.rng, name), value.to_string()));
            }
            // of fields in the same case, a request may hold only some
            hopeless |= goods == 0;
            proper &= goods == n;
        }
        c.rng.shuffle(&mut fields);
        let mut bytes = b"GET /chat HTTP/1.1\r\n".to_vec();
        for (k, v) in &fields {
            bytes.extend(format!("{k}: {v}\r\n").into_bytes());
        }
        bytes.extend(b"\r\n");
        c.key(&bytes);
        c.input = json!({"bytes": show(&bytes)});
        c.count("handshakes with nothing but proper fields", proper as u64);
        let mut first = None;
        for _ in 0..8 {
            let script = Script::new(cut(&mut c.rng, &bytes, &[]), End::Wait);
            let Ok(Some(req)) = puck::Request::parse(script) else {
                return Err("a well-formed request was refused".into());
            };
            let mut got = (puck::ws::should_upgrade(&req), vec![]);
            ensure!(got.0 || !proper, "refused, though all of the fields are proper");
            ensure!(!got.0 || !hopeless, "upgraded, though none of the fields of a name is proper");
            if got.0 {
                let script = Script::new(vec![], End::Wait);
                puck::ws::perform_upgrade(&req, script.stream());
                got.1 = script.state().out.bytes.clone();
            }
            match &first {
                None => first = Some(got),
                Some(first) => ensure!(*first == got, "the same handshake is answered in two ways"),
            }
        }
        Ok(())
    });
    ctx.section("failing transports", 100, |c| {
        let (fields, key) = loop {
            if let (f, Some(k), _) = handshake(&mut c.rng) {
                break (f, k);
            }
        };
        let mut b = puck::Request::build("http://localhost/chat").method(puck::request::Method::Get);
        for (k, v) in &fields {
            b = b.header(k.clone(), v.clone());
        }
        let req = b.build();
        c.key(key.as_bytes());
        let whole = Script::new(vec![], End::Wait);
        ensure!(puck::ws::perform_upgrade(&req, whole.stream()), "a proper handshake failed");
        let n = whole.state().out.bytes.len();
        for at in 0..n {
            let script = Script::new(vec![], End::Wait);
            script.state().out.fail_at = Some(at);
            ensure!(
                !puck::ws::perform_upgrade(&req, script.stream()),
                "the upgrade counts as done though only {at} of {n} bytes of the answer could be written"
            );
            c.count("write failures", 1);
        }
        Ok(())
    });
}
