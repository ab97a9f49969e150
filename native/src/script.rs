//! Transports which follow a script, and record what happens on them.

use std::{
    collections::VecDeque,
    io::{self, Read, Write},
    sync::{Arc, Mutex, MutexGuard},
};

use lunatic::testkit::Transport;

use crate::rng::{Rng, SMALL};

/// The text of the error which stands for "a real socket would wait here forever".
pub const WOULD_WAIT: &str = "the script is over: a real socket would wait";

#[derive(Clone, Debug)]
pub enum In {
    Data(Vec<u8>),
    Interrupted,
    Fail,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    /// The peer has closed its side.
    Eof,
    /// The peer stays, and sends nothing more.
    Wait,
    /// Reading fails from then on.
    Fail,
}

#[derive(Default)]
pub struct Writes {
    pub bytes: Vec<u8>,
    /// The sizes of the writes as they were asked for.
    pub calls: Vec<usize>,
    /// How many bytes each write accepts, in turn; the last one stays. Empty: all.
    pub accept: Vec<usize>,
    /// Every so many writes are interrupted before they accept anything.
    pub interrupt_every: usize,
    /// After so many bytes, writes fail.
    pub fail_at: Option<usize>,
    pub failed: usize,
}

impl Writes {
    pub fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls.push(buf.len());
        if self.calls.len() > 2_000_000 {
            panic!("livelock: more than two million writes");
        }
        if self.interrupt_every > 0 && self.calls.len() % self.interrupt_every == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = buf.len();
        if !self.accept.is_empty() {
            let i = (self.calls.len() - 1).min(self.accept.len() - 1);
            n = n.min(self.accept[i].max(1));
        }
        if let Some(at) = self.fail_at {
            n = n.min(at - self.bytes.len());
            if n == 0 && !buf.is_empty() {
                self.failed += 1;
                if self.failed > 100_000 {
                    panic!("livelock: a failed writer was called 100000 times");
                }
                return Err(io::Error::new(io::ErrorKind::Other, "broken pipe"));
            }
        }
        self.bytes.extend_from_slice(&buf[..n]);
        Ok(n)
    }
}

pub struct State {
    input: VecDeque<In>,
    /// How much of the first piece has been read.
    at: usize,
    end: End,
    pub consumed: usize,
    pub reads: usize,
    /// Reads at the end of the script.
    pub past_end: usize,
    pub waited: bool,
    pub out: Writes,
    /// How many bytes had been read when each byte position of the output was reached.
    pub marks: Vec<(usize, usize)>,
    pub closed: bool,
}

impl State {
    /// The number of bytes which are still to be read.
    pub fn input_len(&self) -> usize {
        self.input.iter().map(|i| if let In::Data(d) = i { d.len() } else { 0 }).sum::<usize>() - self.at
    }
}

#[derive(Clone)]
pub struct Script(Arc<Mutex<State>>);

impl Script {
    pub fn new(input: Vec<In>, end: End) -> Self {
        Script(Arc::new(Mutex::new(State {
            input: input.into(),
            at: 0,
            end,
            consumed: 0,
            reads: 0,
            past_end: 0,
            waited: false,
            out: Writes::default(),
            marks: vec![],
            closed: false,
        })))
    }

    pub fn whole(bytes: &[u8], end: End) -> Self {
        Self::new(vec![In::Data(bytes.to_vec())], end)
    }

    pub fn state(&self) -> MutexGuard<'_, State> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn stream(&self) -> lunatic::net::TcpStream {
        lunatic::net::TcpStream::from_transport(Arc::new(self.clone()))
    }

    fn do_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.state();
        while matches!(s.input.front(), Some(In::Data(d)) if d.is_empty()) {
            s.input.pop_front();
        }
        s.reads += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let s = &mut *s;
        match s.input.front() {
            Some(In::Data(d)) => {
                let left = &d[s.at..];
                let n = left.len().min(buf.len());
                buf[..n].copy_from_slice(&left[..n]);
                if n == left.len() {
                    s.input.pop_front();
                    s.at = 0;
                } else {
                    s.at += n;
                }
                s.consumed += n;
                Ok(n)
            }
            Some(In::Interrupted) => {
                s.input.pop_front();
                Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"))
            }
            Some(In::Fail) => {
                s.input.pop_front();
                Err(io::Error::new(io::ErrorKind::Other, "read failed"))
            }
            None => {
                s.past_end += 1;
                if s.past_end > 20_000 {
                    panic!("livelock: 20000 reads after the end of the stream");
                }
                match s.end {
                    End::Eof => Ok(0),
                    End::Fail => Err(io::Error::new(io::ErrorKind::Other, "connection reset")),
                    End::Wait => {
                        s.waited = true;
                        Err(io::Error::new(io::ErrorKind::Other, WOULD_WAIT))
                    }
                }
            }
        }
    }

    fn do_write(&self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.state();
        let r = s.out.write(buf);
        let mark = (s.out.bytes.len(), s.consumed);
        s.marks.push(mark);
        r
    }
}

impl Read for Script {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.do_read(buf)
    }
}

impl Write for Script {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.do_write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Transport for Script {
    fn read(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.do_read(buf)
    }
    fn write(&self, buf: &[u8]) -> io::Result<usize> {
        self.do_write(buf)
    }
    fn closed(&self) {
        self.state().closed = true;
    }
}

/// Cuts bytes into deliveries. `hints` are places where a cut is most interesting.
pub fn cut(rng: &mut Rng, bytes: &[u8], hints: &[usize]) -> Vec<In> {
    let n = bytes.len();
    let mut at: Vec<usize> = match rng.below(6) {
        0 => vec![],
        1 if n <= if SMALL { 200 } else { 4000 } => (1..n).collect(),
        2 => {
            let size = rng.range(1, 9);
            (1..n).filter(|i| i % size == 0).take(if SMALL { 40 } else { 4000 }).collect()
        }
        3 => hints.to_vec(),
        _ => {
            let mut v: Vec<usize> = (0..rng.range(1, 12)).map(|_| rng.below(n + 1)).collect();
            for h in hints {
                if rng.chance(2) {
                    v.push((h + rng.below(5)).saturating_sub(2));
                }
            }
            v
        }
    };
    at.retain(|&i| i > 0 && i < n);
    at.sort_unstable();
    at.dedup();
    let mut out = vec![];
    let mut last = 0;
    for i in at.into_iter().chain([n]) {
        if i > last {
            out.push(In::Data(bytes[last..i].to_vec()));
        }
        last = i;
    }
    out
}

pub fn with_interrupts(rng: &mut Rng, v: Vec<In>) -> Vec<In> {
    let mut out = vec![];
    for i in v {
        for _ in 0..rng.below(3) {
            if rng.chance(2) {
                out.push(In::Interrupted);
            }
        }
        out.push(i);
    }
    out
}

/// Cuts many bytes into deliveries of one size.
pub fn chunks(rng: &mut Rng, bytes: &[u8]) -> Vec<In> {
    let n = match rng.below(5) {
        0 => bytes.len().max(1),
        1 => 1460,
        2 => 1 << 16,
        3 => 1 << 20,
        _ => rng.range(1000, 100_000),
    };
    bytes.chunks(n).map(|c| In::Data(c.to_vec())).collect()
}

/// A way to accept writes only in part.
pub fn short_writes(rng: &mut Rng, w: &mut Writes, interrupts: bool) {
    match rng.below(4) {
        0 => {}
        1 => w.accept = vec![1],
        2 => w.accept = vec![rng.range(1, 20)],
        _ => {
            w.accept = (0..rng.range(1, 40)).map(|_| rng.range(1, 300)).collect();
        }
    }
    if interrupts && rng.chance(3) {
        w.interrupt_every = rng.range(2, 5);
    }
}
