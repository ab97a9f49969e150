//! A live component which shows what it is told to, and a session with it.

use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Condvar, Mutex,
    },
    time::{Duration, Instant},
};

use lunatic::{
    net::TcpStream,
    testkit::{self, PipeEnd, Transport},
    Process,
};
use puck::ws::websocket::WebSocket;
use puck_liveview::{
    component::{manage, Component, Context},
    dom::{
        element::Element,
        event::{ClickEvent, InputEvent, SubmitEvent},
        listener::{Listener, ListenerRef},
    },
};
use serde::{Deserialize, Serialize};

use crate::{
    ctx::patience,
    refws::{self, Frame, Take},
    tree::Tree,
};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Input {
    Show(Tree),
    /// `render`: how many updates there had been before the render which the listener is from.
    Event { name: String, kind: String, value: Option<String>, render: usize },
    Say { source: usize, n: usize },
    /// The component sends itself this many inputs.
    Echo { source: usize, n: usize },
    /// The component takes its time.
    Wait(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    Update(Input),
    Dropped,
}

static LOG: Mutex<Option<HashMap<u64, Vec<Entry>>>> = Mutex::new(None);
static NEXT: AtomicU64 = AtomicU64::new(1);

fn log(id: u64, e: Entry) {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).entry(id).or_default().push(e);
}

pub fn entries(id: u64) -> Vec<Entry> {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).get(&id).cloned().unwrap_or_default()
}

pub fn forget(id: u64) {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).remove(&id);
}

pub fn next_id() -> u64 {
    NEXT.fetch_add(1, Ordering::Relaxed)
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Start {
    pub id: u64,
    pub tree: Tree,
    /// What is shown after each event.
    pub queue: Vec<Tree>,
    /// Shows the last input instead of a tree.
    pub tell: bool,
    pub slow_start: u64,
}

pub struct Show {
    start: Start,
    updates: usize,
}

impl Drop for Show {
    fn drop(&mut self) {
        log(self.start.id, Entry::Dropped);
    }
}

/// What a component which tells its inputs shows after the `count`-th.
pub fn telling(count: usize, last: Option<&Input>) -> Tree {
    let mut children: Vec<Tree> = (0..count % 4)
        .map(|i| Tree { id: 10 + i, name: "li".into(), text: Some(format!("{i}")), ..Default::default() })
        .collect();
    children.push(Tree {
        id: 1,
        name: "p".into(),
        text: Some(format!("{last:?}")),
        listeners: vec![("tell".into(), "click".into())],
        ..Default::default()
    });
    children.push(Tree { id: 2, name: "input".into(), listeners: vec![("value".into(), "input".into())], ..Default::default() });
    let mut t = Tree { id: 0, name: "div".into(), text: Some(count.to_string()), children, ..Default::default() };
    let mut n = 0;
    t.each(&mut |e| {
        e.id = n;
        n += 1;
    });
    t
}

impl Component<Start, Input> for Show {
    fn new(start: Start, _: &Context<Input>) -> Self {
        if start.slow_start > 0 {
            std::thread::sleep(Duration::from_millis(start.slow_start));
        }
        Show { start, updates: 0 }
    }

    fn update(&mut self, input: Input, context: &Context<Input>) {
        log(self.start.id, Entry::Update(input.clone()));
        self.updates += 1;
        match &input {
            Input::Show(t) => self.start.tree = t.clone(),
            Input::Event { .. } if !self.start.queue.is_empty() => self.start.tree = self.start.queue.remove(0),
            Input::Echo { source, n } => {
                for i in 0..*n {
                    context.process().send(Input::Say { source: *source, n: i });
                }
            }
            Input::Wait(ms) => std::thread::sleep(Duration::from_millis(*ms)),
            _ => {}
        }
        if self.start.tell {
            self.start.tree = telling(self.updates, Some(&input));
        }
    }

    fn render(&self) -> (Element, HashMap<String, Listener<Input>>) {
        let mut listeners = HashMap::new();
        for (name, event) in self.start.tree.all_listeners() {
            let n = name.clone();
            let render = self.updates;
            // both of the ways to make one
            let whole = name.len() % 2 == 0;
            let listener = match event.as_str() {
                "click" => {
                    let call: Box<dyn Fn(ClickEvent) -> Input> = Box::new(move |_| Input::Event { name: n.clone(), kind: "click".into(), value: None, render });
                    if whole { Listener::Click { call } } else { call.into() }
                }
                "submit" => {
                    let call: Box<dyn Fn(SubmitEvent) -> Input> = Box::new(move |_| Input::Event { name: n.clone(), kind: "submit".into(), value: None, render });
                    if whole { Listener::Submit { call } } else { call.into() }
                }
                _ => {
                    let call: Box<dyn Fn(InputEvent) -> Input> =
                        Box::new(move |e| Input::Event { name: n.clone(), kind: "input".into(), value: Some(e.value), render });
                    if whole { Listener::Input { call } } else { call.into() }
                }
            };
            listeners.insert(name, listener);
        }
        let mut root = self.start.tree.element();
        attach(&mut root, &self.start.tree.all_listeners(), &listeners);
        (root, listeners)
    }
}

/// Has each listener tell by itself which event it is for, as far as its name is its own.
fn attach(e: &mut Element, all: &[(String, String)], listeners: &HashMap<String, Listener<Input>>) {
    for l in &mut e.listeners {
        if all.iter().filter(|(n, _)| n == l.listener_name()).count() == 1 {
            *l = ListenerRef::new(l.listener_name(), listeners[l.listener_name()].js_event());
        }
    }
    for c in &mut e.children {
        attach(c, all, listeners);
    }
}

/// A transport which takes no writes: a client which is gone.
struct Gone(Arc<PipeEnd>);

impl Transport for Gone {
    fn read(&self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(buf)
    }
    fn write(&self, _: &[u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "broken pipe"))
    }
    fn closed(&self) {
        self.0.closed()
    }
}

/// A transport which takes the first byte of a text frame, and no more of it before a pong has been written (if
/// one is, in time).
pub struct Halting {
    end: Arc<PipeEnd>,
    pub halted: AtomicBool,
    state: Mutex<bool>,
    moved: Condvar,
}

impl Transport for Halting {
    fn read(&self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.end.read(buf)
    }
    fn write(&self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.first() == Some(&0x8a) {
            let n = self.end.write(buf)?;
            *self.state.lock().unwrap() = true;
            self.moved.notify_all();
            return Ok(n);
        }
        if buf.first() == Some(&0x81) && !self.halted.swap(true, Ordering::SeqCst) {
            return self.end.write(&buf[..1]);
        }
        let state = self.state.lock().unwrap();
        let _ = self.moved.wait_timeout_while(state, Duration::from_secs(2), |seen| !*seen).unwrap();
        self.end.write(buf)
    }
    fn closed(&self) {
        self.end.closed()
    }
}

pub struct Session {
    pub id: u64,
    pub near: Arc<PipeEnd>,
    pub process: Process<Input>,
    buffer: Vec<u8>,
    taken: usize,
    pub texts: usize,
    /// The server has sent a close frame.
    pub closed: bool,
}

/// A session may be driven by several threads, as a process handle may be copied.
pub struct Handle(pub Process<Input>);
unsafe impl Send for Handle {}

impl Session {
    pub fn start(start: Start, cut: Option<usize>, writable: bool) -> Self {
        Self::over(start, |far| {
            if let Some(cut) = cut {
                far.set_cut(cut);
            }
            if writable { far } else { Arc::new(Gone(far)) }
        })
    }

    pub fn halting(start: Start) -> (Self, Arc<Halting>) {
        let mut out = None;
        let s = Self::over(start, |end| {
            let t = Arc::new(Halting { end, halted: AtomicBool::new(false), state: Mutex::new(false), moved: Condvar::new() });
            out = Some(t.clone());
            t
        });
        (s, out.unwrap())
    }

    /// A session whose component somebody else has started; `rest` is what the client has got already.
    pub fn adopt(id: u64, near: Arc<PipeEnd>, process: Process<Input>, rest: Vec<u8>) -> Self {
        Session { id, near, process, buffer: rest, taken: 0, texts: 0, closed: false }
    }

    fn over(mut start: Start, f: impl FnOnce(Arc<PipeEnd>) -> Arc<dyn Transport>) -> Self {
        start.id = next_id();
        let id = start.id;
        let (near, far) = testkit::pipe();
        let transport = f(far);
        let ws = WebSocket::new(TcpStream::from_transport(transport));
        let process = manage::<Show, Start, Input>(start, ws);
        Session { id, near, process, buffer: vec![], taken: 0, texts: 0, closed: false }
    }

    pub fn show(tree: &Tree) -> Self {
        Self::start(Start { id: 0, tree: tree.clone(), queue: vec![], tell: false, slow_start: 0 }, None, true)
    }

    pub fn handle(&self) -> Handle {
        Handle(self.process.clone())
    }

    /// The next frame from the server, if one comes in time.
    fn frame(&mut self, timeout: Duration) -> Result<Option<Frame>, String> {
        let from = self.taken;
        let complete = |b: &[u8]| server_frame(&b[from..]);
        let mut problem = Ok(());
        self.near.collect(&mut self.buffer, timeout, |b, eof| match complete(b) {
            Ok(Some(_)) => true,
            Ok(None) => eof,
            Err(_) => true,
        });
        match complete(&self.buffer) {
            Ok(Some((frame, len))) => {
                self.taken += len;
                if self.taken > 1 << 16 {
                    self.buffer.drain(..self.taken);
                    self.taken = 0;
                }
                return Ok(Some(frame));
            }
            Ok(None) => {}
            Err(e) => problem = Err(e),
        }
        problem.map(|_| None)
    }

    /// The next text message. Pongs and the close frame are noted.
    pub fn message(&mut self, timeout: Duration) -> Result<Option<String>, String> {
        loop {
            match self.frame(timeout)? {
                None => return Ok(None),
                Some(f) if f.op == 1 => {
                    self.texts += 1;
                    return String::from_utf8(f.payload).map(Some).map_err(|_| "a message is not UTF-8".into());
                }
                Some(f) if f.op == 8 => self.closed = true,
                Some(f) if f.op == 10 => {}
                Some(f) => return Err(format!("a frame with opcode {}", f.op)),
            }
        }
    }

    pub fn expect(&mut self, what: &str) -> Result<String, String> {
        match self.message(patience()) {
            Ok(Some(m)) => Ok(m),
            Ok(None) => Err(format!(
                "no message to the client {what}{}{}",
                if self.near.other_closed() { ", the connection is closed" } else { "" },
                match testkit::take_traps().first() {
                    Some(t) => format!("; a process panicked: {t}"),
                    None => String::new(),
                }
            )),
            Err(e) => Err(e),
        }
    }

    /// Sends a text message, as the client does.
    pub fn tell(&self, text: &str, mask: [u8; 4]) {
        let _ = self.near.write(&Frame::new(1, mask, text.as_bytes().to_vec()).encode());
    }

    pub fn raw(&self, bytes: &[u8]) {
        let _ = self.near.write(bytes);
    }

    pub fn wait_entries(&self, n: usize) -> Result<Vec<Entry>, String> {
        eventually(|| entries(self.id).len() >= n);
        let all = entries(self.id);
        if all.len() < n {
            return Err(format!("{} inputs were applied, it should be {n}", all.len()));
        }
        Ok(all)
    }

    /// The client leaves in the ordinary way.
    pub fn leave(&self) {
        self.raw(&Frame::new(8, [1, 2, 3, 4], vec![]).encode());
        self.near.finish_writing();
    }

    pub fn dropped(&self) -> bool {
        entries(self.id).contains(&Entry::Dropped)
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        self.near.closed();
    }
}

pub fn eventually(f: impl Fn() -> bool) -> bool {
    let start = Instant::now();
    let mut n = 0;
    while !f() {
        if start.elapsed() > patience() {
            return false;
        }
        n += 1;
        if n < 300 {
            std::thread::yield_now();
        } else {
            std::thread::sleep(Duration::from_micros(100));
        }
    }
    true
}

fn server_frame(b: &[u8]) -> Result<Option<(Frame, usize)>, String> {
    match refws::take(b) {
        Take::Short => Ok(None),
        Take::BadLength => Err("a length from the server is not in the shortest form".into()),
        Take::Frame(_, n) => Ok(refws::server_frames(&b[..n])?.pop().map(|f| (f, n))),
    }
}
