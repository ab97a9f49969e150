//! What the harness drives the stand-in with. Not part of lunatic.

use std::{
    collections::{BTreeMap, VecDeque},
    io,
    net::SocketAddr,
    sync::{Arc, Condvar, Mutex},
    time::{Duration, Instant},
};

use crate::{
    message::Killed,
    net::{Handle, TcpStream},
    rt,
};

/// One end of a connection, as the code under test sees it.
pub trait Transport: Send + Sync {
    fn read(&self, buf: &mut [u8]) -> io::Result<usize>;
    fn write(&self, buf: &[u8]) -> io::Result<usize>;
    /// The last handle is gone.
    fn closed(&self) {}
}

struct Listener {
    queue: VecDeque<io::Result<TcpStream>>,
    shut: bool,
}

static LISTENERS: Mutex<BTreeMap<u16, Listener>> = Mutex::new(BTreeMap::new());
static ARRIVED: Condvar = Condvar::new();

fn addr_in_use() -> io::Error {
    io::Error::new(io::ErrorKind::Other, "address in use")
}

pub(crate) fn bind(port: u16) -> io::Result<u16> {
    let mut all = LISTENERS.lock().unwrap();
    let port = if port == 0 {
        (20000..u16::MAX).find(|p| !all.contains_key(p)).ok_or_else(addr_in_use)?
    } else {
        port
    };
    if all.contains_key(&port) {
        return Err(addr_in_use());
    }
    all.insert(
        port,
        Listener {
            queue: VecDeque::new(),
            shut: false,
        },
    );
    ARRIVED.notify_all();
    Ok(port)
}

pub(crate) fn unbind(port: u16) {
    LISTENERS.lock().unwrap().remove(&port);
}

pub(crate) fn accept(port: u16) -> io::Result<TcpStream> {
    let mut all = LISTENERS.lock().unwrap();
    loop {
        let listener = all.get_mut(&port).expect("the listener is bound");
        if let Some(stream) = listener.queue.pop_front() {
            return stream;
        }
        if listener.shut || rt::current().killed() {
            drop(all);
            std::panic::resume_unwind(Box::new(Killed));
        }
        all = ARRIVED.wait(all).unwrap();
    }
}

/// Has every process which accepts see whether it has been killed.
pub(crate) fn wake() {
    let _all = LISTENERS.lock().unwrap();
    ARRIVED.notify_all();
}

/// Whether the read which the current process makes may wait. If not, it has a time limit, and a
/// transport which has nothing to give answers with `timed_out`.
pub fn may_wait() -> bool {
    crate::net::MAY_WAIT.with(|w| w.get())
}

pub fn timed_out() -> io::Error {
    io::Error::new(io::ErrorKind::Other, "timed out")
}

/// How many processes died because one they were linked to had failed.
pub fn link_deaths() -> u64 {
    rt::link_deaths()
}

/// Whether something listens on the port.
pub fn is_bound(port: u16) -> bool {
    LISTENERS.lock().unwrap().contains_key(&port)
}

/// Ends the process which accepts on the port, once it has accepted what is queued.
pub fn shut(port: u16) {
    if let Some(l) = LISTENERS.lock().unwrap().get_mut(&port) {
        l.shut = true;
    }
    ARRIVED.notify_all();
}

/// Queues a connection whose server end is the given transport.
pub fn connect_transport(port: u16, transport: Arc<dyn Transport>) -> io::Result<()> {
    let mut all = LISTENERS.lock().unwrap();
    let listener = all
        .get_mut(&port)
        .filter(|l| !l.shut)
        .ok_or_else(|| io::Error::new(io::ErrorKind::ConnectionRefused, "nobody listens"))?;
    listener.queue.push_back(Ok(TcpStream::from_transport(transport)));
    ARRIVED.notify_all();
    Ok(())
}

/// Has one call of `accept` fail, as when a client is gone before it is accepted.
pub fn fail_accept(port: u16) {
    if let Some(l) = LISTENERS.lock().unwrap().get_mut(&port) {
        l.queue.push_back(Err(io::Error::new(io::ErrorKind::Other, "accept failed")));
    }
    ARRIVED.notify_all();
}

pub(crate) fn connect_stream(addr: SocketAddr) -> io::Result<TcpStream> {
    let (near, far) = pipe();
    connect_transport(addr.port(), far)?;
    Ok(TcpStream::from_handle(Arc::new(Handle(near))))
}

/// Starts a process from a closure, for the harness.
pub fn spawn_process(body: impl FnOnce() + Send + 'static) {
    rt::start(body);
}

/// The number of processes which have not ended.
pub fn live_processes() -> usize {
    rt::live()
}

/// The number of processes started so far.
pub fn spawned_processes() -> u64 {
    rt::spawned()
}

/// The number of messages which were sent to processes that had ended.
pub fn dead_letters() -> u64 {
    rt::dead_letters()
}

/// The number of messages which wait in mailboxes.
pub fn queued_messages() -> usize {
    rt::queued()
}

/// What processes panicked with since the last call.
pub fn take_traps() -> Vec<String> {
    rt::take_traps()
}

/// Ends every process at its next wait for a message.
pub fn kill_waiting_processes() {
    rt::kill_all()
}

struct Lane {
    bytes: VecDeque<u8>,
    /// The writer is gone.
    eof: bool,
    /// The reader is gone.
    broken: bool,
}

struct PipeState {
    lanes: [Lane; 2],
    /// How many bytes a read or a write moves at most, on the server's side.
    cut: usize,
}

struct PipeShared {
    state: Mutex<PipeState>,
    moved: Condvar,
}

/// One end of an in-memory connection.
pub struct PipeEnd {
    shared: Arc<PipeShared>,
    side: usize,
}

/// An in-memory connection.
pub fn pipe() -> (Arc<PipeEnd>, Arc<PipeEnd>) {
    let lane = || Lane {
        bytes: VecDeque::new(),
        eof: false,
        broken: false,
    };
    let shared = Arc::new(PipeShared {
        state: Mutex::new(PipeState {
            lanes: [lane(), lane()],
            cut: usize::MAX,
        }),
        moved: Condvar::new(),
    });
    (
        Arc::new(PipeEnd {
            shared: shared.clone(),
            side: 0,
        }),
        Arc::new(PipeEnd { shared, side: 1 }),
    )
}

impl PipeEnd {
    /// Cuts the reads and writes of side 1 to at most this many bytes.
    pub fn set_cut(&self, cut: usize) {
        self.shared.state.lock().unwrap().cut = cut.max(1);
    }

    /// No more bytes will be written from this side.
    pub fn finish_writing(&self) {
        self.shared.state.lock().unwrap().lanes[self.side].eof = true;
        self.shared.moved.notify_all();
    }

    /// Whether the other side has been closed.
    pub fn other_closed(&self) -> bool {
        self.shared.state.lock().unwrap().lanes[1 - self.side].eof
    }

    /// Takes what has arrived, waiting until `done` is content or the time is over. The second
    /// value tells whether the other side has closed.
    pub fn collect(&self, into: &mut Vec<u8>, timeout: Duration, done: impl Fn(&[u8], bool) -> bool) -> (bool, bool) {
        let deadline = Instant::now() + timeout;
        let mut state = self.shared.state.lock().unwrap();
        loop {
            let lane = &mut state.lanes[1 - self.side];
            into.extend(lane.bytes.drain(..));
            let eof = lane.eof;
            if done(into, eof) {
                return (true, eof);
            }
            let now = Instant::now();
            if now >= deadline {
                return (false, eof);
            }
            state = self.shared.moved.wait_timeout(state, deadline - now).unwrap().0;
        }
    }

    /// How many bytes wait to be read by the other side.
    pub fn unread(&self) -> usize {
        self.shared.state.lock().unwrap().lanes[self.side].bytes.len()
    }
}

impl Transport for PipeEnd {
    fn read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut state = self.shared.state.lock().unwrap();
        if buf.is_empty() {
            return Ok(0);
        }
        loop {
            let cut = if self.side == 1 { state.cut } else { usize::MAX };
            let lane = &mut state.lanes[1 - self.side];
            if !lane.bytes.is_empty() {
                let n = buf.len().min(cut).min(lane.bytes.len());
                for (to, from) in buf.iter_mut().zip(lane.bytes.drain(..n)) {
                    *to = from;
                }
                return Ok(n);
            }
            if lane.eof {
                return Ok(0);
            }
            if !may_wait() {
                return Err(timed_out());
            }
            state = self.shared.moved.wait(state).unwrap();
        }
    }

    fn write(&self, buf: &[u8]) -> io::Result<usize> {
        let mut state = self.shared.state.lock().unwrap();
        let cut = if self.side == 1 { state.cut } else { usize::MAX };
        let lane = &mut state.lanes[self.side];
        if lane.broken {
            return Err(io::Error::new(io::ErrorKind::Other, "broken pipe"));
        }
        let n = buf.len().min(cut);
        lane.bytes.extend(&buf[..n]);
        self.shared.moved.notify_all();
        Ok(n)
    }

    fn closed(&self) {
        let mut state = self.shared.state.lock().unwrap();
        state.lanes[self.side].eof = true;
        state.lanes[1 - self.side].broken = true;
        self.shared.moved.notify_all();
    }
}
