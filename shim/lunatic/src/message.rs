//! Messages, mailboxes, and the scratch area a process encodes into and decodes from.

use std::{
    cell::RefCell,
    collections::VecDeque,
    io,
    marker::PhantomData,
    sync::{
        atomic::{AtomicI64, Ordering},
        Arc, Condvar, Mutex, Weak,
    },
    time::{Duration, Instant},
};

use crate::{
    net::Handle,
    rt::{self, Process},
    serializer::{Bincode, DecodeError, Serializer},
};

static NEXT_TAG: AtomicI64 = AtomicI64::new(128);

/// Identifies a message within a conversation.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Tag(pub(crate) i64);

impl Tag {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Tag(NEXT_TAG.fetch_add(1, Ordering::Relaxed))
    }

    pub fn none() -> Self {
        Tag(1)
    }

    pub fn id(&self) -> i64 {
        self.0
    }
}

/// Something which travels beside the bytes of a message.
pub(crate) enum Resource {
    Process(Arc<Inbox>),
    Stream(Arc<Handle>),
}

pub(crate) struct Message {
    pub(crate) tag: i64,
    pub(crate) bytes: Vec<u8>,
    pub(crate) pos: usize,
    pub(crate) resources: Vec<Option<Resource>>,
}

impl Message {
    pub(crate) fn new(tag: i64) -> Self {
        Self {
            tag,
            bytes: Vec::new(),
            pos: 0,
            resources: Vec::new(),
        }
    }
}

thread_local! {
    static OUT: RefCell<Message> = RefCell::new(Message::new(1));
    static IN: RefCell<Message> = RefCell::new(Message::new(1));
}

pub(crate) fn begin(tag: i64) {
    OUT.with(|m| *m.borrow_mut() = Message::new(tag));
}

pub(crate) fn finish() -> Message {
    OUT.with(|m| std::mem::replace(&mut *m.borrow_mut(), Message::new(1)))
}

pub(crate) fn open(message: Message) {
    IN.with(|m| *m.borrow_mut() = message);
}

pub(crate) fn in_tag() -> i64 {
    IN.with(|m| m.borrow().tag)
}

pub(crate) fn write_bytes(bytes: &[u8]) {
    OUT.with(|m| m.borrow_mut().bytes.extend_from_slice(bytes));
}

pub(crate) fn push(resource: Resource) -> u64 {
    OUT.with(|m| {
        let mut m = m.borrow_mut();
        m.resources.push(Some(resource));
        m.resources.len() as u64 - 1
    })
}

pub(crate) fn take(index: u64) -> Option<Resource> {
    IN.with(|m| {
        m.borrow_mut()
            .resources
            .get_mut(index as usize)
            .and_then(Option::take)
    })
}

pub(crate) struct Writer;

impl io::Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        write_bytes(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub(crate) struct Reader;

impl io::Read for Reader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        IN.with(|m| {
            let mut m = m.borrow_mut();
            let n = buf.len().min(m.bytes.len() - m.pos);
            let pos = m.pos;
            buf[..n].copy_from_slice(&m.bytes[pos..pos + n]);
            m.pos += n;
            Ok(n)
        })
    }
}

/// The queue of messages of one process.
pub(crate) struct Inbox {
    pub(crate) id: u64,
    state: Mutex<InboxState>,
    ready: Condvar,
}

struct InboxState {
    queue: VecDeque<Message>,
    dead: bool,
    killed: bool,
    links: Vec<Weak<Inbox>>,
}

/// What unwinds a process which the test kit has ended, or a link has.
pub(crate) struct Killed;

impl Inbox {
    pub(crate) fn new(id: u64) -> Arc<Self> {
        Arc::new(Self {
            id,
            state: Mutex::new(InboxState {
                queue: VecDeque::new(),
                dead: false,
                killed: false,
                links: Vec::new(),
            }),
            ready: Condvar::new(),
        })
    }

    pub(crate) fn push(&self, message: Message) {
        let mut state = self.state.lock().unwrap();
        // A message to a finished process is dropped, with its resources.
        if !state.dead {
            state.queue.push_back(message);
            self.ready.notify_all();
        } else {
            drop(state);
            rt::note_dead_letter();
        }
    }

    pub(crate) fn close(&self) {
        let mut state = self.state.lock().unwrap();
        state.dead = true;
        let queue = std::mem::take(&mut state.queue);
        drop(state);
        drop(queue);
    }

    pub(crate) fn kill(&self) {
        self.state.lock().unwrap().killed = true;
        self.ready.notify_all();
    }

    pub(crate) fn killed(&self) -> bool {
        self.state.lock().unwrap().killed
    }

    /// Has both processes die if one fails.
    pub(crate) fn link(self: &Arc<Self>, other: &Arc<Self>) {
        self.state.lock().unwrap().links.push(Arc::downgrade(other));
        other.state.lock().unwrap().links.push(Arc::downgrade(self));
    }

    pub(crate) fn unlink(self: &Arc<Self>, other: &Arc<Self>) {
        for (a, b) in [(self, other), (other, self)] {
            a.state.lock().unwrap().links.retain(|l| l.as_ptr() != Arc::as_ptr(b));
        }
    }

    pub(crate) fn take_links(&self) -> Vec<Arc<Inbox>> {
        let links = std::mem::take(&mut self.state.lock().unwrap().links);
        links.iter().filter_map(Weak::upgrade).collect()
    }

    pub(crate) fn len(&self) -> usize {
        self.state.lock().unwrap().queue.len()
    }

    /// `tags`: `None` takes the first message.
    pub(crate) fn pop(&self, tags: Option<&[i64]>, timeout: Option<Duration>) -> Option<Message> {
        let deadline = timeout.map(|t| Instant::now() + t);
        let mut state = self.state.lock().unwrap();
        loop {
            if state.killed {
                drop(state);
                std::panic::resume_unwind(Box::new(Killed));
            }
            let at = state
                .queue
                .iter()
                .position(|m| tags.map_or(true, |tags| tags.contains(&m.tag)));
            if let Some(at) = at {
                return state.queue.remove(at);
            }
            state = match deadline {
                None => self.ready.wait(state).unwrap(),
                Some(deadline) => {
                    let now = Instant::now();
                    if now >= deadline {
                        return None;
                    }
                    self.ready.wait_timeout(state, deadline - now).unwrap().0
                }
            };
        }
    }
}

/// Error while receiving a message.
#[derive(Debug)]
pub enum ReceiveError {
    DeserializationFailed(DecodeError),
    Timeout,
}

/// The mailbox of the current process.
#[derive(Debug, Clone, Copy)]
pub struct Mailbox<M, S = Bincode>
where
    S: Serializer<M>,
{
    phantom: PhantomData<fn() -> (M, S)>,
}

impl<M, S> Mailbox<M, S>
where
    S: Serializer<M>,
{
    /// # Safety
    /// As in lunatic: a process must use one type of mailbox.
    pub unsafe fn new() -> Self {
        Self {
            phantom: PhantomData,
        }
    }

    pub fn this(&self) -> Process<M, S> {
        Process::from_inbox(rt::current())
    }

    pub fn receive(&self) -> M {
        self.receive_(Some(&[1]), None).unwrap()
    }

    pub fn tag_receive(&self, tags: Option<&[Tag]>) -> M {
        let tags: Option<Vec<i64>> = tags.map(|t| t.iter().map(|t| t.0).collect());
        self.receive_(tags.as_deref(), None).unwrap()
    }

    pub fn receive_timeout(&self, timeout: Duration) -> Result<M, ReceiveError> {
        self.receive_(None, Some(timeout))
    }

    pub fn tag_receive_timeout(
        &self,
        tags: Option<&[Tag]>,
        timeout: Duration,
    ) -> Result<M, ReceiveError> {
        let tags: Option<Vec<i64>> = tags.map(|t| t.iter().map(|t| t.0).collect());
        self.receive_(tags.as_deref(), Some(timeout))
    }

    fn receive_(&self, tags: Option<&[i64]>, timeout: Option<Duration>) -> Result<M, ReceiveError> {
        let message = rt::current()
            .pop(tags, timeout)
            .ok_or(ReceiveError::Timeout)?;
        open(message);
        S::decode().map_err(ReceiveError::DeserializationFailed)
    }
}
