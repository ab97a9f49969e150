//! Processes.

use std::{
    cell::{RefCell, UnsafeCell},
    collections::BTreeMap,
    marker::PhantomData,
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
};

use crate::{
    message::{self, Inbox, Killed, Mailbox, Resource, Tag},
    serializer::{Bincode, Serializer},
};

static NEXT_ID: AtomicU64 = AtomicU64::new(1);
static SPAWNED: AtomicU64 = AtomicU64::new(0);
static DEAD_LETTERS: AtomicU64 = AtomicU64::new(0);
static LIVE: Mutex<BTreeMap<u64, Arc<Inbox>>> = Mutex::new(BTreeMap::new());
static TRAPS: Mutex<Vec<String>> = Mutex::new(Vec::new());

thread_local! {
    static CURRENT: RefCell<Option<Arc<Inbox>>> = const { RefCell::new(None) };
}

/// The inbox of the current process. A thread the harness made becomes a process when it asks.
pub(crate) fn current() -> Arc<Inbox> {
    CURRENT.with(|c| {
        c.borrow_mut()
            .get_or_insert_with(|| Inbox::new(NEXT_ID.fetch_add(1, Ordering::Relaxed)))
            .clone()
    })
}

pub(crate) fn note_dead_letter() {
    DEAD_LETTERS.fetch_add(1, Ordering::Relaxed);
}

pub(crate) fn dead_letters() -> u64 {
    DEAD_LETTERS.load(Ordering::Relaxed)
}

pub(crate) fn spawned() -> u64 {
    SPAWNED.load(Ordering::Relaxed)
}

pub(crate) fn live() -> usize {
    LIVE.lock().unwrap().len()
}

pub(crate) fn take_traps() -> Vec<String> {
    std::mem::take(&mut *TRAPS.lock().unwrap())
}

pub(crate) fn kill_all() {
    for inbox in LIVE.lock().unwrap().values() {
        inbox.kill();
    }
}

pub(crate) fn queued() -> usize {
    LIVE.lock().unwrap().values().map(|i| i.len()).sum()
}

/// Ends the current process here if it has been killed.
pub(crate) fn check_killed() {
    if current().killed() {
        panic::resume_unwind(Box::new(Killed));
    }
}

/// Processes which died because one they were linked to had failed.
static LINK_DEATHS: AtomicU64 = AtomicU64::new(0);

pub(crate) fn link_deaths() -> u64 {
    LINK_DEATHS.load(Ordering::Relaxed)
}

fn trap_text(e: &(dyn std::any::Any + Send)) -> Option<String> {
    if e.is::<Killed>() {
        None
    } else if let Some(s) = e.downcast_ref::<&str>() {
        Some(s.to_string())
    } else if let Some(s) = e.downcast_ref::<String>() {
        Some(s.clone())
    } else {
        Some("a panic with another payload".to_string())
    }
}

/// Starts a process. A panic in it is recorded, and ends it and those it is linked to.
pub(crate) fn start(body: impl FnOnce() + Send + 'static) -> Arc<Inbox> {
    start_linked(None, body)
}

pub(crate) fn start_linked(link: Option<Arc<Inbox>>, body: impl FnOnce() + Send + 'static) -> Arc<Inbox> {
    let inbox = Inbox::new(NEXT_ID.fetch_add(1, Ordering::Relaxed));
    if let Some(parent) = link {
        parent.link(&inbox);
    }
    SPAWNED.fetch_add(1, Ordering::Relaxed);
    LIVE.lock().unwrap().insert(inbox.id, inbox.clone());
    let mine = inbox.clone();
    std::thread::Builder::new()
        .name("process".to_string())
        .stack_size(1 << 20)
        .spawn(move || {
            CURRENT.with(|c| *c.borrow_mut() = Some(mine.clone()));
            if let Err(e) = panic::catch_unwind(AssertUnwindSafe(body)) {
                if let Some(text) = trap_text(&*e) {
                    TRAPS.lock().unwrap().push(text);
                }
                for linked in mine.take_links() {
                    LINK_DEATHS.fetch_add(1, Ordering::Relaxed);
                    linked.kill();
                }
                crate::testkit::wake();
            }
            // what a finished process held is released: its last message, then its mailbox
            message::open(message::Message::new(1));
            message::begin(1);
            mine.close();
            LIVE.lock().unwrap().remove(&mine.id);
        })
        .expect("failed to start a thread");
    inbox
}

/// A handle of a process which receives messages of type `M`.
pub struct Process<M, S = Bincode> {
    pub(crate) inbox: Arc<Inbox>,
    consumed: UnsafeCell<bool>,
    phantom: PhantomData<fn() -> (M, S)>,
}

impl<M, S> Process<M, S> {
    pub(crate) fn from_inbox(inbox: Arc<Inbox>) -> Self {
        Self {
            inbox,
            consumed: UnsafeCell::new(false),
            phantom: PhantomData,
        }
    }

    /// Spawn a process.
    pub fn spawn<C, T>(capture: C, entry: fn(C, T)) -> T::Process
    where
        S: Serializer<C>,
        T: IntoProcess<M, S>,
    {
        T::spawn(capture, entry, false)
    }

    /// Spawn a linked process.
    pub fn spawn_link<C, T>(capture: C, entry: fn(C, T)) -> T::Process
    where
        S: Serializer<C>,
        T: IntoProcess<M, S>,
    {
        T::spawn(capture, entry, true)
    }

    pub fn spawn_link_tag<C, T>(capture: C, _tag: Tag, entry: fn(C, T)) -> T::Process
    where
        S: Serializer<C>,
        T: IntoProcess<M, S>,
    {
        T::spawn(capture, entry, true)
    }

    pub fn spawn_config<C, T>(_config: &crate::ProcessConfig, capture: C, entry: fn(C, T)) -> T::Process
    where
        S: Serializer<C>,
        T: IntoProcess<M, S>,
    {
        T::spawn(capture, entry, false)
    }

    pub fn spawn_link_config<C, T>(_config: &crate::ProcessConfig, capture: C, entry: fn(C, T)) -> T::Process
    where
        S: Serializer<C>,
        T: IntoProcess<M, S>,
    {
        T::spawn(capture, entry, true)
    }

    pub fn link(&self) {
        self.inbox.link(&current());
    }

    pub fn unlink(&self) {
        self.inbox.unlink(&current());
    }

    pub fn uuid(&self) -> u128 {
        self.inbox.id as u128
    }

    fn check(&self) {
        if unsafe { *self.consumed.get() } {
            panic!("a process handle was used after it had been sent away");
        }
    }
}

impl<M, S> Process<M, S>
where
    S: Serializer<M>,
{
    pub fn send(&self, message: M) {
        self.tag_send(Tag::none(), message)
    }

    pub fn tag_send(&self, tag: Tag, message: M) {
        self.check();
        message::begin(tag.id());
        S::encode(&message).unwrap();
        self.inbox.push(message::finish());
    }
}

impl<M, S> PartialEq for Process<M, S> {
    fn eq(&self, other: &Self) -> bool {
        self.uuid() == other.uuid()
    }
}

impl<M, S> std::fmt::Debug for Process<M, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Process").field("uuid", &self.uuid()).finish()
    }
}

impl<M, S> Clone for Process<M, S> {
    fn clone(&self) -> Self {
        self.check();
        Self::from_inbox(self.inbox.clone())
    }
}

impl<M, S> serde::Serialize for Process<M, S> {
    fn serialize<A>(&self, serializer: A) -> Result<A::Ok, A::Error>
    where
        A: serde::Serializer,
    {
        self.check();
        unsafe { *self.consumed.get() = true };
        serializer.serialize_u64(message::push(Resource::Process(self.inbox.clone())))
    }
}

impl<'de, M, S> serde::de::Deserialize<'de> for Process<M, S> {
    fn deserialize<D>(deserializer: D) -> Result<Process<M, S>, D::Error>
    where
        D: serde::de::Deserializer<'de>,
    {
        let index = u64::deserialize(deserializer)?;
        match message::take(index) {
            Some(Resource::Process(inbox)) => Ok(Process::from_inbox(inbox)),
            _ => Err(serde::de::Error::custom("no such process resource")),
        }
    }
}

/// What the second argument of a process function can be.
pub trait IntoProcess<M, S> {
    type Process;

    fn spawn<C>(capture: C, entry: fn(C, Self), link: bool) -> Self::Process
    where
        S: Serializer<C>;
}

impl<M, S> IntoProcess<M, S> for Mailbox<M, S>
where
    S: Serializer<M>,
{
    type Process = Process<M, S>;

    fn spawn<C>(capture: C, entry: fn(C, Self), link: bool) -> Self::Process
    where
        S: Serializer<C>,
    {
        // Only bytes and resources go to the new process, as in lunatic.
        message::begin(1);
        S::encode(&capture).unwrap();
        let first = message::finish();
        drop(capture);
        // Neither type has to be `'static`, as nothing of them goes to the other thread.
        fn run<C, M, S: Serializer<M> + Serializer<C>>(entry: usize) {
            let entry: fn(C, Mailbox<M, S>) = unsafe { std::mem::transmute(entry as *const ()) };
            let capture = <S as Serializer<C>>::decode().unwrap();
            entry(capture, unsafe { Mailbox::new() });
        }
        let run: fn(usize) = run::<C, M, S>;
        let entry = entry as *const () as usize;
        let parent = link.then(current);
        let inbox = start_linked(parent, move || {
            message::open(first);
            run(entry);
        });
        Process::from_inbox(inbox)
    }
}
