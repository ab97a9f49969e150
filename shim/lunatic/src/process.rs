//! Abstract processes.

use std::{marker::PhantomData, sync::Arc};

use crate::{
    message::{self, Tag},
    rt,
    serializer::{Bincode, Serializer},
    Process,
};

pub trait AbstractProcess {
    type Arg: serde::Serialize + serde::de::DeserializeOwned;
    type State;

    fn init(this: ProcessRef<Self>, arg: Self::Arg) -> Self::State;

    fn terminate(_state: Self::State) {}

    fn handle_link_trapped(_state: &mut Self::State, _tag: Tag) {}
}

pub trait ProcessMessage<M, S = Bincode>: AbstractProcess
where
    S: Serializer<M>,
{
    fn handle(state: &mut Self::State, message: M);
}

pub trait ProcessRequest<M, S = Bincode>: AbstractProcess
where
    S: Serializer<M>,
{
    type Response;

    fn handle(state: &mut Self::State, request: M) -> Self::Response;
}

pub trait StartProcess<T>
where
    T: AbstractProcess,
{
    fn start(arg: T::Arg, name: Option<&str>) -> ProcessRef<T>;
    fn start_link(arg: T::Arg, name: Option<&str>) -> ProcessRef<T>;
}

#[derive(serde::Serialize, serde::Deserialize)]
enum Sendable {
    Message(u64),
    Request(u64, Process<()>),
    Shutdown,
}

impl<T> StartProcess<T> for T
where
    T: AbstractProcess + 'static,
{
    fn start(arg: T::Arg, _name: Option<&str>) -> ProcessRef<T> {
        start(arg, None)
    }

    fn start_link(arg: T::Arg, _name: Option<&str>) -> ProcessRef<T> {
        start(arg, Some(rt::current()))
    }
}

fn start<T>(arg: T::Arg, link: Option<Arc<message::Inbox>>) -> ProcessRef<T>
where
    T: AbstractProcess + 'static,
{
        message::begin(1);
        Bincode::encode(&arg).unwrap();
        let first = message::finish();
        let (done, ready) = std::sync::mpsc::channel();
        let inbox = rt::start_linked(link, move || {
            message::open(first);
            let arg: T::Arg = Bincode::decode().unwrap();
            let this = ProcessRef {
                process: Process::from_inbox(rt::current()),
                phantom: PhantomData,
            };
            let mut state = T::init(this, arg);
            let _ = done.send(());
            loop {
                let message = rt::current().pop(None, None).unwrap();
                message::open(message);
                let next: Sendable = Bincode::decode().unwrap();
                match next {
                    Sendable::Message(f) => {
                        let f: fn(&mut T::State) = unsafe { std::mem::transmute(f as usize) };
                        f(&mut state)
                    }
                    Sendable::Request(f, sender) => {
                        let f: fn(&mut T::State, Process<()>) =
                            unsafe { std::mem::transmute(f as usize) };
                        f(&mut state, sender)
                    }
                    Sendable::Shutdown => {
                        T::terminate(state);
                        break;
                    }
                }
            }
        });
        ready.recv().expect("the process ended before it was ready");
        ProcessRef {
            process: Process::from_inbox(inbox),
            phantom: PhantomData,
        }
}

pub struct ProcessRef<T: ?Sized> {
    process: Process<()>,
    phantom: PhantomData<fn() -> T>,
}

impl<T: ?Sized> std::fmt::Debug for ProcessRef<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("ProcessRef").field("process", &self.process).finish()
    }
}

impl<T: ?Sized> serde::Serialize for ProcessRef<T> {
    fn serialize<A: serde::Serializer>(&self, serializer: A) -> Result<A::Ok, A::Error> {
        self.process.serialize(serializer)
    }
}

impl<'de, T: ?Sized> serde::Deserialize<'de> for ProcessRef<T> {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        Ok(ProcessRef {
            process: Process::deserialize(deserializer)?,
            phantom: PhantomData,
        })
    }
}

impl<T: ?Sized> Clone for ProcessRef<T> {
    fn clone(&self) -> Self {
        ProcessRef {
            process: self.process.clone(),
            phantom: PhantomData,
        }
    }
}

impl<T: ?Sized> ProcessRef<T> {
    pub fn uuid(&self) -> u128 {
        self.process.uuid()
    }

    pub fn link(&self) {
        self.process.link()
    }

    pub fn unlink(&self) {
        self.process.unlink()
    }
}

impl<T: AbstractProcess> ProcessRef<T> {
    pub fn shutdown(&self) {
        message::begin(1);
        Bincode::encode(&Sendable::Shutdown).unwrap();
        self.process.inbox.push(message::finish());
    }
}

pub trait Message<M, S>
where
    S: Serializer<M>,
{
    fn send(&self, message: M);
}

pub trait Request<M, S>
where
    S: Serializer<M>,
{
    type Result;

    fn request(&self, request: M) -> Self::Result;
}

impl<M, S, T> Message<M, S> for ProcessRef<T>
where
    T: AbstractProcess + ProcessMessage<M, S>,
    S: Serializer<M>,
{
    fn send(&self, message: M) {
        fn unpacker<TU, MU, SU>(this: &mut TU::State)
        where
            TU: ProcessMessage<MU, SU>,
            SU: Serializer<MU>,
        {
            let message: MU = SU::decode().unwrap();
            <TU as ProcessMessage<MU, SU>>::handle(this, message);
        }
        message::begin(1);
        let handler: fn(&mut T::State) = unpacker::<T, M, S>;
        Bincode::encode(&Sendable::Message(handler as usize as u64)).unwrap();
        S::encode(&message).unwrap();
        self.process.inbox.push(message::finish());
    }
}

impl<M, S, T> Request<M, S> for ProcessRef<T>
where
    T: AbstractProcess + ProcessRequest<M, S>,
    S: Serializer<M> + Serializer<<T as ProcessRequest<M, S>>::Response>,
{
    type Result = <T as ProcessRequest<M, S>>::Response;

    fn request(&self, request: M) -> Self::Result {
        fn unpacker<TU, MU, SU>(this: &mut TU::State, sender: Process<()>)
        where
            TU: ProcessRequest<MU, SU>,
            SU: Serializer<MU> + Serializer<<TU as ProcessRequest<MU, SU>>::Response>,
        {
            let message: MU = SU::decode().unwrap();
            let tag = message::in_tag();
            let result = <TU as ProcessRequest<MU, SU>>::handle(this, message);
            let sender: Process<<TU as ProcessRequest<MU, SU>>::Response, SU> =
                Process::from_inbox(sender.inbox.clone());
            sender.tag_send(Tag(tag), result);
        }
        let tag = Tag::new();
        message::begin(tag.id());
        let handler: fn(&mut T::State, Process<()>) = unpacker::<T, M, S>;
        let this: Process<()> = Process::from_inbox(rt::current());
        Bincode::encode(&Sendable::Request(handler as usize as u64, this)).unwrap();
        S::encode(&request).unwrap();
        self.process.inbox.push(message::finish());
        let reply = rt::current().pop(Some(&[tag.id()]), None).unwrap();
        message::open(reply);
        S::decode().unwrap()
    }
}
