//! Sockets. Where the bytes come from and go to is up to a `testkit::Transport`.

use std::{
    cell::{Cell, UnsafeCell},
    io::{Error, ErrorKind, IoSlice, Read, Result, Write},
    net::SocketAddr,
    sync::Arc,
    time::Duration,
};

use crate::{
    message::{self, Resource},
    rt,
    testkit::{self, Transport},
};

/// What all handles of one socket share; dropping it closes the socket.
pub(crate) struct Handle(pub(crate) Arc<dyn Transport>);

impl Drop for Handle {
    fn drop(&mut self) {
        self.0.closed();
    }
}

thread_local! {
    pub(crate) static MAY_WAIT: Cell<bool> = const { Cell::new(true) };
}

/// A TCP connection.
pub struct TcpStream {
    handle: UnsafeCell<Option<Arc<Handle>>>,
    limited: bool,
}

// The handle is taken out only while the owner serialises it.
unsafe impl Send for TcpStream {}

impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("TcpStream").finish_non_exhaustive()
    }
}

impl TcpStream {
    pub(crate) fn from_handle(handle: Arc<Handle>) -> Self {
        Self {
            handle: UnsafeCell::new(Some(handle)),
            limited: false,
        }
    }

    /// A socket with the given other end.
    pub fn from_transport(transport: Arc<dyn Transport>) -> Self {
        Self::from_handle(Arc::new(Handle(transport)))
    }

    fn handle(&self) -> Arc<Handle> {
        // In lunatic a stream which was sent away is no longer a resource of the process, and
        // using it traps.
        unsafe { &*self.handle.get() }
            .clone()
            .expect("a stream was used after it had been sent away")
    }

    /// Any time limit is one which the other side may exceed, so it does.
    pub fn set_read_timeout(&mut self, duration: Option<Duration>) {
        self.limited = duration.is_some();
    }

    pub fn set_write_timeout(&mut self, _duration: Option<Duration>) {}

    pub fn connect<A: ToSocketAddrs>(addr: A) -> Result<Self> {
        testkit::connect_stream(addr.first_addr()?)
    }

    pub fn connect_timeout<A: ToSocketAddrs>(addr: A, _timeout: Duration) -> Result<Self> {
        Self::connect(addr)
    }
}

impl Clone for TcpStream {
    fn clone(&self) -> Self {
        Self { limited: self.limited, ..Self::from_handle(self.handle()) }
    }
}

impl serde::Serialize for TcpStream {
    fn serialize<A: serde::Serializer>(
        &self,
        serializer: A,
    ) -> std::result::Result<A::Ok, A::Error> {
        let handle = self.handle();
        unsafe { *self.handle.get() = None };
        serializer.serialize_u64(message::push(Resource::Stream(handle)))
    }
}

impl<'de> serde::Deserialize<'de> for TcpStream {
    fn deserialize<D: serde::Deserializer<'de>>(
        deserializer: D,
    ) -> std::result::Result<Self, D::Error> {
        let index = u64::deserialize(deserializer)?;
        match message::take(index) {
            Some(Resource::Stream(handle)) => Ok(TcpStream::from_handle(handle)),
            _ => Err(serde::de::Error::custom("no such stream resource")),
        }
    }
}

impl Read for TcpStream {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let handle = self.handle();
        rt::check_killed();
        MAY_WAIT.with(|w| w.set(!self.limited));
        let result = handle.0.read(buf);
        MAY_WAIT.with(|w| w.set(true));
        rt::check_killed();
        result
    }
}

impl Write for TcpStream {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let handle = self.handle();
        rt::check_killed();
        handle.0.write(buf)
    }

    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> Result<usize> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        let handle = self.handle();
        rt::check_killed();
        handle.0.write(&all)
    }

    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

/// What can be resolved to an address.
pub trait ToSocketAddrs {
    fn first_addr(&self) -> Result<SocketAddr>;
}

impl<T: std::net::ToSocketAddrs> ToSocketAddrs for T {
    fn first_addr(&self) -> Result<SocketAddr> {
        self.to_socket_addrs()?
            .next()
            .ok_or_else(|| Error::new(ErrorKind::Other, "no address"))
    }
}

/// A TCP server.
#[derive(Debug)]
pub struct TcpListener {
    port: u16,
}

impl Drop for TcpListener {
    fn drop(&mut self) {
        testkit::unbind(self.port);
    }
}

impl TcpListener {
    pub fn bind<A: ToSocketAddrs>(addr: A) -> Result<Self> {
        Ok(Self {
            port: testkit::bind(addr.first_addr()?.port())?,
        })
    }

    pub fn accept(&self) -> Result<(TcpStream, SocketAddr)> {
        testkit::accept(self.port).map(|s| (s, SocketAddr::from(([127, 0, 0, 1], 1))))
    }

    pub fn local_addr(&self) -> Result<SocketAddr> {
        Ok(SocketAddr::from(([127, 0, 0, 1], self.port)))
    }
}
