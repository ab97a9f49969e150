//! The real server, on the in-memory runtime.

use std::{
    sync::{
        atomic::{AtomicU16, Ordering},
        Arc,
    },
    time::{Duration, Instant},
};

use lunatic::testkit;
use puck::{
    core::{Core, Stream, UsedStream},
    Request,
};
use serde::{de::DeserializeOwned, Serialize};

use crate::script::Script;

static NEXT_PORT: AtomicU16 = AtomicU16::new(3000);

pub fn fresh_port() -> u16 {
    NEXT_PORT.fetch_add(1, Ordering::Relaxed)
}

pub fn bound(port: u16) -> u16 {
    let start = Instant::now();
    while !testkit::is_bound(port) {
        assert!(start.elapsed() < crate::ctx::patience(), "the server did not bind its port");
        std::thread::sleep(Duration::from_micros(100));
    }
    port
}

/// Starts a server which gives every request to `f`.
pub fn for_each<S>(state: S, f: fn(Request, Stream, S) -> UsedStream) -> u16
where
    S: Clone + Serialize + DeserializeOwned + Send + 'static,
{
    let port = fresh_port();
    testkit::spawn_process(move || {
        Core::bind(("127.0.0.1", port), state).expect("bind").for_each(f);
    });
    bound(port)
}

/// Connects a transport, and waits until the server has released it.
pub fn serve(port: u16, script: &Script) -> Result<(), String> {
    testkit::connect_transport(port, Arc::new(script.clone())).map_err(|e| format!("the server is gone: {e}"))?;
    wait_closed(script)
}

pub fn wait_closed(script: &Script) -> Result<(), String> {
    let start = Instant::now();
    let mut spins = 0;
    while !script.state().closed {
        spins += 1;
        if spins < 200 {
            std::thread::yield_now();
        } else {
            std::thread::sleep(Duration::from_micros(50));
        }
        if start.elapsed() > crate::ctx::patience() {
            return Err("the server did not release the connection in time".into());
        }
    }
    Ok(())
}
