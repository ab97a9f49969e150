//! A native stand-in for the `lunatic` 0.9 guest library.
//!
//! It has the parts of the API that puck, puck_liveview and the examples use. A process is a
//! thread with a mailbox, whatever crosses between processes is really serialised with bincode
//! (resources travel beside the bytes, as in the real runtime), a panic ends only the process
//! that panicked, and a socket is an object of `testkit`, so that a monitor sees every byte and
//! decides how reads and writes are cut.

mod message;
pub mod net;
pub mod process;
mod rt;
pub mod serializer;
pub mod testkit;

pub use message::{Mailbox, ReceiveError, Tag};
pub use rt::Process;

/// Suspends the current process.
pub fn sleep(duration: std::time::Duration) {
    std::thread::sleep(duration)
}

/// A process configuration. Nothing can be limited here.
#[derive(Debug, Default, Clone)]
pub struct ProcessConfig;

impl ProcessConfig {
    pub fn new() -> Self {
        ProcessConfig
    }
}
