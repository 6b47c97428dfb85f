//! Model of `async-std` for symbolic execution: the pure parts (io, stream, sync,
//! channel, prelude) are the sources of async-std 1.13.2; `net`, `task` spawning,
//! timers and unix sockets are replaced by an in-memory, single-threaded
//! simulation that the harness drives (module `sim`).
#![allow(warnings)]

#[macro_use]
mod utils;

mod macros;

pub mod channel;
pub mod future;
pub mod io;
pub mod net;
pub mod os;
pub mod path;
pub mod prelude;
pub mod sim;
pub mod stream;
pub mod sync;
pub mod task;
