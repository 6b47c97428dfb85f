pub use core::task::{Context, Poll, Waker};
pub use ready::ready;
mod ready;
pub use yield_now::yield_now;
mod yield_now;
pub use crate::sim::{block_on, sleep, spawn, spawn_blocking, Builder, JoinHandle};
