pub mod unix {
    pub mod net {
        pub use crate::net::unix::{Incoming, UnixListener, UnixStream};
    }
}
