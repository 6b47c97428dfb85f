pub use std::path::{Path, PathBuf};
