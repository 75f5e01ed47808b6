//! The prelude with the macros that reach the outside world replaced.
pub mod v1 {
    pub use crate::{dbg, eprint, eprintln, print, println, thread_local};
    pub use real::prelude::v1::*;
}
pub mod rust_2015 {
    pub use super::v1::{dbg, eprint, eprintln, print, println, thread_local};
    pub use real::prelude::rust_2015::*;
}
pub mod rust_2018 {
    pub use super::v1::{dbg, eprint, eprintln, print, println, thread_local};
    pub use real::prelude::rust_2018::*;
}
pub mod rust_2021 {
    pub use super::v1::{dbg, eprint, eprintln, print, println, thread_local};
    pub use real::prelude::rust_2021::*;
}
