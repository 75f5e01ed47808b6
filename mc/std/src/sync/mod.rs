//! Locks, atomics and channels whose every operation is a step of the explored execution. Statics made
//! of them start over with every execution.

pub use real::sync::*;

pub mod atomic;
pub mod mpsc;
pub mod raw;

mod lock;
mod once;
pub use lock::{Barrier, BarrierWaitResult, Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult};
pub use once::{LazyLock, Once, OnceLock, OnceState};
