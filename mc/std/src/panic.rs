//! Code under test may catch its own panics, not the end of the execution.
pub use real::panic::*;
pub fn catch_unwind<F: FnOnce() -> R + UnwindSafe, R>(f: F) -> real::thread::Result<R> {
    match real::panic::catch_unwind(f) {
        Err(e) if mcrt::is_abort(&*e) => resume_unwind(e),
        r => r,
    }
}
