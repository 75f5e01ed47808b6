pub use real::process::*;
pub fn exit(code: i32) -> ! {
    mcrt::process_exit(code)
}
pub fn abort() -> ! {
    mcrt::process_exit(134)
}
