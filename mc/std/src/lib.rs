//! Stands in for `std` when the library is built for exploration. Everything is the real thing except
//! what makes threads meet or reaches the operating system: that goes through the controlled runtime.

extern crate std as real;
pub use real::*;

pub mod io;
pub mod net;
pub mod panic;
pub mod prelude;
pub mod process;
pub mod sync;
pub mod thread;
pub mod time;

#[doc(hidden)]
pub use mcrt as __mcrt;

/// Output of `print!` and friends goes to the modelled standard output.
#[doc(hidden)]
pub fn __print(args: real::fmt::Arguments<'_>) {
    use real::io::Write;
    let _ = io::stdout().write_fmt(args).map_err(|e| panic!("failed printing to stdout: {e}"));
}
#[doc(hidden)]
pub fn __eprint(_: real::fmt::Arguments<'_>) {
    mcrt::note_stderr();
}

#[macro_export]
macro_rules! print {
    ($($arg:tt)*) => { $crate::__print($crate::format_args!($($arg)*)) };
}
#[macro_export]
macro_rules! println {
    () => { $crate::__print($crate::format_args!("\n")) };
    ($($arg:tt)*) => { $crate::__print($crate::format_args!("{}\n", $crate::format_args!($($arg)*))) };
}
#[macro_export]
macro_rules! eprint {
    ($($arg:tt)*) => { $crate::__eprint($crate::format_args!($($arg)*)) };
}
#[macro_export]
macro_rules! eprintln {
    () => { $crate::__eprint($crate::format_args!("\n")) };
    ($($arg:tt)*) => { $crate::__eprint($crate::format_args!($($arg)*)) };
}
#[macro_export]
macro_rules! dbg {
    () => { $crate::eprintln!() };
    ($val:expr $(,)?) => { match $val { tmp => { $crate::eprintln!("{:?}", &tmp); tmp } } };
    ($($val:expr),+ $(,)?) => { ($($crate::dbg!($val)),+,) };
}
#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $init:block; $($rest:tt)*) => {
        $crate::thread_local!($(#[$a])* $v static $n: $t = const $init);
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $init:block) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::__new({ fn init() -> $t { $init } init });
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $init:expr; $($rest:tt)*) => {
        $crate::thread_local!($(#[$a])* $v static $n: $t = $init);
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $init:expr) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::__new({ fn init() -> $t { $init } init });
    };
}
