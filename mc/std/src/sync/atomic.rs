//! Sequentially consistent atomics.

pub use real::sync::atomic::{compiler_fence, AtomicPtr, Ordering};
use super::raw::Obj;
use real::cell::Cell;

pub fn fence(_: Ordering) {}
pub fn spin_loop_hint() {
    mcrt::yield_now();
}

macro_rules! common {
    ($n:ident, $t:ty) => {
        pub struct $n {
            obj: Obj,
            epoch: Cell<u64>,
            init: $t,
            v: Cell<$t>,
        }
        unsafe impl Send for $n {}
        unsafe impl Sync for $n {}
        impl $n {
            pub const fn new(v: $t) -> $n {
                $n { obj: Obj::new(), epoch: Cell::new(0), init: v, v: Cell::new(v) }
            }
            fn at(&self, tag: &'static str) {
                if self.epoch.get() != mcrt::epoch() {
                    if self.epoch.get() != 0 {
                        self.v.set(self.init);
                    }
                    self.epoch.set(mcrt::epoch());
                }
                mcrt::point(self.obj.id(), tag);
            }
            pub fn load(&self, _: Ordering) -> $t {
                self.at("load");
                self.v.get()
            }
            pub fn store(&self, v: $t, _: Ordering) {
                self.at("store");
                self.v.set(v)
            }
            pub fn swap(&self, v: $t, _: Ordering) -> $t {
                self.at("swap");
                self.v.replace(v)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                self.at("compare_exchange");
                let v = self.v.get();
                if v == a {
                    self.v.set(b);
                    Ok(v)
                } else {
                    Err(v)
                }
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                self.at("fetch_update");
                let v = self.v.get();
                match f(v) {
                    Some(n) => {
                        self.v.set(n);
                        Ok(v)
                    }
                    None => Err(v),
                }
            }
            #[allow(deprecated)]
            pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                match self.compare_exchange(a, b, o, o) {
                    Ok(v) | Err(v) => v,
                }
            }
            pub fn try_update(&self, s: Ordering, l: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                self.fetch_update(s, l, f)
            }
            pub fn update(&self, s: Ordering, l: Ordering, mut f: impl FnMut($t) -> $t) -> $t {
                self.fetch_update(s, l, |v| Some(f(v))).unwrap_or_default()
            }
            pub fn as_ptr(&self) -> *mut $t {
                self.v.as_ptr()
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.v.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.v.get()
            }
        }
        impl real::panic::UnwindSafe for $n {}
        impl real::panic::RefUnwindSafe for $n {}
        impl real::fmt::Debug for $n {
            fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
                self.v.get().fmt(f)
            }
        }
        impl Default for $n {
            fn default() -> Self {
                $n::new(Default::default())
            }
        }
        impl From<$t> for $n {
            fn from(v: $t) -> Self {
                $n::new(v)
            }
        }
    };
}
macro_rules! number {
    ($($n:ident $t:ty),*) => {$(
        common!($n, $t);
        impl $n {
            pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
                self.at("fetch_add");
                self.v.replace(self.v.get().wrapping_add(v))
            }
            pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
                self.at("fetch_sub");
                self.v.replace(self.v.get().wrapping_sub(v))
            }
            pub fn fetch_max(&self, v: $t, _: Ordering) -> $t {
                self.at("fetch_max");
                self.v.replace(self.v.get().max(v))
            }
            pub fn fetch_min(&self, v: $t, _: Ordering) -> $t {
                self.at("fetch_min");
                self.v.replace(self.v.get().min(v))
            }
            pub fn fetch_or(&self, v: $t, _: Ordering) -> $t {
                self.at("fetch_or");
                self.v.replace(self.v.get() | v)
            }
            pub fn fetch_and(&self, v: $t, _: Ordering) -> $t {
                self.at("fetch_and");
                self.v.replace(self.v.get() & v)
            }
            pub fn fetch_nand(&self, v: $t, _: Ordering) -> $t {
                self.at("fetch_nand");
                self.v.replace(!(self.v.get() & v))
            }
            pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t {
                self.at("fetch_xor");
                self.v.replace(self.v.get() ^ v)
            }
        }
    )*};
}
number!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
        AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
common!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_nand(&self, v: bool, _: Ordering) -> bool {
        self.at("fetch_nand");
        self.v.replace(!(self.v.get() & v))
    }
    pub fn fetch_or(&self, v: bool, _: Ordering) -> bool {
        self.at("fetch_or");
        self.v.replace(self.v.get() | v)
    }
    pub fn fetch_and(&self, v: bool, _: Ordering) -> bool {
        self.at("fetch_and");
        self.v.replace(self.v.get() & v)
    }
    pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool {
        self.at("fetch_xor");
        self.v.replace(self.v.get() ^ v)
    }
    pub fn fetch_not(&self, _: Ordering) -> bool {
        self.at("fetch_not");
        self.v.replace(!self.v.get())
    }
}
