use super::raw::{Fresh, RawLock};
use real::cell::{Cell, UnsafeCell};

#[derive(Debug)]
pub struct OnceState(bool);
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        self.0
    }
}

pub struct Once {
    raw: RawLock,
    fresh: Fresh,
    done: Cell<bool>,
    poisoned: Cell<bool>,
}
struct Unlock<'a>(&'a RawLock);
impl Drop for Unlock<'_> {
    fn drop(&mut self) {
        self.0.unlock("once done");
    }
}
unsafe impl Send for Once {}
unsafe impl Sync for Once {}
impl Once {
    pub const fn new() -> Once {
        Once { raw: RawLock::new("once"), fresh: Fresh::new(), done: Cell::new(false), poisoned: Cell::new(false) }
    }
    fn renew(&self) {
        if self.fresh.renew(self.done.as_ptr()) {
            self.poisoned.set(false);
        }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.renew();
        self.raw.lock("once");
        let _free = Unlock(&self.raw);
        if !self.done.get() {
            if self.poisoned.get() {
                panic!("Once instance has previously been poisoned");
            }
            self.poisoned.set(true);
            f();
            self.poisoned.set(false);
            self.done.set(true);
        }
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        self.renew();
        self.raw.lock("once");
        let _free = Unlock(&self.raw);
        if !self.done.get() {
            let was = self.poisoned.replace(true);
            f(&OnceState(was));
            self.poisoned.set(false);
            self.done.set(true);
        }
    }
    pub fn wait(&self) {
        self.renew();
        mcrt::op(self.raw.obj(), "wait for once", &|| self.done.get(), None);
    }
    pub fn wait_force(&self) {
        self.wait()
    }
    pub fn is_completed(&self) -> bool {
        self.renew();
        mcrt::point(self.raw.obj(), "once?");
        self.done.get()
    }
}

pub struct OnceLock<T> {
    once: Once,
    fresh: Fresh,
    value: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { once: Once::new(), fresh: Fresh::new(), value: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        self.fresh.renew(self.value.get());
        if self.once.is_completed() { unsafe { (*self.value.get()).as_ref() } } else { None }
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.get_or_init(|| v.take().unwrap());
        match v {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        self.fresh.renew(self.value.get());
        self.once.call_once_force(|_| unsafe { *self.value.get() = Some(f()) });
        unsafe { (*self.value.get()).as_ref().unwrap() }
    }
    pub fn into_inner(self) -> Option<T> {
        self.value.into_inner()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.value.get_mut().as_mut()
    }
    pub fn wait(&self) -> &T {
        self.once.wait();
        unsafe { (*self.value.get()).as_ref().unwrap() }
    }
    pub fn take(&mut self) -> Option<T> {
        let v = self.value.get_mut().take();
        *self = OnceLock::new();
        v
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    fresh: Fresh,
    init: UnsafeCell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), fresh: Fresh::new(), init: UnsafeCell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.fresh.renew(this.init.get());
        this.cell.get_or_init(|| unsafe { (*this.init.get()).take().expect("initialiser")() })
    }
}
impl<T, F: FnOnce() -> T> real::ops::Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}

impl real::fmt::Debug for Once {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.write_str("Once { .. }")
    }
}
impl<T: real::fmt::Debug> real::fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.debug_tuple("OnceLock").field(&self.get()).finish()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        match self.get() {
            Some(v) => Self::from(v.clone()),
            None => Self::new(),
        }
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        let c = Self::new();
        let _ = c.set(v);
        c
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl<T: Eq> Eq for OnceLock<T> {}
impl<T, F> real::fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.write_str("LazyLock(..)")
    }
}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        LazyLock::new(T::default)
    }
}
impl real::panic::UnwindSafe for Once {}
impl real::panic::RefUnwindSafe for Once {}
impl<T: real::panic::UnwindSafe> real::panic::UnwindSafe for OnceLock<T> {}
impl<T: real::panic::RefUnwindSafe + real::panic::UnwindSafe> real::panic::RefUnwindSafe for OnceLock<T> {}
impl<T: real::panic::UnwindSafe, F: real::panic::UnwindSafe> real::panic::UnwindSafe for LazyLock<T, F> {}
impl<T: real::panic::RefUnwindSafe + real::panic::UnwindSafe, F: real::panic::UnwindSafe> real::panic::RefUnwindSafe for LazyLock<T, F> {}
