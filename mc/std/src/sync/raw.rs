//! What every synchronisation object is made of.

use real::cell::{Cell, RefCell};

/// An object of the runtime that comes into being when it is first touched in an execution.
pub struct Obj {
    epoch: Cell<u64>,
    id: Cell<u64>,
}
unsafe impl Send for Obj {}
unsafe impl Sync for Obj {}
impl Obj {
    pub const fn new() -> Obj {
        Obj { epoch: Cell::new(0), id: Cell::new(0) }
    }
    pub fn id(&self) -> u64 {
        if self.epoch.get() != mcrt::epoch() {
            self.epoch.set(mcrt::epoch());
            self.id.set(mcrt::new_obj("sync"));
        }
        self.id.get()
    }
}

/// Restores a value that lives in a static to what it was before the first execution. Only such
/// values outlive an execution, and they own no heap memory at first.
pub struct Fresh {
    epoch: Cell<u64>,
    bytes: RefCell<Vec<u8>>,
}
unsafe impl Send for Fresh {}
unsafe impl Sync for Fresh {}
impl Fresh {
    pub const fn new() -> Fresh {
        Fresh { epoch: Cell::new(0), bytes: RefCell::new(Vec::new()) }
    }
    /// Returns whether the value was put back, that is, whether a new execution began.
    pub fn renew<T: ?Sized>(&self, value: *mut T) -> bool {
        let now = mcrt::epoch();
        let was = self.epoch.replace(now);
        if was == now {
            return false;
        }
        unsafe {
            let size = real::mem::size_of_val(&*value);
            let p = value as *mut u8;
            if was == 0 {
                *self.bytes.borrow_mut() = real::slice::from_raw_parts(p, size).to_vec();
                false
            } else {
                real::ptr::copy_nonoverlapping(self.bytes.borrow().as_ptr(), p, size);
                true
            }
        }
    }
}

/// A lock without contents.
pub struct RawLock {
    obj: Obj,
    epoch: Cell<u64>,
    held: Cell<bool>,
}
unsafe impl Send for RawLock {}
unsafe impl Sync for RawLock {}
impl RawLock {
    pub const fn new(_: &'static str) -> RawLock {
        RawLock { obj: Obj::new(), epoch: Cell::new(0), held: Cell::new(false) }
    }
    fn renew(&self) {
        if self.epoch.get() != mcrt::epoch() {
            self.epoch.set(mcrt::epoch());
            self.held.set(false);
        }
    }
    pub fn obj(&self) -> u64 {
        self.obj.id()
    }
    pub fn lock(&self, tag: &'static str) {
        self.renew();
        mcrt::op(self.obj.id(), tag, &|| !self.held.get(), None);
        self.held.set(true);
    }
    pub fn try_lock(&self) -> bool {
        self.renew();
        mcrt::point(self.obj.id(), "try_lock");
        !self.held.replace(true)
    }
    pub fn unlock(&self, tag: &'static str) {
        struct Free<'a>(&'a Cell<bool>);
        impl Drop for Free<'_> {
            fn drop(&mut self) {
                self.0.set(false);
            }
        }
        let _free = Free(&self.held);
        mcrt::point(self.obj.id(), tag);
    }
    /// Gives the lock up as part of another operation.
    pub fn release(&self) {
        mcrt::note(self.obj.id(), "release");
        self.held.set(false);
    }
}
