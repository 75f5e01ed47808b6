use super::raw::{Fresh, Obj, RawLock};
use real::cell::{Cell, RefCell, UnsafeCell};
use real::collections::VecDeque;
use real::ops::{Deref, DerefMut};
use real::rc::Rc;
use real::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use real::time::Duration;

pub struct Mutex<T: ?Sized> {
    raw: RawLock,
    poisoned: Cell<bool>,
    fresh: Fresh,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { raw: RawLock::new("mutex"), poisoned: Cell::new(false), fresh: Fresh::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let v = self.data.into_inner();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn renew(&self) {
        if self.fresh.renew(self.data.get()) {
            self.poisoned.set(false);
        }
    }
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { m: self, panicking: real::thread::panicking() };
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.renew();
        self.raw.lock("lock");
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        self.renew();
        if !self.raw.try_lock() {
            return Err(TryLockError::WouldBlock);
        }
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false);
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.get();
        let v = self.data.get_mut();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> real::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && real::thread::panicking() && !mcrt::aborting() {
            self.m.poisoned.set(true);
        }
        self.m.raw.unlock("unlock");
    }
}
impl<T: ?Sized + real::fmt::Debug> real::fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        (**self).fmt(f)
    }
}

pub struct Condvar {
    obj: Obj,
    waiters: RefCell<VecDeque<Rc<Cell<bool>>>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}
impl real::fmt::Debug for Condvar {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.write_str("Condvar { .. }")
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { obj: Obj::new(), waiters: RefCell::new(VecDeque::new()) }
    }
    fn block<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, until: Option<u64>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let m = g.m;
        let slot = Rc::new(Cell::new(false));
        mcrt::point(self.obj.id(), "wait");
        self.waiters.borrow_mut().push_back(slot.clone());
        real::mem::forget(g);
        m.raw.release();
        let w = mcrt::op(self.obj.id(), "woken", &|| slot.get(), until);
        self.waiters.borrow_mut().retain(|s| !Rc::ptr_eq(s, &slot));
        (m.lock(), w == mcrt::Wake::Timeout)
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.block(g, None).0
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let until = mcrt::now().saturating_add(mcrt::time::nanos(d));
        let (r, t) = self.block(g, Some(until));
        match r {
            Ok(g) => Ok((g, WaitTimeoutResult(t))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
        }
    }
    #[deprecated]
    pub fn wait_timeout_ms<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, ms: u32) -> LockResult<(MutexGuard<'a, T>, bool)> {
        match self.wait_timeout(g, Duration::from_millis(ms as u64)) {
            Ok((g, t)) => Ok((g, !t.timed_out())),
            Err(e) => {
                let (g, t) = e.into_inner();
                Err(PoisonError::new((g, !t.timed_out())))
            }
        }
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut f: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let until = mcrt::now().saturating_add(mcrt::time::nanos(d));
        loop {
            if !f(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            if mcrt::now() >= until {
                return Ok((g, WaitTimeoutResult(true)));
            }
            let (r, _) = self.block(g, Some(until));
            g = match r {
                Ok(g) => g,
                Err(e) => return Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(false)))),
            };
        }
    }
    pub fn notify_one(&self) {
        mcrt::point(self.obj.id(), "notify_one");
        if let Some(s) = self.waiters.borrow_mut().pop_front() {
            s.set(true);
        }
    }
    pub fn notify_all(&self) {
        mcrt::point(self.obj.id(), "notify_all");
        for s in self.waiters.borrow_mut().drain(..) {
            s.set(true);
        }
    }
}

pub struct RwLock<T: ?Sized> {
    obj: Obj,
    epoch: Cell<u64>,
    /// Readers, or -1 for a writer.
    held: Cell<i64>,
    poisoned: Cell<bool>,
    fresh: Fresh,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
impl<T: ?Sized> real::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> real::panic::RefUnwindSafe for Mutex<T> {}
impl<T: ?Sized> real::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> real::panic::RefUnwindSafe for RwLock<T> {}
impl real::panic::UnwindSafe for Condvar {}
impl real::panic::RefUnwindSafe for Condvar {}
impl real::panic::UnwindSafe for Barrier {}
impl real::panic::RefUnwindSafe for Barrier {}
macro_rules! shown {
    ($($g:ident)*) => {$(
        impl<T: ?Sized + real::fmt::Display> real::fmt::Display for $g<'_, T> {
            fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
                (**self).fmt(f)
            }
        }
    )*};
}
shown!(MutexGuard RwLockReadGuard RwLockWriteGuard);
macro_rules! debugged {
    ($($g:ident)*) => {$(
        impl<T: ?Sized + real::fmt::Debug> real::fmt::Debug for $g<'_, T> {
            fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
                (**self).fmt(f)
            }
        }
    )*};
}
debugged!(RwLockReadGuard RwLockWriteGuard);
impl real::fmt::Debug for Barrier {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.write_str("Barrier { .. }")
    }
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock {
            obj: Obj::new(),
            epoch: Cell::new(0),
            held: Cell::new(0),
            poisoned: Cell::new(false),
            fresh: Fresh::new(),
            data: UnsafeCell::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let v = self.data.into_inner();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn read_guard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.held.set(self.held.get() + 1);
        let g = RwLockReadGuard(self);
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    fn write_guard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.held.set(-1);
        let g = RwLockWriteGuard(self, real::thread::panicking());
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        self.renew();
        mcrt::point(self.obj.id(), "try read lock");
        if self.held.get() < 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.read_guard().map_err(TryLockError::Poisoned)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        self.renew();
        mcrt::point(self.obj.id(), "try write lock");
        if self.held.get() != 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.write_guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false);
    }
    fn renew(&self) {
        if self.epoch.get() != mcrt::epoch() {
            self.epoch.set(mcrt::epoch());
            self.held.set(0);
            self.poisoned.set(false);
        }
        self.fresh.renew(self.data.get());
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.renew();
        mcrt::op(self.obj.id(), "read lock", &|| self.held.get() >= 0, None);
        self.read_guard()
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.renew();
        mcrt::op(self.obj.id(), "write lock", &|| self.held.get() == 0, None);
        self.write_guard()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.get();
        let v = self.data.get_mut();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized> real::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        mcrt::point(self.0.obj.id(), "read unlock");
        self.0.held.set(self.0.held.get() - 1);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.1 && real::thread::panicking() && !mcrt::aborting() {
            self.0.poisoned.set(true);
        }
        mcrt::point(self.0.obj.id(), "write unlock");
        self.0.held.set(0);
    }
}

pub struct Barrier {
    n: usize,
    m: Mutex<(usize, usize)>,
    cv: Condvar,
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier { n, m: Mutex::new((0, 0)), cv: Condvar::new() }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.cv.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            *g = (0, gen + 1);
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}
