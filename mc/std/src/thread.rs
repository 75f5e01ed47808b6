//! Threads of the code under test are tasks of the runtime.

use real::any::Any;
use real::cell::{Cell, RefCell};
use real::collections::HashMap;
use real::io;
use real::marker::PhantomData;
use real::num::NonZeroUsize;
use real::rc::Rc;
use real::sync::Arc;
pub use real::thread::{panicking, AccessError, Result};
use real::time::Duration;

real::thread_local! {
    static HARNESS: Cell<bool> = const { Cell::new(false) };
    static CURRENT: RefCell<HashMap<(u64, u64), Thread>> = RefCell::new(HashMap::new());
    static LOCALS: RefCell<HashMap<(u64, u64, usize), Rc<dyn Any>>> = RefCell::new(HashMap::new());
    static FAIL_SPAWN: Cell<i64> = const { Cell::new(-1) };
    static SPAWNED: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

/// Threads the code under test has started in this execution.
pub fn __spawned() -> u64 {
    let (e, n) = SPAWNED.with(|s| s.get());
    if e == mcrt::epoch() { n } else { 0 }
}

/// Nothing may survive from one execution to the next.
pub fn __reset() {
    CURRENT.with(|c| c.borrow_mut().clear());
    let old = LOCALS.with(|c| real::mem::take(&mut *c.borrow_mut()));
    drop(old);
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(u64);

#[derive(Clone)]
pub struct Thread {
    id: u64,
    name: Option<Arc<str>>,
    token: Arc<Token>,
}
struct Token {
    obj: u64,
    set: Cell<bool>,
}
unsafe impl Send for Token {}
unsafe impl Sync for Token {}

impl real::fmt::Debug for Thread {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.debug_struct("Thread").field("name", &self.name).finish_non_exhaustive()
    }
}

impl Thread {
    fn make(id: u64, name: Option<&str>) -> Thread {
        Thread { id, name: name.map(Arc::from), token: Arc::new(Token { obj: mcrt::mix(id, 0x9A9A), set: Cell::new(false) }) }
    }
    pub fn id(&self) -> ThreadId {
        ThreadId(self.id)
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn unpark(&self) {
        mcrt::point(self.token.obj, "unpark");
        self.token.set.set(true);
    }
}

pub fn current() -> Thread {
    let key = (mcrt::epoch(), mcrt::current_task());
    CURRENT.with(|c| c.borrow_mut().entry(key).or_insert_with(|| Thread::make(key.1, None)).clone())
}

pub fn park() {
    let t = current().token;
    mcrt::op(t.obj, "park", &|| t.set.get(), None);
    t.set.set(false);
}
pub fn park_timeout(d: Duration) {
    let t = current().token;
    let until = mcrt::now().saturating_add(mcrt::time::nanos(d));
    mcrt::op(t.obj, "park", &|| t.set.get(), Some(until));
    t.set.set(false);
}

pub struct JoinHandle<T> {
    inner: mcrt::JoinHandle<T>,
    thread: Thread,
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        self.inner.join()
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn is_finished(&self) -> bool {
        self.inner.is_finished()
    }
}
impl<T> real::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.debug_struct("JoinHandle").finish_non_exhaustive()
    }
}

/// The next `n` threads start, the one after fails. Negative: all start.
pub fn __fail_spawn_after(n: i64) {
    FAIL_SPAWN.with(|f| f.set(n));
}

fn start<T: 'static>(name: Option<String>, f: impl FnOnce() -> T + 'static) -> io::Result<JoinHandle<T>> {
    let left = FAIL_SPAWN.with(|f| f.get());
    if left == 0 {
        return Err(io::ErrorKind::WouldBlock.into());
    }
    if left > 0 {
        FAIL_SPAWN.with(|f| f.set(left - 1));
    }
    SPAWNED.with(|s| {
        let e = mcrt::epoch();
        let n = if s.get().0 == e { s.get().1 } else { 0 };
        s.set((e, n + 1));
    });
    let slot: Rc<RefCell<Option<Thread>>> = Rc::default();
    let s2 = slot.clone();
    let inner = mcrt::spawn(name.clone(), true, move || {
        if let Some(t) = s2.borrow().clone() {
            let key = (mcrt::epoch(), mcrt::current_task());
            CURRENT.with(|c| c.borrow_mut().insert(key, t));
        }
        struct Locals((u64, u64));
        impl Drop for Locals {
            fn drop(&mut self) {
                // What the thread kept to itself goes with it.
                let mut mine: Vec<Rc<dyn Any>> = Vec::new();
                let _ = LOCALS.try_with(|l| {
                    l.borrow_mut().retain(|k, v| {
                        let keep = (k.0, k.1) != self.0;
                        if !keep {
                            mine.push(v.clone());
                        }
                        keep
                    })
                });
                drop(mine);
            }
        }
        let _locals = Locals((mcrt::epoch(), mcrt::current_task()));
        f()
    });
    let thread = Thread::make(inner.task_id(), name.as_deref());
    *slot.borrow_mut() = Some(thread.clone());
    Ok(JoinHandle { inner, thread })
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    start(None, f).expect("failed to spawn thread")
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder { name: None }
    }
    pub fn name(mut self, name: String) -> Builder {
        self.name = Some(name);
        self
    }
    pub fn stack_size(self, _: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        start(self.name, f)
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        s.begin(self.name, f)
    }
}
impl<T> real::panic::UnwindSafe for JoinHandle<T> {}
impl<T> real::panic::RefUnwindSafe for JoinHandle<T> {}
impl real::panic::UnwindSafe for Thread {}
impl real::panic::RefUnwindSafe for Thread {}

pub fn sleep(d: Duration) {
    mcrt::sleep(mcrt::time::nanos(d));
}
#[allow(deprecated)]
pub fn park_timeout_ms(ms: u32) {
    park_timeout(Duration::from_millis(ms as u64));
}
#[allow(deprecated)]
pub fn sleep_ms(ms: u32) {
    sleep(Duration::from_millis(ms as u64));
}
pub fn yield_now() {
    mcrt::yield_now();
}
pub fn available_parallelism() -> io::Result<NonZeroUsize> {
    Ok(NonZeroUsize::new(4).unwrap())
}

pub struct Scope<'scope, 'env: 'scope> {
    running: RefCell<Vec<Rc<dyn Fn()>>>,
    scope: PhantomData<&'scope mut &'scope ()>,
    env: PhantomData<&'env mut &'env ()>,
}
unsafe impl Sync for Scope<'_, '_> {}
pub struct ScopedJoinHandle<'scope, T> {
    finish: Rc<dyn Fn()>,
    result: Rc<RefCell<Option<Result<T>>>>,
    thread: Thread,
    unit: Rc<RefCell<Option<JoinHandle<()>>>>,
    scope: PhantomData<&'scope ()>,
}
unsafe impl<T> Send for ScopedJoinHandle<'_, T> {}
unsafe impl<T> Sync for ScopedJoinHandle<'_, T> {}
impl<T> ScopedJoinHandle<'_, T> {
    pub fn is_finished(&self) -> bool {
        self.unit.borrow().as_ref().is_none_or(|h| h.is_finished())
    }
    pub fn join(self) -> Result<T> {
        (self.finish)();
        self.result.borrow_mut().take().expect("joined twice")
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope { running: RefCell::default(), scope: PhantomData, env: PhantomData };
    let r = f(unsafe { real::mem::transmute::<&Scope<'_, 'env>, &Scope<'_, 'env>>(&s) });
    loop {
        let next = s.running.borrow_mut().pop();
        match next {
            Some(j) => j(),
            None => return r,
        }
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        self.begin(None, f).expect("failed to spawn thread")
    }
    fn begin<F, T>(&'scope self, name: Option<String>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let packet: Rc<RefCell<Option<T>>> = Rc::default();
        let p2 = packet.clone();
        let body: Box<dyn FnOnce() + 'scope> = Box::new(move || {
            let v = f();
            *p2.borrow_mut() = Some(v);
        });
        let body: Box<dyn FnOnce() + 'static> = unsafe { real::mem::transmute(body) };
        let h = start(name, body)?;
        let thread = h.thread.clone();
        // The unit handle is joined by whoever comes first: the caller or the end of the scope.
        let unit: Rc<RefCell<Option<JoinHandle<()>>>> = Rc::new(RefCell::new(Some(h)));
        let result: Rc<RefCell<Option<Result<T>>>> = Rc::default();
        let (u2, r2, p3) = (unit.clone(), result.clone(), packet.clone());
        let finish: Rc<dyn Fn() + 'scope> = Rc::new(move || {
            let h = u2.borrow_mut().take();
            if let Some(h) = h {
                let r = h.join().map(|()| p3.borrow_mut().take().expect("result"));
                *r2.borrow_mut() = Some(r);
            }
        });
        let finish: Rc<dyn Fn() + 'static> = unsafe { real::mem::transmute(finish) };
        self.running.borrow_mut().push(finish.clone());
        Ok(ScopedJoinHandle { finish, result, thread, unit, scope: PhantomData })
    }
}

/// Storage of one value per task and execution.
pub struct LocalKey<T: 'static> {
    init: fn() -> T,
}
impl<T: 'static> LocalKey<T> {
    #[doc(hidden)]
    pub const fn __new(init: fn() -> T) -> Self {
        LocalKey { init }
    }
    fn get_rc(&'static self) -> Rc<dyn Any> {
        let key = (mcrt::epoch(), mcrt::current_task(), self as *const _ as usize);
        if let Some(v) = LOCALS.with(|l| l.borrow().get(&key).cloned()) {
            return v;
        }
        let v: Rc<dyn Any> = Rc::new((self.init)());
        LOCALS.with(|l| l.borrow_mut().insert(key, v.clone()));
        v
    }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        let v = self.get_rc();
        f(v.downcast_ref::<T>().unwrap())
    }
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> real::result::Result<R, AccessError> {
        Ok(self.with(f))
    }
}
impl<T: 'static> LocalKey<Cell<T>> {
    pub fn set(&'static self, v: T) {
        self.with(|c| c.set(v))
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(|c| c.get())
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        self.with(|c| f(&c.borrow()))
    }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    pub fn set(&'static self, v: T) {
        self.with(|c| *c.borrow_mut() = v)
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
