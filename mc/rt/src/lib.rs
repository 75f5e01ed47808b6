//! A controlled runtime: every thread of an execution is a coroutine on one OS thread, every visible
//! operation (channel, lock, atomic, stream, join, sleep) is a scheduling point, and the explorer in
//! `explore` enumerates every order in which they can happen.
//!
//! An operation names the object it touches. The history hash of a task or object mixes in every
//! operation so far in causal order, so the multiset of task histories identifies the Mazurkiewicz
//! trace executed so far; since tasks are deterministic given what they observed, two executions
//! with equal keys are in the same state, and the explorer visits each state once.

#![allow(dangerous_implicit_autorefs)]

pub mod chan;
pub mod explore;
pub mod pipe;
pub mod time;

use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

pub type ObjId = u64;

/// How a suspended operation was resumed.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wake {
    Ready,
    Timeout,
    /// The execution is being torn down.
    Abort,
}

struct Abort;

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a
        .rotate_left(23)
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        ^ b.wrapping_add(0x632B_E59B_D9B4_E019);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 32)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0x1234_5678, |h, b| mix(h, b as u64))
}

struct Pending {
    obj: ObjId,
    tag: &'static str,
    ready: *const dyn Fn() -> bool,
    deadline: Option<u64>,
    /// Once ready it stays ready and commutes with every step of every other task.
    local: bool,
}

impl Pending {
    fn is_ready(&self) -> bool {
        unsafe { (*self.ready)() }
    }
}

type Co = Coroutine<Wake, (), (), DefaultStack>;

struct Task {
    name: String,
    library: bool,
    id: u64,
    co: Option<Co>,
    yielder: *const Yielder<Wake, ()>,
    pending: Option<Pending>,
    hist: u64,
    counter: u64,
    finished: bool,
}

pub struct Rt {
    tasks: Vec<Task>,
    objs: HashMap<ObjId, u64>,
    names: HashMap<ObjId, String>,
    cur: usize,
    clock: u64,
    aborting: bool,
    abort_ops: u64,
    setup_counter: u64,
    exit: Option<i32>,
    panics: Vec<Panic>,
    trace: Option<Vec<String>>,
    chooser: *mut explore::Chooser,
    diverged: Option<String>,
    stderr_writes: u64,
}

/// A panic that reached the top of a task.
#[derive(Clone, Debug)]
pub struct Panic {
    pub task: String,
    pub library: bool,
    pub message: String,
}

/// What an execution ended with.
#[derive(Debug, Default, Clone)]
pub struct End {
    /// Tasks that can never proceed: (name, is a library thread, operation).
    pub blocked: Vec<(String, bool, String)>,
    pub panics: Vec<Panic>,
    pub exit: Option<i32>,
    pub clock: u64,
    pub steps: u64,
    pub livelock: bool,
}

impl End {
    pub fn library_panics(&self) -> Vec<&Panic> {
        self.panics.iter().filter(|p| p.library).collect()
    }
    pub fn library_blocked(&self) -> Vec<&(String, bool, String)> {
        self.blocked.iter().filter(|b| b.1).collect()
    }
}

const NONE: usize = usize::MAX;

thread_local! {
    static RT: Cell<*mut Rt> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

thread_local! {
    static EPOCH: Cell<u64> = const { Cell::new(1) };
}

const STACK_SIZE: usize = 1 << 20;

/// Call once per process: panics of tasks are observations, not output.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string payload>".into());
        let at = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if RT.with(|r| r.get().is_null()) {
            eprintln!("panic outside an execution: {msg}{at}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{at}"));
    }));
}

fn rt<'a>() -> Option<&'a mut Rt> {
    RT.with(|r| unsafe { r.get().as_mut() })
}

pub fn active() -> bool {
    rt().is_some()
}

/// The execution is over and what is left of it is being taken down.
pub fn aborting() -> bool {
    rt().is_some_and(|r| r.aborting)
}

/// Changes with every execution; statics of the code under test start over with each.
pub fn epoch() -> u64 {
    EPOCH.with(|e| e.get())
}

impl Rt {
    fn new(chooser: *mut explore::Chooser, trace: bool) -> Box<Rt> {
        Box::new(Rt {
            tasks: Vec::new(),
            objs: HashMap::new(),
            names: HashMap::new(),
            cur: NONE,
            clock: 0,
            aborting: false,
            abort_ops: 0,
            setup_counter: 0,
            exit: None,
            panics: Vec::new(),
            trace: trace.then(Vec::new),
            chooser,
            diverged: None,
            stderr_writes: 0,
        })
    }

    fn record(&mut self, t: usize, obj: ObjId, tag: &'static str, wake: Wake, local: bool) {
        let oh = self.objs.get(&obj).copied().unwrap_or(obj);
        let h = mix(mix(self.tasks[t].hist, oh), hash_str(tag) ^ wake as u64);
        self.tasks[t].hist = h;
        if !local {
            self.objs.insert(obj, h);
        }
        if let Some(tr) = &mut self.trace {
            let name = self.names.get(&obj).map(|s| s.as_str()).unwrap_or("-");
            let w = if wake == Wake::Timeout { " (timeout)" } else { "" };
            tr.push(format!("{}: {tag} {name}{w}", self.tasks[t].name));
        }
    }

    fn state_key(&self) -> u64 {
        let mut sum = mix(self.clock, 77);
        for t in &self.tasks {
            sum = sum.wrapping_add(mix(mix(t.id, t.hist), t.finished as u64));
        }
        sum
    }
}

/// A new object, identified by the history of its creator.
pub fn new_obj(name: &str) -> ObjId {
    let Some(rt) = rt() else { return 0 };
    let id = if rt.cur == NONE {
        rt.setup_counter += 1;
        mix(0xABCD, rt.setup_counter)
    } else {
        let t = &mut rt.tasks[rt.cur];
        t.counter += 1;
        mix(mix(t.hist, t.id), t.counter)
    };
    if rt.trace.is_some() {
        rt.names.insert(id, name.to_string());
    }
    id
}

/// One visible operation on `obj`: suspends until the explorer lets this task continue, which it may
/// do once `ready` holds or, if there is a deadline, once that has passed. The caller performs the
/// effect right after, atomically.
pub fn op(obj: ObjId, tag: &'static str, ready: &dyn Fn() -> bool, deadline: Option<u64>) -> Wake {
    op_(obj, tag, ready, deadline, false)
}

/// An operation that, once ready, stays ready and commutes with everything others can do: it only
/// learns what `obj` has already settled. It is taken at once, without exploring alternatives.
pub fn op_local(obj: ObjId, tag: &'static str, ready: &dyn Fn() -> bool, deadline: Option<u64>) -> Wake {
    op_(obj, tag, ready, deadline, true)
}

/// What the running task has seen is what others learn from `obj`.
pub fn publish(obj: ObjId) {
    if let Some(rt) = rt() {
        if rt.cur != NONE {
            let h = rt.tasks[rt.cur].hist;
            rt.objs.insert(obj, h);
        }
    }
}

fn op_(obj: ObjId, tag: &'static str, ready: &dyn Fn() -> bool, deadline: Option<u64>, local: bool) -> Wake {
    let Some(rt) = rt() else {
        // Outside any execution (oracles, cleanup): nothing runs concurrently.
        return if ready() { Wake::Ready } else { Wake::Abort };
    };
    if rt.aborting {
        rt.abort_ops += 1;
        if rt.abort_ops > 100_000 {
            eprintln!("a task does not end on teardown");
            std::process::exit(3);
        }
        if ready() {
            return Wake::Ready;
        }
        if std::thread::panicking() {
            return Wake::Abort;
        }
        resume_unwind(Box::new(Abort));
    }
    let t = rt.cur;
    if t == NONE {
        return if ready() { Wake::Ready } else { Wake::Abort };
    }
    if std::thread::panicking() {
        // No switching while unwinding: the panic count belongs to the OS thread.
        let w = if ready() { Wake::Ready } else { Wake::Abort };
        rt.record(t, obj, tag, w, false);
        return w;
    }
    rt.tasks[t].pending = Some(Pending {
        obj,
        tag,
        ready: unsafe {
            std::mem::transmute::<*const (dyn Fn() -> bool + '_), *const (dyn Fn() -> bool + 'static)>(
                ready as *const _,
            )
        },
        deadline,
        local,
    });
    let y = rt.tasks[t].yielder;
    let w = unsafe { (*y).suspend(()) };
    if w == Wake::Abort {
        resume_unwind(Box::new(Abort));
    }
    w
}

/// An operation that can always proceed.
pub fn point(obj: ObjId, tag: &'static str) {
    op(obj, tag, &|| true, None);
}

/// A choice of the environment among `n` answers; every one is explored.
pub fn choose(n: usize) -> usize {
    let Some(rt) = rt() else { return 0 };
    if n <= 1 || rt.aborting || rt.cur == NONE {
        return 0;
    }
    let c = unsafe { (*rt.chooser).data(n, &mut rt.diverged) };
    let t = rt.cur;
    rt.tasks[t].hist = mix(rt.tasks[t].hist, c as u64 + 1000);
    if let Some(tr) = &mut rt.trace {
        tr.push(format!("{}: choice {c} of {n}", rt.tasks[t].name));
    }
    c
}

pub fn now() -> u64 {
    let Some(rt) = rt() else { return 0 };
    if rt.cur != NONE {
        let t = rt.cur;
        rt.tasks[t].hist = mix(rt.tasks[t].hist, rt.clock ^ 0x7171);
    }
    rt.clock
}

/// The clock, without the running task having observed it.
pub fn clock() -> u64 {
    rt().map_or(0, |r| r.clock)
}

/// Something was written to standard error.
/// Whether a panic's payload is the end of the execution rather than a panic.
pub fn is_abort(e: &(dyn Any + Send)) -> bool {
    e.is::<Abort>()
}
pub fn note_stderr() {
    if let Some(rt) = rt() {
        rt.stderr_writes += 1;
    }
}

/// `std::process::exit` of the code under test.
pub fn process_exit(code: i32) -> ! {
    match rt() {
        Some(rt) if rt.cur != NONE => {
            if rt.exit.is_none() && !rt.aborting {
                rt.exit = Some(code);
            }
            resume_unwind(Box::new(Abort))
        }
        _ => std::process::exit(code),
    }
}

pub fn current_task() -> u64 {
    rt().filter(|r| r.cur != NONE).map_or(0, |r| r.tasks[r.cur].id)
}

/// The rank of the running task, for tables that need a small key.
pub fn sleep(nanos: u64) {
    let d = now().saturating_add(nanos);
    let own = match rt() {
        Some(r) if r.cur != NONE => r.tasks[r.cur].id ^ 0x5151,
        _ => return,
    };
    op(own, "sleep", &|| false, Some(d));
}

pub fn yield_now() {
    let own = match rt() {
        Some(r) if r.cur != NONE => r.tasks[r.cur].id ^ 0x5151,
        _ => return,
    };
    op(own, "yield", &|| true, None);
}

pub struct Packet<T>(RefCell<Option<Result<T, Box<dyn Any + Send>>>>);
unsafe impl<T> Send for Packet<T> {}
unsafe impl<T> Sync for Packet<T> {}

pub struct JoinHandle<T> {
    packet: Arc<Packet<T>>,
    done: Rc<Cell<bool>>,
    exit_obj: ObjId,
    task: u64,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn task_id(&self) -> u64 {
        self.task
    }
    pub fn join(self) -> Result<T, Box<dyn Any + Send>> {
        let done = self.done.clone();
        op_local(self.exit_obj, "join", &move || done.get(), None);
        self.packet.0.borrow_mut().take().expect("joined twice")
    }
    pub fn is_finished(&self) -> bool {
        point(self.exit_obj, "is_finished");
        self.done.get()
    }
}

/// Starts a task. `library` tells threads of the code under test from those of the harness.
pub fn spawn<T: 'static>(name: Option<String>, library: bool, f: impl FnOnce() -> T + 'static) -> JoinHandle<T> {
    let rt = rt().expect("spawn outside an execution");
    let (id, hist) = if rt.cur == NONE {
        rt.setup_counter += 1;
        (mix(0xBEEF, rt.setup_counter), mix(0xFEED, rt.setup_counter))
    } else {
        let t = &mut rt.tasks[rt.cur];
        t.counter += 1;
        let s = t.counter;
        (mix(mix(t.id, 0xC0), s), mix(t.hist, s))
    };
    let name = name.unwrap_or_else(|| format!("thread{}", rt.tasks.len()));
    let exit_obj = mix(id, 0xE817);
    let packet = Arc::new(Packet(RefCell::new(None)));
    let done = Rc::new(Cell::new(false));
    let (p2, d2) = (packet.clone(), done.clone());
    let index = rt.tasks.len();
    let stack = STACKS
        .with(|s| s.borrow_mut().pop())
        .unwrap_or_else(|| DefaultStack::new(STACK_SIZE).expect("stack"));
    let task_name = name.clone();
    let co: Co = Coroutine::with_stack(stack, move |y: &Yielder<Wake, ()>, first: Wake| {
        self::rt().unwrap().tasks[index].yielder = y;
        if first == Wake::Abort {
            // Never started. Dropping `f` may run operations; they are all no-ops now.
            let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
            return;
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let rt = self::rt().unwrap();
        let r = match r {
            Err(e) if e.is::<Abort>() => return,
            Err(e) => {
                let mut message = LAST_PANIC.with(|p| p.borrow().clone());
                if let Some(s) = e.downcast_ref::<&str>() {
                    if !message.contains(s) {
                        message = s.to_string();
                    }
                }
                if !rt.aborting {
                    rt.panics.push(Panic { task: task_name, library, message });
                }
                Err(e)
            }
            ok => ok,
        };
        *p2.0.borrow_mut() = Some(r);
        d2.set(true);
        let h = rt.tasks[index].hist;
        rt.objs.insert(exit_obj, h);
    });
    if rt.trace.is_some() {
        rt.names.insert(exit_obj, format!("[{name}]"));
    }
    static ALWAYS: fn() -> bool = || true;
    rt.tasks.push(Task {
        name,
        library,
        id,
        co: Some(co),
        yielder: std::ptr::null(),
        pending: Some(Pending {
            obj: exit_obj,
            tag: "start",
            ready: &ALWAYS as *const dyn Fn() -> bool,
            deadline: None,
            local: true,
        }),
        hist,
        counter: 0,
        finished: false,
    });
    JoinHandle { packet, done, exit_obj, task: id }
}

/// Mixes the history of `obj` into the running task and back, without a scheduling point: for
/// wake-ups that follow an operation.
pub fn note(obj: ObjId, tag: &'static str) {
    if let Some(rt) = rt() {
        if rt.cur != NONE && !rt.aborting {
            let t = rt.cur;
            rt.record(t, obj, tag, Wake::Ready, false);
        }
    }
}

fn resume(rt: *mut Rt, i: usize, wake: Wake) {
    unsafe {
        let mut co = (*rt).tasks[i].co.take().expect("task has no coroutine");
        (*rt).tasks[i].pending = None;
        let prev = (*rt).cur;
        (*rt).cur = i;
        let r = co.resume(wake);
        (*rt).cur = prev;
        match r {
            CoroutineResult::Yield(()) => (*rt).tasks[i].co = Some(co),
            CoroutineResult::Return(()) => {
                (*rt).tasks[i].finished = true;
                STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
            }
        }
    }
}
