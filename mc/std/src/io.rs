//! Standard streams as pipes behind the real buffering.

use crate::sync::raw::RawLock;
use mcrt::pipe::{PipeReader as Rd, PipeWriter as Wr};
use real::cell::{Cell, RefCell, RefMut};
use real::io as rio;
pub use real::io::*;
use real::rc::Rc;

struct In {
    lock: RawLock,
    buf: RefCell<rio::BufReader<OptReader>>,
}
struct Out {
    lock: RawLock,
    depth: Cell<u32>,
    owner: Cell<u64>,
    buf: RefCell<rio::LineWriter<Dest>>,
}
enum Dest {
    Nowhere,
    Pipe(Wr),
}
impl rio::Write for Dest {
    fn write(&mut self, b: &[u8]) -> rio::Result<usize> {
        match self {
            Dest::Nowhere => Ok(b.len()),
            Dest::Pipe(p) => p.write(b),
        }
    }
    fn flush(&mut self) -> rio::Result<()> {
        Ok(())
    }
}

real::thread_local! {
    static STDIN: RefCell<Option<Rc<In>>> = const { RefCell::new(None) };
    static STDOUT: RefCell<Option<Rc<Out>>> = const { RefCell::new(None) };
}

/// Gives the execution its standard streams.
pub fn __install(input: Option<Rd>, output: Option<Wr>) {
    let input = input.map(|p| {
        Rc::new(In { lock: RawLock::new("stdin"), buf: RefCell::new(rio::BufReader::with_capacity(8192, OptReader(Some(p)))) })
    });
    let output = output.map(|p| {
        Rc::new(Out {
            lock: RawLock::new("stdout"),
            depth: Cell::new(0),
            owner: Cell::new(0),
            buf: RefCell::new(rio::LineWriter::new(Dest::Pipe(p))),
        })
    });
    STDIN.with(|s| *s.borrow_mut() = input);
    STDOUT.with(|s| *s.borrow_mut() = output);
}

/// The process ends normally: what is left in the buffer goes out.
pub fn __process_end() {
    if let Some(o) = STDOUT.with(|s| s.borrow().clone()) {
        if let Ok(mut b) = o.buf.try_borrow_mut() {
            let _ = rio::Write::flush(&mut *b);
        }
    }
}

pub struct Stdin(Rc<In>);
unsafe impl Send for Stdin {}
unsafe impl Sync for Stdin {}
pub struct StdinLock<'a> {
    inner: Rc<In>,
    _p: real::marker::PhantomData<&'a ()>,
}
pub fn stdin() -> Stdin {
    Stdin(STDIN.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| {
                Rc::new(In { lock: RawLock::new("stdin"), buf: RefCell::new(rio::BufReader::new(OptReader(None))) })
            })
            .clone()
    }))
}
impl Stdin {
    pub fn lock(&self) -> StdinLock<'static> {
        self.0.lock.lock("lock stdin");
        StdinLock { inner: self.0.clone(), _p: real::marker::PhantomData }
    }
    pub fn read_line(&self, s: &mut String) -> rio::Result<usize> {
        self.lock().read_line(s)
    }
    pub fn lines(self) -> rio::Lines<StdinLock<'static>> {
        self.lock().lines()
    }
}
impl real::fmt::Debug for Stdin {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.write_str("Stdin")
    }
}
impl Drop for StdinLock<'_> {
    fn drop(&mut self) {
        self.inner.lock.unlock("unlock stdin");
    }
}
impl StdinLock<'_> {
    fn b(&mut self) -> &mut rio::BufReader<OptReader> {
        // The lock is held: nobody else touches the buffer.
        unsafe { &mut *self.inner.buf.as_ptr() }
    }
}
/// `Option<Rd>` with an implementation of `Read`.
pub struct OptReader(Option<Rd>);
impl rio::Read for OptReader {
    fn read(&mut self, b: &mut [u8]) -> rio::Result<usize> {
        match &mut self.0 {
            Some(p) => p.read(b),
            None => Ok(0),
        }
    }
}
impl rio::Read for StdinLock<'_> {
    fn read(&mut self, b: &mut [u8]) -> rio::Result<usize> {
        self.b().read(b)
    }
}
impl rio::BufRead for StdinLock<'_> {
    fn fill_buf(&mut self) -> rio::Result<&[u8]> {
        self.b().fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.b().consume(n)
    }
}
impl rio::Read for Stdin {
    fn read(&mut self, b: &mut [u8]) -> rio::Result<usize> {
        self.lock().read(b)
    }
}

pub struct Stdout(Rc<Out>);
unsafe impl Send for Stdout {}
unsafe impl Sync for Stdout {}
pub struct StdoutLock<'a> {
    inner: Rc<Out>,
    _p: real::marker::PhantomData<&'a ()>,
}
pub fn stdout() -> Stdout {
    Stdout(STDOUT.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| {
                Rc::new(Out {
                    lock: RawLock::new("stdout"),
                    depth: Cell::new(0),
                    owner: Cell::new(0),
                    buf: RefCell::new(rio::LineWriter::new(Dest::Nowhere)),
                })
            })
            .clone()
    }))
}
impl real::fmt::Debug for Stdout {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.write_str("Stdout")
    }
}
impl Stdout {
    pub fn lock(&self) -> StdoutLock<'static> {
        let me = mcrt::current_task();
        if !(self.0.depth.get() > 0 && self.0.owner.get() == me) {
            self.0.lock.lock("lock stdout");
            self.0.owner.set(me);
        }
        self.0.depth.set(self.0.depth.get() + 1);
        StdoutLock { inner: self.0.clone(), _p: real::marker::PhantomData }
    }
}
impl Drop for StdoutLock<'_> {
    fn drop(&mut self) {
        self.inner.depth.set(self.inner.depth.get() - 1);
        if self.inner.depth.get() == 0 {
            self.inner.owner.set(0);
            self.inner.lock.unlock("unlock stdout");
        }
    }
}
impl StdoutLock<'_> {
    fn b(&self) -> RefMut<'_, rio::LineWriter<Dest>> {
        self.inner.buf.borrow_mut()
    }
}
impl rio::Write for StdoutLock<'_> {
    fn write(&mut self, b: &[u8]) -> rio::Result<usize> {
        self.b().write(b)
    }
    fn flush(&mut self) -> rio::Result<()> {
        self.b().flush()
    }
    fn write_all(&mut self, b: &[u8]) -> rio::Result<()> {
        self.b().write_all(b)
    }
}
impl rio::Write for Stdout {
    fn write(&mut self, b: &[u8]) -> rio::Result<usize> {
        self.lock().write(b)
    }
    fn flush(&mut self) -> rio::Result<()> {
        self.lock().flush()
    }
    fn write_all(&mut self, b: &[u8]) -> rio::Result<()> {
        self.lock().write_all(b)
    }
    fn write_fmt(&mut self, a: real::fmt::Arguments<'_>) -> rio::Result<()> {
        self.lock().write_fmt(a)
    }
}
impl rio::Write for &Stdout {
    fn write(&mut self, b: &[u8]) -> rio::Result<usize> {
        self.lock().write(b)
    }
    fn flush(&mut self) -> rio::Result<()> {
        self.lock().flush()
    }
}

/// Standard error: accepted and forgotten.
#[derive(Debug)]
pub struct Stderr;
pub struct StderrLock<'a>(real::marker::PhantomData<&'a ()>);
pub fn stderr() -> Stderr {
    Stderr
}
impl Stderr {
    pub fn lock(&self) -> StderrLock<'static> {
        StderrLock(real::marker::PhantomData)
    }
}
impl rio::Write for Stderr {
    fn write(&mut self, b: &[u8]) -> rio::Result<usize> {
        mcrt::note_stderr();
        Ok(b.len())
    }
    fn flush(&mut self) -> rio::Result<()> {
        Ok(())
    }
}
impl rio::Write for StderrLock<'_> {
    fn write(&mut self, b: &[u8]) -> rio::Result<usize> {
        mcrt::note_stderr();
        Ok(b.len())
    }
    fn flush(&mut self) -> rio::Result<()> {
        Ok(())
    }
}
impl rio::Write for &Stderr {
    fn write(&mut self, b: &[u8]) -> rio::Result<usize> {
        mcrt::note_stderr();
        Ok(b.len())
    }
    fn flush(&mut self) -> rio::Result<()> {
        Ok(())
    }
}
impl rio::Read for &Stdin {
    fn read(&mut self, b: &mut [u8]) -> rio::Result<usize> {
        self.lock().read(b)
    }
}
macro_rules! named {
    ($($t:ident)*) => {$(
        impl real::fmt::Debug for $t<'_> {
            fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
                f.write_str(stringify!($t))
            }
        }
    )*};
}
named!(StdinLock StdoutLock StderrLock);
impl real::panic::UnwindSafe for Stdin {}
impl real::panic::RefUnwindSafe for Stdin {}
impl real::panic::UnwindSafe for Stdout {}
impl real::panic::RefUnwindSafe for Stdout {}
impl real::panic::UnwindSafe for StdinLock<'_> {}
impl real::panic::RefUnwindSafe for StdinLock<'_> {}
impl real::panic::UnwindSafe for StdoutLock<'_> {}
impl real::panic::RefUnwindSafe for StdoutLock<'_> {}
macro_rules! terminal {
    ($($t:ty)*) => {$(
        impl $t {
            pub fn is_terminal(&self) -> bool {
                false
            }
        }
    )*};
}
terminal!(Stdin Stdout Stderr StdinLock<'_> StdoutLock<'_> StderrLock<'_>);
