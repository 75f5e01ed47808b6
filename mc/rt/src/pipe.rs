//! A byte stream in one direction: what the operating system puts between two processes.

use crate::{choose, new_obj, op, ObjId, Wake};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, ErrorKind};
use std::rc::Rc;

/// What the environment may do at a system call besides the default answer.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Quirk {
    /// Transfer only this many bytes.
    Short(usize),
    /// Fail with this error, transferring nothing.
    Fail(ErrorKind),
    /// Report that zero bytes were written.
    Zero,
}

/// How calls on one end of the stream are answered.
#[derive(Clone, Debug, Default)]
pub struct Env {
    /// Transfers never cross these positions of the stream.
    pub cuts: Vec<usize>,
    /// At most this many bytes per call.
    pub max: Option<usize>,
    /// Every call may be answered with one of these instead, `budget` times per execution.
    pub quirks: Vec<Quirk>,
    pub budget: u32,
    /// Quirks at fixed calls (numbered from 0).
    pub at: Vec<(usize, Quirk)>,
}

struct St {
    buf: VecDeque<u8>,
    written: Vec<u8>,
    read: usize,
    cap: usize,
    writers: usize,
    readers: usize,
    /// The reading side was shut down locally.
    read_shut: bool,
    /// The writing side was shut down locally.
    write_shut: bool,
    renv: Env,
    wenv: Env,
    rcalls: usize,
    wcalls: usize,
    failed_writes: usize,
    failed_reads: usize,
}

pub struct Pipe {
    obj: ObjId,
    st: RefCell<St>,
}

impl Pipe {
    pub fn new(name: &str) -> Rc<Pipe> {
        Rc::new(Pipe {
            obj: new_obj(name),
            st: RefCell::new(St {
                buf: VecDeque::new(),
                written: Vec::new(),
                read: 0,
                cap: usize::MAX,
                writers: 0,
                readers: 0,
                read_shut: false,
                write_shut: false,
                renv: Env::default(),
                wenv: Env::default(),
                rcalls: 0,
                wcalls: 0,
                failed_writes: 0,
                failed_reads: 0,
            }),
        })
    }
    pub fn set_capacity(&self, cap: usize) {
        self.st.borrow_mut().cap = cap;
    }
    pub fn set_read_env(&self, e: Env) {
        self.st.borrow_mut().renv = e;
    }
    pub fn set_write_env(&self, e: Env) {
        self.st.borrow_mut().wenv = e;
    }
    /// Put bytes in before the execution starts.
    pub fn preload(&self, bytes: &[u8]) {
        let mut st = self.st.borrow_mut();
        st.buf.extend(bytes);
        st.written.extend(bytes);
    }
    /// Everything ever accepted from the writer.
    pub fn written(&self) -> Vec<u8> {
        self.st.borrow().written.clone()
    }
    pub fn written_len(&self) -> usize {
        self.st.borrow().written.len()
    }
    pub fn consumed(&self) -> usize {
        self.st.borrow().read
    }
    pub fn failed_writes(&self) -> usize {
        self.st.borrow().failed_writes
    }
    pub fn failed_reads(&self) -> usize {
        self.st.borrow().failed_reads
    }
    pub fn read_calls(&self) -> usize {
        self.st.borrow().rcalls
    }
    pub fn write_calls(&self) -> usize {
        self.st.borrow().wcalls
    }
    pub fn writer_closed(&self) -> bool {
        self.st.borrow().writers == 0
    }

    pub fn add_reader(&self) {
        self.st.borrow_mut().readers += 1;
    }
    pub fn add_writer(&self) {
        self.st.borrow_mut().writers += 1;
    }
    pub fn drop_reader(&self) {
        if self.st.borrow().readers == 1 {
            crate::point(self.obj, "close read end");
        }
        self.st.borrow_mut().readers -= 1;
    }
    pub fn drop_writer(&self) {
        if self.st.borrow().writers == 1 {
            crate::point(self.obj, "close write end");
        }
        self.st.borrow_mut().writers -= 1;
    }
    pub fn shut_read(&self) {
        crate::point(self.obj, "shutdown read");
        self.st.borrow_mut().read_shut = true;
    }
    pub fn shut_write(&self) {
        crate::point(self.obj, "shutdown write");
        self.st.borrow_mut().write_shut = true;
    }

    fn quirk(env: &mut Env, call: usize) -> Option<Quirk> {
        if let Some(p) = env.at.iter().position(|a| a.0 == call) {
            return Some(env.at[p].1.clone());
        }
        None
    }

    pub fn read(&self, out: &mut [u8], limit: Option<u64>) -> io::Result<usize> {
        if out.is_empty() {
            return Ok(0);
        }
        let w = op(
            self.obj,
            "read",
            &|| {
                let st = self.st.borrow();
                !st.buf.is_empty() || st.writers == 0 || st.write_shut || st.read_shut
                    || st.renv.at.iter().any(|a| a.0 == st.rcalls && matches!(a.1, Quirk::Fail(_)))
            },
            limit,
        );
        if crate::aborting() {
            return Ok(0);
        }
        let (call, q, quirks) = {
            let mut st = self.st.borrow_mut();
            let call = st.rcalls;
            st.rcalls += 1;
            let q = Self::quirk(&mut st.renv, call);
            let quirks = if st.renv.budget > 0 { st.renv.quirks.clone() } else { vec![] };
            (call, q, quirks)
        };
        let _ = call;
        if w == Wake::Timeout {
            return Err(ErrorKind::WouldBlock.into());
        }
        if w == Wake::Abort {
            return Ok(0);
        }
        let q = match q {
            Some(q) => Some(q),
            None => {
                let avail = self.st.borrow().buf.len();
                let usable: Vec<Quirk> = quirks
                    .into_iter()
                    .filter(|q| match q {
                        Quirk::Short(n) => *n < avail.min(out.len()),
                        Quirk::Zero => false,
                        _ => true,
                    })
                    .collect();
                match choose(usable.len() + 1) {
                    0 => None,
                    k => {
                        self.st.borrow_mut().renv.budget -= 1;
                        Some(usable[k - 1].clone())
                    }
                }
            }
        };
        let mut st = self.st.borrow_mut();
        let mut n = st.buf.len().min(out.len());
        if let Some(m) = st.renv.max {
            n = n.min(m);
        }
        if let Some(&c) = st.renv.cuts.iter().find(|&&c| c > st.read) {
            n = n.min(c - st.read);
        }
        match q {
            Some(Quirk::Fail(k)) => {
                if k != ErrorKind::Interrupted {
                    st.failed_reads += 1;
                }
                return Err(k.into());
            }
            Some(Quirk::Short(m)) => n = n.min(m),
            _ => {}
        }
        for b in out[..n].iter_mut() {
            *b = st.buf.pop_front().unwrap();
        }
        st.read += n;
        Ok(n)
    }

    /// What could be read now, once there is something; it stays there to be read.
    pub fn peek(&self, out: &mut [u8], limit: Option<u64>) -> io::Result<usize> {
        if out.is_empty() {
            return Ok(0);
        }
        let w = op(
            self.obj,
            "peek",
            &|| {
                let st = self.st.borrow();
                !st.buf.is_empty() || st.writers == 0 || st.write_shut || st.read_shut
            },
            limit,
        );
        if crate::aborting() || w == Wake::Abort {
            return Ok(0);
        }
        if w == Wake::Timeout {
            return Err(ErrorKind::WouldBlock.into());
        }
        let st = self.st.borrow();
        let n = st.buf.len().min(out.len()).min(st.renv.max.unwrap_or(usize::MAX));
        for (o, b) in out[..n].iter_mut().zip(&st.buf) {
            *o = *b;
        }
        Ok(n)
    }

    pub fn write(&self, data: &[u8], limit: Option<u64>) -> io::Result<usize> {
        let w = op(
            self.obj,
            "write",
            &|| {
                let st = self.st.borrow();
                st.buf.len() < st.cap || st.readers == 0 || st.write_shut || data.is_empty()
            },
            limit,
        );
        if w == Wake::Abort {
            return Err(ErrorKind::BrokenPipe.into());
        }
        if crate::aborting() {
            return Ok(data.len());
        }
        let (q, quirks) = {
            let mut st = self.st.borrow_mut();
            let call = st.wcalls;
            st.wcalls += 1;
            let q = Self::quirk(&mut st.wenv, call);
            let quirks = if st.wenv.budget > 0 { st.wenv.quirks.clone() } else { vec![] };
            (q, quirks)
        };
        if w == Wake::Timeout {
            return Err(ErrorKind::WouldBlock.into());
        }
        let q = match q {
            Some(q) => Some(q),
            None => {
                let usable: Vec<Quirk> = quirks
                    .into_iter()
                    .filter(|q| match q {
                        Quirk::Short(n) => *n < data.len(),
                        Quirk::Zero => !data.is_empty(),
                        _ => true,
                    })
                    .collect();
                match choose(usable.len() + 1) {
                    0 => None,
                    k => {
                        self.st.borrow_mut().wenv.budget -= 1;
                        Some(usable[k - 1].clone())
                    }
                }
            }
        };
        let mut st = self.st.borrow_mut();
        if st.readers == 0 || st.write_shut {
            st.failed_writes += 1;
            return Err(ErrorKind::BrokenPipe.into());
        }
        let room = st.cap.saturating_sub(st.buf.len());
        let mut n = data.len().min(room);
        if let Some(m) = st.wenv.max {
            n = n.min(m);
        }
        let at = st.written.len();
        if let Some(&c) = st.wenv.cuts.iter().find(|&&c| c > at) {
            n = n.min(c - at);
        }
        match q {
            Some(Quirk::Fail(k)) => {
                if k != ErrorKind::Interrupted {
                    st.failed_writes += 1;
                }
                return Err(k.into());
            }
            Some(Quirk::Zero) => {
                st.failed_writes += 1;
                return Ok(0);
            }
            Some(Quirk::Short(m)) => n = n.min(m),
            None => {}
        }
        st.buf.extend(&data[..n]);
        st.written.extend(&data[..n]);
        Ok(n)
    }
}

/// The owner of the reading end.
pub struct PipeReader(pub Rc<Pipe>);
/// The owner of the writing end.
pub struct PipeWriter(pub Rc<Pipe>);
unsafe impl Send for PipeReader {}
unsafe impl Sync for PipeReader {}
unsafe impl Send for PipeWriter {}
unsafe impl Sync for PipeWriter {}

impl PipeReader {
    pub fn new(p: &Rc<Pipe>) -> Self {
        p.add_reader();
        PipeReader(p.clone())
    }
}
impl Drop for PipeReader {
    fn drop(&mut self) {
        self.0.drop_reader();
    }
}
impl io::Read for PipeReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.0.read(buf, None)
    }
}
impl PipeWriter {
    pub fn new(p: &Rc<Pipe>) -> Self {
        p.add_writer();
        PipeWriter(p.clone())
    }
}
impl Drop for PipeWriter {
    fn drop(&mut self) {
        self.0.drop_writer();
    }
}
impl io::Write for PipeWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.0.write(buf, None)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
