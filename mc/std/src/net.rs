//! A loopback network inside the execution.

use mcrt::pipe::Pipe;
use real::cell::{Cell, RefCell};
use real::collections::VecDeque;
use real::io::{self, ErrorKind, IoSlice, IoSliceMut, Read, Write};
pub use real::net::*;
use real::rc::Rc;
use real::time::Duration;

/// The system calls that can be made to fail.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Call {
    Connect,
    Bind,
    Accept,
    TryClone,
    SetOption,
    Shutdown,
}

struct Listening {
    addr: SocketAddr,
    obj: u64,
    queue: RefCell<VecDeque<TcpStream>>,
    open: Cell<bool>,
    handles: Cell<usize>,
    nonblocking: Cell<bool>,
    ttl: Cell<u32>,
}

/// The network of one execution.
#[derive(Default)]
pub struct World {
    listeners: RefCell<Vec<Rc<Listening>>>,
    /// (call, how many of it succeed first, error)
    faults: RefCell<Vec<(Call, u32, ErrorKind)>>,
    counts: RefCell<Vec<(Call, u32)>>,
    next_port: Cell<u16>,
    obj: Cell<u64>,
    streams: RefCell<Vec<Rc<Sock>>>,
    /// Applied to the two pipes of every new stream: (from connector to acceptor, back).
    on_stream: RefCell<Option<Box<dyn Fn(usize, &Rc<Pipe>, &Rc<Pipe>)>>>,
}

real::thread_local! {
    static WORLD: RefCell<Rc<World>> = RefCell::default();
}

pub fn __install() -> Rc<World> {
    let w = Rc::new(World::default());
    w.obj.set(mcrt::new_obj("network"));
    w.next_port.set(40000);
    WORLD.with(|x| *x.borrow_mut() = w.clone());
    w
}
fn world() -> Rc<World> {
    WORLD.with(|w| w.borrow().clone())
}

impl World {
    pub fn fail(&self, call: Call, after: u32, kind: ErrorKind) {
        self.faults.borrow_mut().push((call, after, kind));
    }
    pub fn count(&self, call: Call) -> u32 {
        self.counts.borrow().iter().find(|c| c.0 == call).map_or(0, |c| c.1)
    }
    pub fn on_stream(&self, f: impl Fn(usize, &Rc<Pipe>, &Rc<Pipe>) + 'static) {
        *self.on_stream.borrow_mut() = Some(Box::new(f));
    }
    fn call(&self, call: Call) -> io::Result<()> {
        let n = self.count(call);
        {
            let mut c = self.counts.borrow_mut();
            match c.iter_mut().find(|c| c.0 == call) {
                Some(c) => c.1 += 1,
                None => c.push((call, 1)),
            }
        }
        match self.faults.borrow().iter().find(|f| f.0 == call && f.1 == n) {
            Some(f) => Err(f.2.into()),
            None => Ok(()),
        }
    }
    /// Open ends of streams nobody has dropped.
    pub fn open_streams(&self) -> usize {
        self.streams.borrow().iter().filter(|s| s.handles.get() > 0).count()
    }
    pub fn open_listeners(&self) -> usize {
        self.listeners.borrow().iter().filter(|l| l.open.get()).count()
    }
}

struct Sock {
    rx: Rc<Pipe>,
    tx: Rc<Pipe>,
    handles: Cell<usize>,
    local: SocketAddr,
    peer: SocketAddr,
    read_timeout: Cell<Option<Duration>>,
    write_timeout: Cell<Option<Duration>>,
    nonblocking: Cell<bool>,
    nodelay: Cell<bool>,
    ttl: Cell<u32>,
}

pub struct TcpStream(Rc<Sock>);
unsafe impl Send for TcpStream {}
unsafe impl Sync for TcpStream {}

fn sock(rx: Rc<Pipe>, tx: Rc<Pipe>, local: SocketAddr, peer: SocketAddr) -> TcpStream {
    rx.add_reader();
    tx.add_writer();
    let s = Rc::new(Sock {
        rx,
        tx,
        handles: Cell::new(1),
        local,
        peer,
        read_timeout: Cell::new(None),
        write_timeout: Cell::new(None),
        nonblocking: Cell::new(false),
        nodelay: Cell::new(false),
        ttl: Cell::new(64),
    });
    world().streams.borrow_mut().push(s.clone());
    TcpStream(s)
}

/// Two connected streams, made by the harness.
pub fn __pair() -> (TcpStream, TcpStream) {
    let (a, b) = (Pipe::new("a to b"), Pipe::new("b to a"));
    let w = world();
    if let Some(f) = &*w.on_stream.borrow() {
        f(0, &a, &b);
    }
    let x = SocketAddr::from(([127, 0, 0, 1], 1));
    let y = SocketAddr::from(([127, 0, 0, 1], 2));
    (sock(b.clone(), a.clone(), x, y), sock(a, b, y, x))
}

impl Drop for TcpStream {
    fn drop(&mut self) {
        self.0.handles.set(self.0.handles.get() - 1);
        if self.0.handles.get() == 0 {
            self.0.tx.drop_writer();
            self.0.rx.drop_reader();
        }
    }
}

impl real::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.debug_struct("TcpStream").field("addr", &self.0.local).field("peer", &self.0.peer).finish()
    }
}

impl TcpStream {
    pub fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let w = world();
        let mut last = None;
        for a in addr.to_socket_addrs()? {
            mcrt::point(w.obj.get(), "connect");
            if let Err(e) = w.call(Call::Connect) {
                last = Some(e);
                continue;
            }
            let l = w.listeners.borrow().iter().find(|l| l.addr == a && l.open.get()).cloned();
            let Some(l) = l else {
                last = Some(ErrorKind::ConnectionRefused.into());
                continue;
            };
            let n = w.streams.borrow().len() / 2;
            let (up, down) = (Pipe::new("to listener"), Pipe::new("to connector"));
            if let Some(f) = &*w.on_stream.borrow() {
                f(n, &up, &down);
            }
            let local = SocketAddr::from(([127, 0, 0, 1], 50000 + n as u16));
            let mine = sock(down.clone(), up.clone(), local, a);
            let theirs = sock(up, down, a, local);
            mcrt::point(l.obj, "queue connection");
            // A listener closed in between resets the stream.
            if l.open.get() {
                l.queue.borrow_mut().push_back(theirs);
            }
            return Ok(mine);
        }
        Err(last.unwrap_or_else(|| io::Error::new(ErrorKind::InvalidInput, "could not resolve to any addresses")))
    }
    pub fn connect_timeout(addr: &SocketAddr, _: Duration) -> io::Result<TcpStream> {
        TcpStream::connect(addr)
    }
    pub fn try_clone(&self) -> io::Result<TcpStream> {
        world().call(Call::TryClone)?;
        self.0.handles.set(self.0.handles.get() + 1);
        Ok(TcpStream(self.0.clone()))
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        world().call(Call::Shutdown)?;
        if matches!(how, Shutdown::Read | Shutdown::Both) {
            self.0.rx.shut_read();
        }
        if matches!(how, Shutdown::Write | Shutdown::Both) {
            self.0.tx.shut_write();
        }
        Ok(())
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.0.local)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.0.peer)
    }
    pub fn set_nodelay(&self, v: bool) -> io::Result<()> {
        world().call(Call::SetOption)?;
        self.0.nodelay.set(v);
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(self.0.nodelay.get())
    }
    pub fn set_ttl(&self, v: u32) -> io::Result<()> {
        world().call(Call::SetOption)?;
        self.0.ttl.set(v);
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(self.0.ttl.get())
    }
    pub fn set_nonblocking(&self, v: bool) -> io::Result<()> {
        world().call(Call::SetOption)?;
        self.0.nonblocking.set(v);
        Ok(())
    }
    pub fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        world().call(Call::SetOption)?;
        if d == Some(Duration::ZERO) {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.0.read_timeout.set(d);
        Ok(())
    }
    pub fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        world().call(Call::SetOption)?;
        if d == Some(Duration::ZERO) {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.0.write_timeout.set(d);
        Ok(())
    }
    pub fn read_timeout(&self) -> io::Result<Option<Duration>> {
        Ok(self.0.read_timeout.get())
    }
    pub fn write_timeout(&self) -> io::Result<Option<Duration>> {
        Ok(self.0.write_timeout.get())
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    pub fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.0.rx.peek(buf, self.limit(self.0.read_timeout.get()))
    }
    pub fn set_linger(&self, _: Option<Duration>) -> io::Result<()> {
        world().call(Call::SetOption)
    }
    pub fn linger(&self) -> io::Result<Option<Duration>> {
        Ok(None)
    }
    fn limit(&self, d: Option<Duration>) -> Option<u64> {
        if self.0.nonblocking.get() {
            return Some(0);
        }
        d.map(|d| mcrt::now().saturating_add(mcrt::time::nanos(d)))
    }
    fn do_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.0.rx.read(buf, self.limit(self.0.read_timeout.get()))
    }
    fn do_write(&self, buf: &[u8]) -> io::Result<usize> {
        self.0.tx.write(buf, self.limit(self.0.write_timeout.get()))
    }
    /// The pipe towards the peer, for the harness.
    pub fn __tx(&self) -> &Rc<Pipe> {
        &self.0.tx
    }
    pub fn __rx(&self) -> &Rc<Pipe> {
        &self.0.rx
    }
}

fn first<'a>(bufs: &'a [IoSlice<'_>]) -> &'a [u8] {
    bufs.iter().find(|b| !b.is_empty()).map_or(&[], |b| &**b)
}
fn joined(bufs: &[IoSlice<'_>]) -> Vec<u8> {
    bufs.iter().flat_map(|b| b.iter().copied()).collect()
}

macro_rules! rw {
    ($t:ty) => {
        impl Read for $t {
            fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                self.do_read(buf)
            }
            fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
                match bufs.iter_mut().find(|b| !b.is_empty()) {
                    Some(b) => self.do_read(b),
                    None => Ok(0),
                }
            }
        }
        impl Write for $t {
            fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
                self.do_write(buf)
            }
            fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
                if bufs.len() <= 1 {
                    self.do_write(first(bufs))
                } else {
                    self.do_write(&joined(bufs))
                }
            }
            fn flush(&mut self) -> io::Result<()> {
                Ok(())
            }
        }
    };
}
rw!(TcpStream);
rw!(&TcpStream);

pub struct TcpListener(Rc<Listening>);
unsafe impl Send for TcpListener {}
unsafe impl Sync for TcpListener {}

impl real::fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut real::fmt::Formatter<'_>) -> real::fmt::Result {
        f.debug_struct("TcpListener").field("addr", &self.0.addr).finish()
    }
}

impl TcpListener {
    pub fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let w = world();
        let mut last = None;
        for mut a in addr.to_socket_addrs()? {
            mcrt::point(w.obj.get(), "bind");
            if let Err(e) = w.call(Call::Bind) {
                last = Some(e);
                continue;
            }
            if a.port() == 0 {
                a.set_port(w.next_port.get());
                w.next_port.set(w.next_port.get() + 1);
            }
            if w.listeners.borrow().iter().any(|l| l.addr == a && l.open.get()) {
                last = Some(ErrorKind::AddrInUse.into());
                continue;
            }
            let l = Rc::new(Listening {
                addr: a,
                obj: mcrt::new_obj("listener"),
                queue: RefCell::default(),
                open: Cell::new(true),
                handles: Cell::new(1),
                nonblocking: Cell::new(false),
                ttl: Cell::new(64),
            });
            w.listeners.borrow_mut().push(l.clone());
            return Ok(TcpListener(l));
        }
        Err(last.unwrap_or_else(|| io::Error::new(ErrorKind::InvalidInput, "could not resolve to any addresses")))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.0.addr)
    }
    pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        let limit = self.0.nonblocking.get().then_some(0);
        let w = mcrt::op(self.0.obj, "accept", &|| !self.0.queue.borrow().is_empty(), limit);
        if w == mcrt::Wake::Timeout {
            return Err(ErrorKind::WouldBlock.into());
        }
        world().call(Call::Accept)?;
        let s = self.0.queue.borrow_mut().pop_front();
        match s {
            Some(s) => {
                let p = s.0.peer;
                Ok((s, p))
            }
            None => Err(ErrorKind::ConnectionAborted.into()),
        }
    }
    pub fn incoming(&self) -> Incoming<'_> {
        Incoming(self)
    }
    pub fn into_incoming(self) -> IntoIncoming {
        IntoIncoming(self)
    }
    pub fn try_clone(&self) -> io::Result<TcpListener> {
        world().call(Call::TryClone)?;
        self.0.handles.set(self.0.handles.get() + 1);
        Ok(TcpListener(self.0.clone()))
    }
    pub fn set_nonblocking(&self, v: bool) -> io::Result<()> {
        world().call(Call::SetOption)?;
        self.0.nonblocking.set(v);
        Ok(())
    }
    pub fn set_ttl(&self, v: u32) -> io::Result<()> {
        world().call(Call::SetOption)?;
        self.0.ttl.set(v);
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(self.0.ttl.get())
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
}
impl real::panic::UnwindSafe for TcpStream {}
impl real::panic::RefUnwindSafe for TcpStream {}
impl real::panic::UnwindSafe for TcpListener {}
impl real::panic::RefUnwindSafe for TcpListener {}
/// Waits until somebody listens there.
pub fn __await_listener(addr: &str) {
    let a: SocketAddr = addr.parse().unwrap();
    let w = world();
    mcrt::op(w.obj.get(), "await listener", &|| w.listeners.borrow().iter().any(|l| l.addr == a && l.open.get()), None);
}
impl TcpListener {
    /// The next connection, without that being a step.
    pub fn __take(&self) -> Option<TcpStream> {
        self.0.queue.borrow_mut().pop_front()
    }
    /// Goes away without that being a step.
    pub fn __forget(self) {
        real::mem::forget(self)
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        self.0.handles.set(self.0.handles.get() - 1);
        if self.0.handles.get() > 0 {
            return;
        }
        mcrt::point(world().obj.get(), "close listener");
        self.0.open.set(false);
        let q = real::mem::take(&mut *self.0.queue.borrow_mut());
        drop(q);
    }
}
pub struct Incoming<'a>(&'a TcpListener);
impl Iterator for Incoming<'_> {
    type Item = io::Result<TcpStream>;
    fn next(&mut self) -> Option<Self::Item> {
        Some(self.0.accept().map(|p| p.0))
    }
}
pub struct IntoIncoming(TcpListener);
impl Iterator for IntoIncoming {
    type Item = io::Result<TcpStream>;
    fn next(&mut self) -> Option<Self::Item> {
        Some(self.0.accept().map(|p| p.0))
    }
}
