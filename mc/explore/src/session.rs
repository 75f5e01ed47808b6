//! One connection, a peer and an application, all following scripts; and what must hold at the end.

use crate::canon;
use crate::msgs::*;
pub use crate::script::*;
use bsp_server::{Connection, IoThreads, Message};
use mcrt::pipe::{Env, Quirk, Pipe, PipeReader, PipeWriter};
use mcrt::explore::Oracle;
use mcrt::End;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, ErrorKind};
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Scenario {
    pub link: Link,
    /// Bytes there before anything starts.
    pub preload: Vec<u8>,
    pub preload_closed: bool,
    /// Scripts of the peer's threads.
    pub peer: Vec<Vec<P>>,
    /// Scripts of the application's threads; the first one also owns the I/O threads.
    pub app: Vec<Vec<A>>,
    pub out_cap: usize,
    pub in_cap: usize,
    pub renv: Env,
    pub wenv: Env,
    /// What the peer sends, by name, in order, for the oracle (up to whatever ends reading).
    pub expect: Vec<&'static str>,
    /// How reading ends by itself.
    pub in_end: InEnd,
    /// Threads, by name, that may be left blocked.
    pub may_block: Vec<&'static str>,
    /// Timeouts of other threads may make time pass at any moment.
    pub loose_time: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum InEnd {
    /// Never: the peer leaves the stream open.
    Open,
    /// Cleanly: exit or the end of the stream.
    Clean,
    /// With an error.
    Error,
}

impl Scenario {
    pub fn new(link: Link) -> Scenario {
        Scenario {
            link,
            preload: vec![],
            preload_closed: false,
            peer: vec![],
            app: vec![],
            out_cap: usize::MAX,
            in_cap: usize::MAX,
            renv: Env::default(),
            wenv: Env::default(),
            expect: vec![],
            in_end: InEnd::Open,
            may_block: vec![],
            loose_time: false,
        }
    }
    pub fn preload(mut self, names: &[&'static str], closed: bool) -> Self {
        for n in names {
            self.preload.extend(incoming_frame(n));
        }
        self.expect(names, if closed { InEnd::Clean } else { InEnd::Open }).closed(closed)
    }
    /// The peer's stream ends with what is preloaded.
    pub fn closing(self) -> Self {
        self.closed(true)
    }
    pub fn bytes(mut self, b: &[u8], closed: bool) -> Self {
        self.preload.extend(b);
        self.closed(closed)
    }
    fn closed(mut self, c: bool) -> Self {
        self.preload_closed = c;
        self
    }
    /// The messages delivered end with the first exit.
    pub fn expect(mut self, names: &[&'static str], end: InEnd) -> Self {
        self.in_end = end;
        self.expect.clear();
        for n in names {
            self.expect.push(n);
            if is_exit(n) {
                self.in_end = InEnd::Clean;
                break;
            }
        }
        self
    }
    pub fn peer(mut self, script: Vec<P>) -> Self {
        self.peer.push(script);
        self
    }
    pub fn app(mut self, script: Vec<A>) -> Self {
        self.app.push(script);
        self
    }
    pub fn renv(mut self, e: Env) -> Self {
        self.renv = e;
        self
    }
    pub fn wenv(mut self, e: Env) -> Self {
        self.wenv = e;
        self
    }
    pub fn out_cap(mut self, c: usize) -> Self {
        self.out_cap = c;
        self
    }
    pub fn in_cap(mut self, c: usize) -> Self {
        self.in_cap = c;
        self
    }
    pub fn may_block(mut self, names: &[&'static str]) -> Self {
        self.may_block.extend(names);
        self
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sent {
    Ok,
    /// Failed and handed back; whether it was for lack of time or room.
    Back { waited: bool, same: bool },
    Never,
}

#[derive(Clone, Debug)]
pub struct SendRec {
    pub thread: usize,
    pub name: &'static str,
    pub how: How,
    pub result: Sent,
    pub start: u64,
    pub end: u64,
    /// Sends known to have happened before, by index.
    pub before: BTreeSet<usize>,
    /// Frames complete on the wire when it was called.
    pub writer_failed_before: bool,
}

#[derive(Clone, Debug)]
pub struct Recvd {
    pub thread: usize,
    pub what: Value,
    /// How much of the stream the library had taken when this arrived.
    pub consumed: usize,
}

#[derive(Default)]
pub struct Obs {
    pub recvd: Vec<Recvd>,
    pub disconnected: Vec<usize>,
    pub recv_timeouts: Vec<(usize, u64, u64)>,
    pub sends: Vec<SendRec>,
    pub join: Option<Result<(), (ErrorKind, String)>>,
    pub written_at_join: usize,
    pub peer_got: Vec<u8>,
    pub peer_eof: bool,
    pub consumed: usize,
    pub written: Vec<u8>,
    pub failed_reads: usize,
    pub failed_writes: usize,
    pub open_error: Option<String>,
    pub finished: BTreeSet<String>,
    pub in_written: Vec<u8>,
    /// What the handshake, handle_shutdown and the server loop returned.
    pub calls: Vec<Value>,
}

struct Flag {
    obj: u64,
    set: Cell<bool>,
    known: RefCell<BTreeSet<usize>>,
}

struct Shared {
    obs: RefCell<Obs>,
    flags: Vec<Flag>,
    up: RefCell<Option<Rc<Pipe>>>,
    down: RefCell<Option<Rc<Pipe>>>,
    peer_tx: RefCell<Option<PipeWriter>>,
    peer_rx: RefCell<Option<PipeReader>>,
}

fn peer_run(sh: Rc<Shared>, k: usize, script: Vec<P>) {
    for op in script {
        match op {
            P::Msg(n) => peer_write(&sh, &incoming_frame(n)),
            P::Raw(b) => peer_write(&sh, &b),
            P::Close => drop(sh.peer_tx.borrow_mut().take()),
            P::CloseRx => drop(sh.peer_rx.borrow_mut().take()),
            P::Frames(n) => loop {
                let whole = split_output(&sh.obs.borrow().peer_got).map_or(0, |f| f.0.len());
                if whole >= n || !peer_read(&sh) {
                    break;
                }
            },
            P::Drain => {
                while peer_read(&sh) {}
            }
            P::Signal(i) => {
                mcrt::point(sh.flags[i as usize].obj, "signal");
                sh.flags[i as usize].set.set(true);
            }
            P::Await(i) => {
                let f = &sh.flags[i as usize];
                mcrt::op_local(f.obj, "await", &|| f.set.get(), None);
            }
            P::Sleep(n) => mcrt::sleep(n),
        }
    }
    sh.obs.borrow_mut().finished.insert(format!("peer{k}"));
}

fn peer_write(sh: &Shared, b: &[u8]) {
    let p = sh.down.borrow().clone().unwrap();
    let mut at = 0;
    while at < b.len() {
        match p.write(&b[at..], None) {
            Ok(n) => at += n,
            Err(_) => return,
        }
    }
}

fn peer_read(sh: &Shared) -> bool {
    let mut buf = [0u8; 4096];
    let p = sh.up.borrow().clone().unwrap();
    match p.read(&mut buf, None) {
        Ok(0) => {
            sh.obs.borrow_mut().peer_eof = true;
            false
        }
        Ok(n) => {
            sh.obs.borrow_mut().peer_got.extend(&buf[..n]);
            true
        }
        Err(_) => false,
    }
}

struct App {
    sh: Rc<Shared>,
    k: usize,
    conn: Option<Connection>,
    io: Option<IoThreads>,
    known: BTreeSet<usize>,
}

impl App {
    fn take(&mut self, r: Result<Message, bool>, start: u64) -> bool {
        let mut o = self.sh.obs.borrow_mut();
        match r {
            Ok(m) => {
                let consumed = self.sh.down.borrow().as_ref().unwrap().consumed();
                o.recvd.push(Recvd { thread: self.k, what: describe(&m), consumed });
                true
            }
            Err(true) => {
                o.disconnected.push(self.k);
                false
            }
            Err(false) => {
                let t = mcrt::now();
                o.recv_timeouts.push((self.k, start, t));
                false
            }
        }
    }

    fn send(&mut self, name: &'static str, how: How) {
        let (m, _) = outgoing(name);
        let want = describe(&m);
        let start = mcrt::now();
        let up = self.sh.up.borrow().clone().unwrap();
        let failed = up.failed_writes() > 0;
        let index = {
            let mut o = self.sh.obs.borrow_mut();
            o.sends.push(SendRec {
                thread: self.k,
                name,
                how,
                result: Sent::Never,
                start,
                end: 0,
                before: self.known.clone(),
                writer_failed_before: failed,
            });
            o.sends.len() - 1
        };
        let Some(c) = &self.conn else { panic!("no connection") };
        let back = |m: Message, waited: bool| Sent::Back { waited, same: describe(&m) == want };
        use bsp_server_channel::{SendTimeoutError as T, TrySendError as R};
        let r = match how {
            How::Block => c.send(m).map_err(|e| back(e.0, false)),
            How::Channel => c.sender.send(m).map_err(|e| back(e.0, false)),
            How::Try => c.try_send(m).map_err(|e| match e {
                R::Full(m) => back(m, true),
                R::Disconnected(m) => back(m, false),
            }),
            How::Ever => c.send_timeout(m, Duration::MAX).map_err(|e| match e {
                T::Timeout(m) => back(m, true),
                T::Disconnected(m) => back(m, false),
            }),
            How::Past => c.send_deadline(m, mcrt::time::Instant::now() - Duration::from_secs(60)).map_err(|e| match e {
                T::Timeout(m) => back(m, true),
                T::Disconnected(m) => back(m, false),
            }),
            How::Timeout(n) => c.send_timeout(m, Duration::from_nanos(n)).map_err(|e| match e {
                T::Timeout(m) => back(m, true),
                T::Disconnected(m) => back(m, false),
            }),
            How::Deadline(n) => {
                let at = mcrt::time::Instant::now() + Duration::from_nanos(n);
                c.send_deadline(m, at).map_err(|e| match e {
                    T::Timeout(m) => back(m, true),
                    T::Disconnected(m) => back(m, false),
                })
            }
        };
        let end = mcrt::now();
        let mut o = self.sh.obs.borrow_mut();
        o.sends[index].end = end;
        o.sends[index].result = match r {
            Ok(()) => Sent::Ok,
            Err(s) => s,
        };
        self.known.insert(index);
    }

    fn run(mut self, script: Vec<A>) {
        for op in script {
            match op {
                A::Recv => {
                    let r = self.conn.as_ref().unwrap().receiver.recv().map_err(|_| true);
                    self.take(r, 0);
                }
                A::TryRecv => {
                    let r = self.conn.as_ref().unwrap().receiver.try_recv();
                    use bsp_server_channel::TryRecvError as E;
                    self.take(r.map_err(|e| matches!(e, E::Disconnected)), 0);
                }
                A::RecvTimeout(n) => {
                    let s = mcrt::now();
                    let r = self.conn.as_ref().unwrap().receiver.recv_timeout(Duration::from_nanos(n));
                    use bsp_server_channel::RecvTimeoutError as E;
                    self.take(r.map_err(|e| matches!(e, E::Disconnected)), s);
                }
                A::RecvAll => loop {
                    let r = self.conn.as_ref().unwrap().receiver.recv().map_err(|_| true);
                    if !self.take(r, 0) {
                        break;
                    }
                },
                A::Send(n, how) => self.send(n, how),
                A::Insist(n) => loop {
                    self.send(n, How::Try);
                    let last = self.sh.obs.borrow().sends.iter().rfind(|s| s.thread == self.k).unwrap().result.clone();
                    if matches!(last, Sent::Back { waited: true, .. }) {
                        mcrt::sleep(1);
                    } else {
                        break;
                    }
                },
                A::Initialize => {
                    let r = initialize(self.conn.as_ref().unwrap());
                    self.sh.obs.borrow_mut().calls.push(r);
                }
                A::HandleShutdown => {
                    let c = self.conn.as_ref().unwrap();
                    let r = match c.receiver.recv() {
                        Ok(Message::Request(r)) => match c.handle_shutdown(&r) {
                            Ok(b) => json!({"shutdown": b}),
                            Err(e) => json!({"shutdown error": e.to_string()}),
                        },
                        other => json!({"no request": format!("{other:?}")}),
                    };
                    self.sh.obs.borrow_mut().calls.push(r);
                }
                A::Serve => {
                    let c = self.conn.take().unwrap();
                    let r = serve(c);
                    self.sh.obs.borrow_mut().calls.push(r);
                }
                A::ServeAs(k) => {
                    let c = self.conn.take().unwrap();
                    let r = crate::serve::serve_as(c, k);
                    self.sh.obs.borrow_mut().calls.push(r);
                }
                A::DropSender => {
                    let c = self.conn.take().unwrap();
                    let Connection { sender, receiver } = c;
                    drop(sender);
                    self.conn = Some(Connection { sender: bsp_server_channel::unbounded().0, receiver });
                }
                A::DropReceiver => {
                    let c = self.conn.take().unwrap();
                    let Connection { sender, receiver } = c;
                    drop(receiver);
                    self.conn = Some(Connection { sender, receiver: bsp_server_channel::never() });
                }
                A::DropConn => drop(self.conn.take()),
                A::Join => {
                    let r = self.io.take().expect("io threads").join();
                    let mut o = self.sh.obs.borrow_mut();
                    o.written_at_join = self.sh.up.borrow().as_ref().unwrap().written_len();
                    o.join = Some(r.map_err(|e: io::Error| (e.kind(), e.to_string())));
                }
                A::Signal(i) => {
                    let f = &self.sh.flags[i as usize];
                    mcrt::point(f.obj, "signal");
                    f.known.borrow_mut().extend(self.known.iter().copied());
                    f.set.set(true);
                }
                A::Await(i) => {
                    let f = &self.sh.flags[i as usize];
                    mcrt::op_local(f.obj, "await", &|| f.set.get(), None);
                    self.known.extend(f.known.borrow().iter().copied());
                }
                A::Sleep(n) => mcrt::sleep(n),
            }
        }
        drop(self.conn.take());
        drop(self.io.take());
        if self.k == 0 {
            // The process ends: buffers of standard output are written out.
            stdshim::io::__process_end();
        }
        self.sh.obs.borrow_mut().finished.insert(format!("app{}", self.k));
    }
}

/// What the handshake did; the callback is called as often as it says.
pub fn initialize(c: &Connection) -> Value {
    let mut called = vec![];
    let r = c.initialize(|p| {
        called.push(serde_json::to_value(p).unwrap());
        json!({"answer": 1, "to": p.display_name()})
    });
    match r {
        Ok(p) => json!({"initialized": p, "called": called}),
        Err(e) => json!({"error": !e.to_string().is_empty(), "called": called}),
    }
}

/// The loop of the README.
pub fn serve(conn: Connection) -> Value {
    for msg in &conn.receiver {
        match msg {
            Message::Request(req) => {
                use bsp_server::types::*;
                use bsp_server::{Request::*, Response};
                let r = match req {
                    Shutdown(_) => {
                        return match conn.handle_shutdown(&req) {
                            Ok(true) => json!("served"),
                            Ok(false) => json!("not shut down"),
                            Err(e) => json!(e.to_string()),
                        };
                    }
                    WorkspaceBuildTargets(id) => conn.send((id, WorkspaceBuildTargetsResult::default())),
                    BuildTargetSources(id, _) => conn.send((id, BuildTargetSourcesResult::default())),
                    _ => conn.send(Response::method_not_found(req.id().clone(), "".into())),
                };
                if r.is_err() {
                    return json!("sending failed");
                }
            }
            Message::Response(_) => {}
            Message::Notification(_) => {}
        };
    }
    json!("disconnected")
}

/// Gives the peer its ends of the two pipes and applies the scenario's environment.
fn wire(sh: &Shared, sc: &Scenario, up: &Rc<Pipe>, down: &Rc<Pipe>) {
    up.set_capacity(sc.out_cap);
    up.set_write_env(sc.wenv.clone());
    down.set_capacity(sc.in_cap);
    down.set_read_env(sc.renv.clone());
    down.preload(&sc.preload);
    if !sc.preload_closed {
        *sh.peer_tx.borrow_mut() = Some(PipeWriter::new(down));
    }
    *sh.peer_rx.borrow_mut() = Some(PipeReader::new(up));
    *sh.up.borrow_mut() = Some(up.clone());
    *sh.down.borrow_mut() = Some(down.clone());
}

pub const ADDR: &str = "127.0.0.1:4711";

/// Opens the library's side of a connection; the peer's pipes are handed to `wire`.
pub fn open_link(link: Link, on_pipes: impl Fn(&Rc<Pipe>, &Rc<Pipe>) + 'static) -> impl FnOnce() -> (Connection, IoThreads) {
    stdshim::thread::__reset();
    stdshim::thread::__fail_spawn_after(-1);
    let net = stdshim::net::__install();
    let mut listener = None;
    let mut early = None;
    match link {
        Link::Stdio => {
            let (up, down) = (Pipe::new("stdout"), Pipe::new("stdin"));
            stdshim::io::__install(Some(PipeReader::new(&down)), Some(PipeWriter::new(&up)));
            on_pipes(&up, &down);
        }
        Link::Connect => {
            stdshim::io::__install(None, None);
            net.on_stream(move |_, to_listener, to_connector| on_pipes(to_listener, to_connector));
            listener = Some(stdshim::net::TcpListener::bind(ADDR).unwrap());
        }
        Link::Listen => {
            stdshim::io::__install(None, None);
            net.on_stream(move |_, to_listener, to_connector| on_pipes(to_connector, to_listener));
            early = Some(());
        }
    }
    move || match link {
        Link::Stdio => Connection::stdio(),
        Link::Connect => {
            let l = listener.unwrap();
            let r = Connection::connect(ADDR).expect("connect");
            // The peer's socket is represented by its pipe ends alone.
            drop(l.__take().expect("a connection"));
            l.__forget();
            r
        }
        Link::Listen => {
            let _ = early;
            let h = mcrt::spawn(Some("connector".into()), false, || loop {
                match stdshim::net::TcpStream::connect(ADDR) {
                    Ok(s) => return drop(s),
                    Err(_) => stdshim::net::__await_listener(ADDR),
                }
            });
            let r = Connection::listen(ADDR).expect("listen");
            let _ = h.join();
            r
        }
    }
}

pub type Check = Rc<dyn Fn(&Scenario, &Obs, &End) -> Result<(), String>>;

pub fn setup(sc: &Scenario, check: Check) -> (Box<dyn FnOnce()>, Oracle) {
    canon::begin(spec(sc));
    let sc = Rc::new(sc.clone());
    let sh = Rc::new(Shared {
        obs: RefCell::default(),
        flags: (0..flag_count(&sc.peer, &sc.app))
            .map(|_| Flag { obj: mcrt::new_obj("flag"), set: Cell::new(false), known: RefCell::default() })
            .collect(),
        up: RefCell::default(),
        down: RefCell::default(),
        peer_tx: RefCell::default(),
        peer_rx: RefCell::default(),
    });
    let (s2, c2) = (sh.clone(), sc.clone());
    let open = open_link(sc.link, move |up, down| wire(&s2, &c2, up, down));
    let (s3, c3) = (sh.clone(), sc.clone());
    let main = move || {
        let (conn, io) = open();
        for (k, p) in c3.peer.iter().enumerate() {
            let (s, p) = (s3.clone(), p.clone());
            mcrt::spawn(Some(format!("peer{k}")), false, move || peer_run(s, k, p));
        }
        let mut others = Vec::new();
        for (k, a) in c3.app.iter().enumerate().skip(1) {
            let sends = a.iter().any(|o| matches!(o, A::Send(..) | A::Insist(_) | A::Serve | A::ServeAs(_) | A::Initialize | A::HandleShutdown));
            let recvs = a.iter().any(|o| matches!(o, A::Recv | A::RecvAll | A::TryRecv | A::RecvTimeout(_) | A::Serve | A::ServeAs(_) | A::Initialize | A::HandleShutdown));
            let c = Connection {
                sender: if sends { conn.sender.clone() } else { bsp_server_channel::unbounded().0 },
                receiver: if recvs { conn.receiver.clone() } else { bsp_server_channel::never() },
            };
            others.push((k, c, a.clone()));
        }
        for (k, c, a) in others {
            let sh = s3.clone();
            mcrt::spawn(Some(format!("app{k}")), false, move || {
                App { sh, k, conn: Some(c), io: None, known: BTreeSet::new() }.run(a)
            });
        }
        App { sh: s3, k: 0, conn: Some(conn), io: Some(io), known: BTreeSet::new() }.run(c3.app[0].clone());
    };
    let oracle = move |end: &End| {
        let mut o = std::mem::take(&mut *sh.obs.borrow_mut());
        let (up, down) = (sh.up.borrow(), sh.down.borrow());
        if let (Some(up), Some(down)) = (up.as_ref(), down.as_ref()) {
            o.written = up.written();
            o.consumed = down.consumed();
            o.in_written = down.written();
            o.failed_reads = down.failed_reads();
            o.failed_writes = up.failed_writes();
        }
        let r = check(&sc, &o, end);
        let out = outcome(&o, end);
        canon::seen(canonical(&sc, &o));
        // The pipes' ends are released outside the execution.
        drop((up, down));
        sh.peer_tx.borrow_mut().take();
        sh.peer_rx.borrow_mut().take();
        r.map(|()| out)
    };
    (Box::new(main), Box::new(oracle))
}

/// What anybody can see of an execution, on the real system too.
fn canonical(sc: &Scenario, o: &Obs) -> Value {
    let per = |k: usize| {
        let recvd: Vec<&Value> = o.recvd.iter().filter(|r| r.thread == k).map(|r| &r.what).collect();
        let sends: Vec<Value> = o
            .sends
            .iter()
            .filter(|s| s.thread == k)
            .map(|s| match &s.result {
                Sent::Ok => json!([s.name, "ok"]),
                Sent::Back { waited, same } => json!([s.name, "back", waited, same]),
                Sent::Never => json!([s.name, "never"]),
            })
            .collect();
        json!({
            "received": recvd, "sends": sends,
            "disconnected": o.disconnected.iter().filter(|d| **d == k).count(),
            "timeouts": o.recv_timeouts.iter().filter(|d| d.0 == k).count(),
        })
    };
    let (frames, rest) = split_output(&o.written).unwrap_or_else(|e| (vec![json!(e)], vec![]));
    json!({
        "app": (0..sc.app.len()).map(per).collect::<Vec<_>>(),
        "join": o.join.as_ref().map(|j| j.as_ref().map_or_else(|e| format!("{:?}", e.0), |_| "ok".into())),
        "frames": frames, "rest": show(&rest), "calls": o.calls,
        "finished": o.finished.iter().filter(|f| f.starts_with("app")).collect::<Vec<_>>(),
    })
}

/// The scenario as the real system can have it, if it can.
fn spec(sc: &Scenario) -> Option<Spec> {
    let deaf = sc.peer.iter().flatten().any(|p| matches!(p, P::CloseRx)) && sc.link != Link::Stdio;
    if deaf || sc.out_cap < 65536 || sc.in_cap < 65536 {
        return None;
    }
    // Too much, or too long, to be run for real.
    let ops = || sc.app.iter().flatten();
    let much = sc.preload.len() > 200_000
        || ops().count() + sc.peer.iter().flatten().count() > 100
        || ops().any(|a| matches!(a, A::Send(n, _) if n.strip_prefix("big").is_some_and(|k| k.len() > 5)))
        || ops().any(|a| matches!(a, A::Sleep(n) if *n > 1_000_000))
        || sc.peer.iter().flatten().any(|p| matches!(p, P::Sleep(n) if *n > 1_000_000));
    if much {
        return None;
    }
    Some(Spec::Session {
        link: sc.link,
        preload: sc.preload.clone(),
        closed: sc.preload_closed,
        peer: sc.peer.clone(),
        app: sc.app.clone(),
        reads: calls(&sc.renv)?,
        writes: calls(&sc.wenv)?,
    })
}

fn calls(e: &Env) -> Option<Calls> {
    if e.budget > 0 && !e.quirks.is_empty() {
        return None;
    }
    let at = |q: &Quirk| {
        Some(match q {
            Quirk::Zero => (1, 0),
            Quirk::Short(n) => (2, *n as i64),
            Quirk::Fail(k) => {
                let n = match k {
                    ErrorKind::Interrupted => 4,
                    ErrorKind::WouldBlock => 11,
                    ErrorKind::PermissionDenied => 13,
                    ErrorKind::BrokenPipe => 32,
                    ErrorKind::ConnectionReset => 104,
                    ErrorKind::TimedOut => 110,
                    _ => return None,
                };
                (0, n)
            }
        })
    };
    let mut out = Calls { max: e.max.unwrap_or(0), cuts: e.cuts.clone(), at: vec![] };
    for (call, q) in &e.at {
        let (what, arg) = at(q)?;
        out.at.push((*call, what, arg));
    }
    Some(out)
}

/// What an execution looked like from outside.
fn outcome(o: &Obs, end: &End) -> u64 {
    let mut h = mcrt::mix(o.written.len() as u64, o.consumed as u64);
    for r in &o.recvd {
        h = mcrt::mix(h, mcrt::mix(r.thread as u64, mcrt::hash_str(&r.what.to_string())));
    }
    for s in &o.sends {
        h = mcrt::mix(h, mcrt::hash_str(&format!("{:?}", (s.thread, s.name, &s.result, s.end))));
    }
    h = mcrt::mix(h, mcrt::hash_str(&format!("{:?}", (&o.join, &o.disconnected, o.written_at_join, &o.calls))));
    mcrt::mix(h, end.clock)
}

// ---------------------------------------------------------------------------------------------
// Invariants
// ---------------------------------------------------------------------------------------------

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
pub(crate) use ensure;

/// No thread of the library, and no call of the application into it, panics.
pub fn no_panic(_: &Scenario, _: &Obs, end: &End) -> Result<(), String> {
    match end.panics.first() {
        Some(p) => Err(format!("thread {} panicked: {}", p.task, p.message)),
        None => match end.exit {
            Some(c) => Err(format!("the process ended with status {c}")),
            None => Ok(()),
        },
    }
}

/// Everything ends; nothing is left waiting but what the scenario allows.
pub fn all_done(sc: &Scenario, _: &Obs, end: &End) -> Result<(), String> {
    ensure!(!end.livelock, "no end in sight after {} steps", end.steps);
    for (name, library, what) in &end.blocked {
        // Standard output has no end as long as the process lives.
        let drains = name
            .strip_prefix("peer")
            .and_then(|k| sc.peer.get(k.parse::<usize>().ok()?))
            .is_some_and(|p| matches!(p.last(), Some(P::Drain)));
        if sc.link == Link::Stdio && drains && what.starts_with("read ") {
            continue;
        }
        let label = if *library { "library" } else { name.as_str() };
        ensure!(
            sc.may_block.iter().any(|b| *b == label || *b == name),
            "{}{name} is blocked for ever: {what}",
            if *library { "library thread " } else { "" }
        );
    }
    Ok(())
}

/// The application's script ran to its end.
pub fn app_done(sc: &Scenario, o: &Obs, _: &End) -> Result<(), String> {
    for k in 0..sc.app.len() {
        ensure!(o.finished.contains(&format!("app{k}")), "application thread {k} did not finish");
    }
    Ok(())
}

/// Received messages are those the peer sent: in order, once, unaltered, and all of them before
/// disconnection is reported.
pub fn inbound(sc: &Scenario, o: &Obs, _: &End) -> Result<(), String> {
    let want: Vec<Value> = sc.expect.iter().map(|n| describe_json(&incoming(n))).collect();
    inbound_values(&want, sc, o)
}

pub fn inbound_values(want: &[Value], sc: &Scenario, o: &Obs) -> Result<(), String> {
    let mut used = vec![false; want.len()];
    for k in 0..sc.app.len() {
        let mut at = 0;
        for r in o.recvd.iter().filter(|r| r.thread == k) {
            match (at..want.len()).find(|&i| !used[i] && want[i] == r.what) {
                Some(i) => {
                    used[i] = true;
                    at = i + 1;
                }
                None => {
                    return Err(format!(
                        "received {} which the peer did not send (here, once, in this order); received in all: {:?}",
                        r.what,
                        o.recvd.iter().map(|r| r.what.to_string()).collect::<Vec<_>>()
                    ))
                }
            }
        }
    }
    // What was received is a prefix of what was sent.
    let n = used.iter().filter(|u| **u).count();
    ensure!(used[..n].iter().all(|u| *u), "received {:?} of {:?}: one was skipped", used, want);
    if !o.disconnected.is_empty() && o.failed_reads == 0 {
        ensure!(n == want.len(), "disconnected after {n} of {} messages", want.len());
        ensure!(sc.in_end != InEnd::Open, "disconnected while the stream is open");
    }
    Ok(())
}

/// The bytes on the wire are the frames of the accepted messages, each once, in an order that respects
/// who sent what after what.
pub fn outbound(sc: &Scenario, o: &Obs, _: &End) -> Result<(), String> {
    outbound_(sc, o, o.failed_writes == 0)
}

fn outbound_(_: &Scenario, o: &Obs, whole: bool) -> Result<(), String> {
    let (frames, rest) = split_output(&o.written)?;
    let mut position: BTreeMap<usize, usize> = BTreeMap::new();
    let wire: Vec<Value> = o.sends.iter().map(|s| on_wire(&outgoing(s.name).1)).collect();
    for (at, f) in frames.iter().enumerate() {
        let i = (0..o.sends.len())
            .filter(|i| !position.contains_key(i) && wire[*i] == *f)
            .min_by_key(|i| !matches!(o.sends[*i].result, Sent::Ok) as u8);
        match i {
            Some(i) => {
                ensure!(
                    o.sends[i].result == Sent::Ok || o.sends[i].result == Sent::Never,
                    "a message whose send failed was written: {f}"
                );
                position.insert(i, at);
            }
            None => return Err(format!("the peer got a message nobody sent (once): {f}")),
        }
    }
    for (i, s) in o.sends.iter().enumerate() {
        if let Some(p) = position.get(&i) {
            for b in &s.before {
                // Identical messages are interchangeable.
                if let (Some(q), true) = (position.get(b), o.sends[*b].name != s.name) {
                    ensure!(q < p, "{} was sent after {} but written before it", s.name, o.sends[*b].name);
                }
            }
        }
    }
    if !rest.is_empty() {
        let fits = (0..o.sends.len()).any(|i| {
            !position.contains_key(&i)
                && matches!(o.sends[i].result, Sent::Ok | Sent::Never)
                && calibrated(o.sends[i].name).starts_with(&rest)
        });
        ensure!(fits, "what reached the peer is no beginning of a frame of an accepted message: {:?}", show(&rest));
    }
    if whole {
        for (i, s) in o.sends.iter().enumerate() {
            if s.result == Sent::Ok {
                ensure!(
                    position.contains_key(&i),
                    "{} was accepted but not written; on the wire: {:?}",
                    s.name,
                    show(&o.written)
                );
            }
        }
        ensure!(rest.is_empty(), "an incomplete frame is left on the wire: {:?}", show(&rest));
    }
    Ok(())
}

/// Once joining has returned everything accepted is on the wire, unless writing failed: what standard
/// output's buffer holds then is written when the process ends, if at all.
pub fn joined_means_written(_: &Scenario, o: &Obs, _: &End) -> Result<(), String> {
    if o.join.is_some() && o.failed_writes == 0 {
        ensure!(
            o.written_at_join == o.written.len(),
            "{} bytes were written after joining had returned",
            o.written.len() - o.written_at_join
        );
    }
    Ok(())
}

/// Joining reports failure exactly when a direction failed.
pub fn join_tells(sc: &Scenario, o: &Obs, _: &End) -> Result<(), String> {
    if let Some(r) = &o.join {
        let failed = o.failed_reads > 0 || o.failed_writes > 0 || sc.in_end == InEnd::Error;
        match r {
            Ok(()) => ensure!(!failed, "joining reports success although a direction failed"),
            Err(e) => ensure!(failed, "joining reports {e:?} although nothing failed"),
        }
    }
    Ok(())
}

/// A send's result is true, and a timed one keeps to its time.
pub fn send_outcomes(sc: &Scenario, o: &Obs, _: &End) -> Result<(), String> {
    for s in &o.sends {
        if let Sent::Back { same, .. } = &s.result {
            ensure!(same, "a failed send handed back another message than {}", s.name);
        }
        if let Sent::Back { waited: false, .. } = &s.result {
            ensure!(o.failed_writes > 0, "sending {} failed although writing works", s.name);
        }
        if s.result == Sent::Never {
            continue;
        }
        match s.how {
            How::Try | How::Past if sc.loose_time => {}
            How::Ever => ensure!(!matches!(s.result, Sent::Back { waited: true, .. }), "a send that may take for ever gave up"),
            How::Try | How::Past => ensure!(s.start == s.end, "a non-blocking send took {} ns", s.end - s.start),
            How::Timeout(n) | How::Deadline(n) => {
                let t = s.end - s.start;
                match s.result {
                    Sent::Back { waited: true, .. } => {
                        ensure!(t >= n && (t == n || sc.loose_time), "a send limited to {n} ns gave up after {t} ns")
                    }
                    _ => ensure!(t <= n || sc.loose_time, "a send limited to {n} ns took {t} ns"),
                }
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn all(checks: Vec<fn(&Scenario, &Obs, &End) -> Result<(), String>>) -> Check {
    Rc::new(move |s, o, e| {
        for c in &checks {
            c(s, o, e)?;
        }
        Ok(())
    })
}

thread_local! {
    static FRAMES: RefCell<BTreeMap<String, Rc<Vec<u8>>>> = RefCell::default();
}

/// The frame the library writes for a message when nothing goes wrong.
pub fn calibrated(name: &str) -> Rc<Vec<u8>> {
    if let Some(f) = FRAMES.with(|f| f.borrow().get(name).cloned()) {
        return f;
    }
    let got: Rc<RefCell<Vec<u8>>> = Rc::default();
    let g = got.clone();
    let n: &'static str = Box::leak(name.to_string().into_boxed_str());
    let sc = Scenario::new(Link::Connect).closing().app(vec![A::Send(n, How::Block), A::DropConn, A::Join]);
    let check: Check = Rc::new(move |_, o, _| {
        *g.borrow_mut() = o.written.clone();
        Ok(())
    });
    let cfg = mcrt::explore::Config { schedules: false, ..Default::default() };
    let _ = canon::aside(|| mcrt::explore::explore(&cfg, &|| setup(&sc, check.clone())));
    let f = Rc::new(got.borrow().clone());
    FRAMES.with(|m| m.borrow_mut().insert(name.to_string(), f.clone()));
    f
}
