//! Runs scenarios on the real system - real threads, real channels, real sockets and pipes - and
//! compares what is seen with what the explorer found possible.

#[path = "../../explore/src/msgs.rs"]
#[allow(dead_code)]
pub mod msgs;
#[path = "../../explore/src/script.rs"]
#[allow(dead_code)]
pub mod script;

use bsp_server::{Connection, IoThreads, Message};
use crossbeam_channel::{RecvTimeoutError, SendTimeoutError, TryRecvError, TrySendError};
use msgs::*;
use script::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::fs::File;
use std::io::{Read, Write};
use std::mem::ManuallyDrop;
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::fd::{AsRawFd, FromRawFd};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc;
use std::sync::{Arc, Condvar, Mutex};
use std::thread;
use std::time::{Duration, Instant};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
}

/// How much longer than usual to wait where nothing tells when to go on.
static PATIENCE: AtomicU64 = AtomicU64::new(1);

/// The scripts' units of time are short here.
fn units(n: u64) -> Duration {
    Duration::from_millis((n * 5).min(60) * PATIENCE.load(SeqCst))
}

// ---------------------------------------------------------------------------------------------
// The process that runs one scenario
// ---------------------------------------------------------------------------------------------

/// Calls into `fault.c`, if it is loaded.
fn fault(name: &str, args: &[i64]) -> bool {
    let name = format!("{name}\0");
    // Safe for every function of fault.c: they take integers only.
    unsafe {
        let f = dlsym(std::ptr::null_mut(), name.as_ptr());
        if f.is_null() {
            return false;
        }
        let f: extern "C" fn(i64, i64, i64, i64) = std::mem::transmute(f);
        let a = |k: usize| args.get(k).copied().unwrap_or(0);
        f(a(0), a(1), a(2), a(3));
    }
    true
}

#[derive(Default)]
struct Flag {
    set: Mutex<bool>,
    cv: Condvar,
}
impl Flag {
    fn raise(&self) {
        *self.set.lock().unwrap() = true;
        self.cv.notify_all();
    }
    fn wait(&self) {
        let mut g = self.set.lock().unwrap();
        while !*g {
            g = self.cv.wait(g).unwrap();
        }
    }
}

enum Tx {
    Pipe(std::io::PipeWriter),
    Tcp(TcpStream),
}
enum Rx {
    Pipe(std::io::PipeReader),
    Tcp(TcpStream),
}

#[derive(Default)]
struct Got {
    bytes: Vec<u8>,
    ended: bool,
}

struct World {
    flags: Vec<Flag>,
    got: Mutex<Got>,
    more: Condvar,
    tx: Mutex<Option<Tx>>,
    deaf: AtomicBool,
    last: Mutex<Instant>,
    late: u64,
}

impl World {
    fn write(&self, b: &[u8]) {
        match &mut *self.tx.lock().unwrap() {
            Some(Tx::Pipe(p)) => drop(p.write_all(b)),
            Some(Tx::Tcp(p)) => drop(p.write_all(b)),
            None => {}
        }
    }
    fn close(&self) {
        match self.tx.lock().unwrap().take() {
            Some(Tx::Tcp(s)) => drop(s.shutdown(Shutdown::Write)),
            other => drop(other),
        }
    }
    /// Everything is read as soon as it comes.
    fn collect(&self, rx: Rx) {
        let mut buf = [0u8; 65536];
        let mut rx = Some(rx);
        loop {
            let n = match rx.as_mut().unwrap() {
                Rx::Pipe(p) => p.read(&mut buf),
                Rx::Tcp(p) => p.read(&mut buf),
            };
            *self.last.lock().unwrap() = Instant::now();
            let mut g = self.got.lock().unwrap();
            match n {
                Ok(n) if n > 0 => g.bytes.extend(&buf[..n]),
                _ => g.ended = true,
            }
            self.more.notify_all();
            if g.ended {
                return;
            }
        }
    }
    fn peer(&self, script: Vec<P>, rx: &Mutex<Option<Rx>>) {
        for op in script {
            if self.late == 1 {
                thread::sleep(Duration::from_millis(3 * PATIENCE.load(SeqCst)));
            }
            match op {
                P::Msg(n) => self.write(&incoming_frame(n)),
                P::Raw(b) => self.write(&b),
                P::Close => self.close(),
                P::CloseRx => {
                    self.deaf.store(true, SeqCst);
                    drop(rx.lock().unwrap().take());
                }
                P::Frames(n) => {
                    let mut g = self.got.lock().unwrap();
                    while !g.ended && split_output(&g.bytes).map_or(0, |f| f.0.len()) < n {
                        g = self.more.wait(g).unwrap();
                    }
                }
                P::Drain => {}
                P::Signal(i) => self.flags[i as usize].raise(),
                P::Await(i) => self.flags[i as usize].wait(),
                P::Sleep(n) => thread::sleep(units(n)),
            }
        }
    }
}

#[derive(Default)]
struct Seen {
    received: Vec<Value>,
    sends: Vec<Value>,
    disconnected: usize,
    timeouts: usize,
}

struct App {
    w: Arc<World>,
    conn: Option<Connection>,
    io: Option<IoThreads>,
    seen: Seen,
    calls: Arc<Mutex<Vec<Value>>>,
    join: Arc<Mutex<Option<String>>>,
}

impl App {
    fn take(&mut self, r: Result<Message, bool>) -> bool {
        match r {
            Ok(m) => {
                self.seen.received.push(describe(&m));
                true
            }
            Err(gone) => {
                if gone {
                    self.seen.disconnected += 1;
                } else {
                    self.seen.timeouts += 1;
                }
                false
            }
        }
    }

    fn send(&mut self, name: &'static str, how: How) -> bool {
        let (m, _) = outgoing(name);
        let want = describe(&m);
        let c = self.conn.as_ref().expect("a connection");
        let back = |m: Message, waited: bool| (describe(&m) == want, waited);
        let r = match how {
            How::Block => c.send(m).map_err(|e| back(e.0, false)),
            How::Channel => c.sender.send(m).map_err(|e| back(e.0, false)),
            How::Try => c.try_send(m).map_err(|e| match e {
                TrySendError::Full(m) => back(m, true),
                TrySendError::Disconnected(m) => back(m, false),
            }),
            How::Ever => c.send_timeout(m, Duration::MAX).map_err(|e| match e {
                SendTimeoutError::Timeout(m) => back(m, true),
                SendTimeoutError::Disconnected(m) => back(m, false),
            }),
            How::Past => c.send_deadline(m, Instant::now() - Duration::from_secs(60)).map_err(|e| match e {
                SendTimeoutError::Timeout(m) => back(m, true),
                SendTimeoutError::Disconnected(m) => back(m, false),
            }),
            How::Timeout(n) => c.send_timeout(m, units(n)).map_err(|e| match e {
                SendTimeoutError::Timeout(m) => back(m, true),
                SendTimeoutError::Disconnected(m) => back(m, false),
            }),
            How::Deadline(n) => c.send_deadline(m, Instant::now() + units(n)).map_err(|e| match e {
                SendTimeoutError::Timeout(m) => back(m, true),
                SendTimeoutError::Disconnected(m) => back(m, false),
            }),
        };
        let again = matches!(r, Err((_, true)));
        self.seen.sends.push(match r {
            Ok(()) => json!([name, "ok"]),
            Err((same, waited)) => json!([name, "back", waited, same]),
        });
        again
    }

    fn run(mut self, script: Vec<A>) -> Seen {
        for op in script {
            if self.w.late == 2 {
                thread::sleep(Duration::from_millis(3 * PATIENCE.load(SeqCst)));
            }
            match op {
                A::Recv => {
                    let r = self.conn.as_ref().unwrap().receiver.recv().map_err(|_| true);
                    self.take(r);
                }
                A::TryRecv => {
                    let r = self.conn.as_ref().unwrap().receiver.try_recv();
                    self.take(r.map_err(|e| matches!(e, TryRecvError::Disconnected)));
                }
                A::RecvTimeout(n) => {
                    let r = self.conn.as_ref().unwrap().receiver.recv_timeout(units(n));
                    self.take(r.map_err(|e| matches!(e, RecvTimeoutError::Disconnected)));
                }
                A::RecvAll => loop {
                    let r = self.conn.as_ref().unwrap().receiver.recv().map_err(|_| true);
                    if !self.take(r) {
                        break;
                    }
                },
                A::Send(n, how) => drop(self.send(n, how)),
                A::Insist(n) => {
                    while self.send(n, How::Try) {
                        thread::sleep(Duration::from_millis(1));
                    }
                }
                A::Initialize => {
                    let r = initialize(self.conn.as_ref().unwrap());
                    self.calls.lock().unwrap().push(r);
                }
                A::HandleShutdown => {
                    let c = self.conn.as_ref().unwrap();
                    let r = match c.receiver.recv() {
                        Ok(Message::Request(r)) => match c.handle_shutdown(&r) {
                            Ok(b) => json!({"shutdown": b}),
                            Err(e) => json!({"shutdown error": e.to_string()}),
                        },
                        other => json!({"no request": format!("{other:?}")}),
                    };
                    self.calls.lock().unwrap().push(r);
                }
                A::Serve => {
                    let r = serve(self.conn.take().unwrap());
                    self.calls.lock().unwrap().push(r);
                }
                A::ServeAs(k) => {
                    let r = crate::serve::serve_as(self.conn.take().unwrap(), k);
                    self.calls.lock().unwrap().push(r);
                }
                A::DropSender => {
                    let Connection { sender, receiver } = self.conn.take().unwrap();
                    drop(sender);
                    self.conn = Some(Connection { sender: crossbeam_channel::unbounded().0, receiver });
                }
                A::DropReceiver => {
                    let Connection { sender, receiver } = self.conn.take().unwrap();
                    drop(receiver);
                    self.conn = Some(Connection { sender, receiver: crossbeam_channel::never() });
                }
                A::DropConn => drop(self.conn.take()),
                A::Join => {
                    let r = self.io.take().expect("io threads").join();
                    *self.join.lock().unwrap() = Some(r.map_or_else(|e| format!("{:?}", e.kind()), |_| "ok".into()));
                }
                A::Signal(i) => self.w.flags[i as usize].raise(),
                A::Await(i) => self.w.flags[i as usize].wait(),
                A::Sleep(n) => thread::sleep(units(n)),
            }
        }
        self.seen
    }
}

fn initialize(c: &Connection) -> Value {
    let mut called = vec![];
    let r = c.initialize(|p| {
        called.push(serde_json::to_value(p).unwrap());
        json!({"answer": 1, "to": p.display_name()})
    });
    match r {
        Ok(p) => json!({"initialized": p, "called": called}),
        Err(e) => json!({"error": !e.to_string().is_empty(), "called": called}),
    }
}

fn serve(conn: Connection) -> Value {
    use bsp_server::types::*;
    use bsp_server::{Request::*, Response};
    for msg in &conn.receiver {
        if let Message::Request(req) = msg {
            let r = match req {
                Shutdown(_) => {
                    return match conn.handle_shutdown(&req) {
                        Ok(true) => json!("served"),
                        Ok(false) => json!("not shut down"),
                        Err(e) => json!(e.to_string()),
                    };
                }
                WorkspaceBuildTargets(id) => conn.send((id, WorkspaceBuildTargetsResult::default())),
                BuildTargetSources(id, _) => conn.send((id, BuildTargetSourcesResult::default())),
                _ => conn.send(Response::method_not_found(req.id().clone(), "".into())),
            };
            if r.is_err() {
                return json!("sending failed");
            }
        }
    }
    json!("disconnected")
}

/// Reads a scenario from standard input, runs it, writes what was seen to standard output.
pub fn session(late: u64, patience: u64) {
    PATIENCE.store(patience, SeqCst);
    let mut text = String::new();
    let mut stdin = ManuallyDrop::new(unsafe { File::from_raw_fd(0) });
    stdin.read_to_string(&mut text).expect("a scenario");
    let mut result = unsafe { File::from_raw_fd(dup(1)) };
    let Spec::Session { link, preload, closed, peer, app, reads, writes } = serde_json::from_str(&text).expect("a scenario") else {
        panic!("no session")
    };
    for (d, c) in [&reads, &writes].into_iter().enumerate() {
        let d = d as i64;
        fault("mcf_max", &[d, c.max as i64]);
        for x in &c.cuts {
            fault("mcf_cut", &[d, *x as i64]);
        }
        for (call, what, arg) in &c.at {
            fault("mcf_at", &[d, *call as i64, *what as i64, *arg]);
        }
    }
    let w = Arc::new(World {
        flags: (0..flag_count(&peer, &app)).map(|_| Flag::default()).collect(),
        got: Mutex::default(),
        more: Condvar::new(),
        tx: Mutex::default(),
        deaf: AtomicBool::new(false),
        last: Mutex::new(Instant::now()),
        late,
    });
    let rx: Arc<Mutex<Option<Rx>>> = Arc::default();
    let pid = std::process::id();
    let host = format!("127.{}.{}.{}", 1 + pid / 62500 % 200, 1 + pid / 250 % 250, 1 + pid % 250);
    // The peer's ends, and what there is before the library looks.
    let (ready, wait) = mpsc::channel::<()>();
    let begin = {
        let (w, rx) = (w.clone(), rx.clone());
        move |tx: Tx, r: Rx| {
            *w.tx.lock().unwrap() = Some(tx);
            let early = preload.len() < 60_000;
            if !early {
                fault("mcf_go", &[]);
            }
            w.write(&preload);
            if closed {
                w.close();
            }
            *rx.lock().unwrap() = Some(r);
            // Let it arrive.
            thread::sleep(Duration::from_micros(300 * patience));
            fault("mcf_go", &[]);
            let _ = ready.send(());
        }
    };
    let (conn, io) = match link {
        Link::Stdio => {
            let (r0, w0) = std::io::pipe().unwrap();
            let (r1, w1) = std::io::pipe().unwrap();
            unsafe {
                dup2(r0.as_raw_fd(), 0);
                dup2(w1.as_raw_fd(), 1);
            }
            drop((r0, w1));
            fault("mcf_side", &[2]);
            let h = thread::spawn(move || begin(Tx::Pipe(w0), Rx::Pipe(r1)));
            let c = Connection::stdio();
            h.join().unwrap();
            c
        }
        Link::Connect => {
            fault("mcf_side", &[0]);
            let l = TcpListener::bind((host.as_str(), 0)).unwrap();
            let addr = l.local_addr().unwrap();
            let h = thread::spawn(move || {
                let s = l.accept().unwrap().0;
                begin(Tx::Tcp(s.try_clone().unwrap()), Rx::Tcp(s));
            });
            let c = Connection::connect(addr).expect("connect");
            h.join().unwrap();
            c
        }
        Link::Listen => {
            fault("mcf_side", &[1]);
            let l = TcpListener::bind((host.as_str(), 0)).unwrap();
            let addr = l.local_addr().unwrap();
            drop(l);
            let h = thread::spawn(move || loop {
                match TcpStream::connect(addr) {
                    Ok(s) => {
                        begin(Tx::Tcp(s.try_clone().unwrap()), Rx::Tcp(s));
                        return;
                    }
                    Err(_) => thread::sleep(Duration::from_micros(200)),
                }
            });
            let c = Connection::listen(addr).expect("listen");
            h.join().unwrap();
            c
        }
    };
    wait.recv().unwrap();
    let deaf = peer.iter().flatten().any(|p| matches!(p, P::CloseRx));
    if !deaf {
        let r = rx.lock().unwrap().take().unwrap();
        let w = w.clone();
        thread::spawn(move || w.collect(r));
    }
    for p in peer {
        let (w, rx) = (w.clone(), rx.clone());
        thread::spawn(move || w.peer(p, &rx));
    }
    let calls: Arc<Mutex<Vec<Value>>> = Arc::default();
    let join: Arc<Mutex<Option<String>>> = Arc::default();
    let make = |conn, io| App { w: w.clone(), conn: Some(conn), io, seen: Seen::default(), calls: calls.clone(), join: join.clone() };
    let mut others = vec![];
    for a in app.iter().skip(1) {
        let sends = a.iter().any(|o| matches!(o, A::Send(..) | A::Insist(_) | A::Serve | A::ServeAs(_) | A::Initialize | A::HandleShutdown));
        let recvs = a.iter().any(|o| matches!(o, A::Recv | A::RecvAll | A::TryRecv | A::RecvTimeout(_) | A::Serve | A::ServeAs(_) | A::Initialize | A::HandleShutdown));
        let c = Connection {
            sender: if sends { conn.sender.clone() } else { crossbeam_channel::unbounded().0 },
            receiver: if recvs { conn.receiver.clone() } else { crossbeam_channel::never() },
        };
        others.push((make(c, None), a.clone()));
    }
    let first = make(conn, Some(io));
    let hs: Vec<_> = others.into_iter().map(|(a, s)| thread::spawn(move || a.run(s))).collect();
    let mut seen = vec![first.run(app[0].clone())];
    for h in hs {
        seen.push(h.join().expect("an application thread"));
    }
    let joined = join.lock().unwrap().is_some();
    // Buffers are written out when a process ends.
    let (done, flushed) = mpsc::channel();
    if link == Link::Stdio {
        thread::spawn(move || {
            let _ = std::io::stdout().flush();
            let _ = done.send(());
        });
        let _ = flushed.recv_timeout(Duration::from_millis(30 * patience));
        let null = File::options().write(true).open("/dev/null").unwrap();
        if joined {
            unsafe { dup2(null.as_raw_fd(), 1) };
        }
    }
    // What has been written may not have been collected yet; behind a joined standard output the
    // end is sure to come.
    let begin = Instant::now();
    let until = begin + Duration::from_secs(3 + patience);
    let still = Duration::from_millis(patience * if joined && link == Link::Stdio { 400 } else { 40 });
    while !deaf && !w.got.lock().unwrap().ended && Instant::now() < until {
        if w.last.lock().unwrap().max(begin).elapsed() > still {
            break;
        }
        thread::sleep(Duration::from_millis(1));
    }
    let got = w.got.lock().unwrap();
    let (frames, rest) = split_output(&got.bytes).unwrap_or_else(|e| (vec![json!(e)], vec![]));
    let names: Vec<String> = (0..seen.len()).map(|k| format!("app{k}")).collect();
    let v = json!([{
        "app": seen.into_iter().map(|s| json!({
            "received": s.received, "sends": s.sends, "disconnected": s.disconnected, "timeouts": s.timeouts,
        })).collect::<Vec<_>>(),
        "join": *join.lock().unwrap(), "frames": frames, "rest": show(&rest), "calls": *calls.lock().unwrap(),
        "finished": names,
    }]);
    writeln!(result, "{v}").unwrap();
    drop(result);
    std::process::exit(0);
}

fn in_process(spec: &str, late: u64, patience: u64) -> Result<Value, String> {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["session", &late.to_string(), &patience.to_string()]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    if let Some(f) = std::env::var_os("FAULT_SO") {
        c.env("LD_PRELOAD", f);
    }
    let mut c = c.spawn().map_err(|e| e.to_string())?;
    let mut to = c.stdin.take().unwrap();
    let text = spec.to_string();
    thread::spawn(move || to.write_all(text.as_bytes()));
    let mut from = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || {
        let mut s = String::new();
        let _ = from.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    let out = rx.recv_timeout(Duration::from_secs(15 + patience));
    let _ = c.kill();
    let status = c.wait();
    match out {
        Ok(s) => serde_json::from_str(&s).map_err(|_| format!("the process ended with {status:?}")),
        Err(_) => Ok(json!("it does not end")),
    }
}

// ---------------------------------------------------------------------------------------------
// Calls that need no process of their own
// ---------------------------------------------------------------------------------------------

fn message(name: &str) -> Message {
    serde_json::from_value(on_wire(&incoming(name))).unwrap()
}

fn answer(m: &Message) -> Value {
    let d = describe(m);
    if d["kind"] != "response" {
        return json!({"not a response": d});
    }
    match (d.get("result"), d.get("error")) {
        (Some(r), None) => json!({"id": d["id"], "result": r}),
        (None, Some(e)) => json!({"id": d["id"], "code": e["code"]}),
        _ => json!({"both or neither": d}),
    }
}

fn pair(ops: &[(String, usize)], how: usize) -> Value {
    let (a, b) = Connection::memory();
    let mut side = [Some(a), Some(b)];
    let mut sending = [true, true];
    let mut receiving = [true, true];
    // Whether a blocking receive is safe: the number of messages on their way to each side.
    let mut queued = [0usize; 2];
    let mut out = vec![];
    for (n, (op, k)) in ops.iter().enumerate() {
        let k = *k;
        match op.as_str() {
            "send" if sending[k] => {
                let m = message(["req", "note", "resp", "exit", "big2000", "n5", "err"][n % 7]);
                let s = side[k].as_ref().unwrap();
                let late = |e| match e {
                    SendTimeoutError::Timeout(m) => (m, true),
                    SendTimeoutError::Disconnected(m) => (m, false),
                };
                let now = Instant::now();
                let r = match (how + n) % 8 {
                    0 => s.send(m).map_err(|e| (e.0, false)),
                    1 => s.try_send(m).map_err(|e| match e {
                        TrySendError::Full(m) => (m, true),
                        TrySendError::Disconnected(m) => (m, false),
                    }),
                    2 => s.send_timeout(m, Duration::ZERO).map_err(late),
                    3 => s.send_deadline(m, now).map_err(late),
                    4 => s.sender.send(m).map_err(|e| (e.0, false)),
                    5 => s.send_timeout(m, Duration::MAX).map_err(late),
                    6 => s.send_deadline(m, now - Duration::from_secs(60)).map_err(late),
                    _ => s.send_deadline(m, now + Duration::from_secs(1 << 40)).map_err(late),
                };
                queued[1 - k] += r.is_ok() as usize;
                out.push(match r {
                    Ok(()) => json!("sent"),
                    Err((m, full)) => json!(["back", describe(&m), full]),
                });
            }
            "recv" if receiving[k] => {
                let r = &side[k].as_ref().unwrap().receiver;
                let ready = queued[k] > 0 || !sending[1 - k];
                let got = match (how + n) % 3 {
                    0 if ready => r.recv().map_err(|_| "disconnected"),
                    1 => r.recv_timeout(Duration::ZERO).map_err(|e| match e {
                        RecvTimeoutError::Timeout => "empty",
                        RecvTimeoutError::Disconnected => "disconnected",
                    }),
                    _ => r.try_recv().map_err(|e| match e {
                        TryRecvError::Empty => "empty",
                        TryRecvError::Disconnected => "disconnected",
                    }),
                };
                queued[k] -= got.is_ok() as usize;
                out.push(got.map_or_else(|e| json!(e), |m| describe(&m)));
            }
            "drop sender" if sending[k] => {
                let Connection { sender, receiver } = side[k].take().unwrap();
                drop(sender);
                sending[k] = false;
                side[k] = Some(Connection { sender: crossbeam_channel::unbounded().0, receiver });
            }
            "drop receiver" if receiving[k] => {
                let Connection { sender, receiver } = side[k].take().unwrap();
                drop(receiver);
                receiving[k] = false;
                queued[k] = 0;
                side[k] = Some(Connection { sender, receiver: crossbeam_channel::never() });
            }
            _ => {}
        }
    }
    Value::Array(out)
}

fn handshake(names: &[String], end: &str) -> Value {
    let (client, server) = Connection::memory();
    let Connection { sender, receiver } = client;
    let keep = (!matches!(end, "Deaf" | "Gone")).then_some(receiver);
    for n in names {
        let _ = sender.send(message(n));
    }
    let sender = (!matches!(end, "Done" | "Gone")).then_some(sender);
    let r = initialize(&server);
    let sent: Vec<Value> = keep.iter().flat_map(|r| r.try_iter().map(|m| answer(&m)).collect::<Vec<_>>()).collect();
    let rest = server.receiver.try_iter().count();
    drop(sender);
    json!([{"result": r, "answers": sent}, {"rest": rest}])
}

fn shutdown(request: &Value, names: &[String], gone: bool) -> Value {
    let (client, server) = Connection::memory();
    let Connection { sender, receiver } = client;
    for n in names {
        let _ = sender.send(message(n));
    }
    let sender = (!gone).then_some(sender);
    let Ok(Message::Request(req)) = serde_json::from_value(request.clone()) else { return json!("no request") };
    let r = match server.handle_shutdown(&req) {
        Ok(b) => json!(b),
        Err(e) => json!({"error": !e.to_string().is_empty()}),
    };
    let got: Vec<Value> = receiver.try_iter().map(|m| answer(&m)).collect();
    let rest = server.receiver.try_iter().count();
    drop(sender);
    json!([[r, got, rest]])
}

fn address(listen: bool, addr: &str) -> Value {
    let taken = TcpListener::bind("127.0.0.1:0").unwrap();
    let free = TcpListener::bind("127.0.0.1:0").unwrap();
    let (t, f) = (taken.local_addr().unwrap().to_string(), free.local_addr().unwrap().to_string());
    drop(free);
    let addr = addr.replace("TAKEN", &t).replace("FREE", &f);
    let r = if listen { Connection::listen(addr.as_str()) } else { Connection::connect(addr.as_str()) };
    match r {
        Ok(_) => json!(["ok"]),
        Err(e) => json!([format!("{:?}", e.kind())]),
    }
}

fn observe(spec: &Value, late: u64, patience: u64) -> Result<Value, String> {
    let s: Spec = serde_json::from_value(spec.clone()).map_err(|e| e.to_string())?;
    if matches!(s, Spec::Session { .. }) {
        return in_process(&spec.to_string(), late, patience);
    }
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || {
        let r = std::panic::catch_unwind(|| match &s {
            Spec::Pair { ops, how } => pair(ops, *how),
            Spec::Handshake { names, end } => handshake(names, end),
            Spec::Shutdown { request, names, gone } => shutdown(request, names, *gone),
            Spec::Address { listen, addr } => address(*listen, addr),
            Spec::Session { .. } => unreachable!(),
        });
        let _ = tx.send(r.unwrap_or_else(|_| json!("panic")));
    });
    Ok(rx.recv_timeout(Duration::from_secs(10)).unwrap_or_else(|_| json!("it does not end")))
}

// ---------------------------------------------------------------------------------------------

/// Every scenario of the file, each several times.
pub fn check(file: &str, times: u64) -> (Value, i32) {
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(file).expect("scenarios");
    let all: Vec<Value> = text.lines().map(|l| serde_json::from_str(l).expect("a scenario")).collect();
    let next = AtomicUsize::new(0);
    struct Sum {
        runs: u64,
        agreed: u64,
        unexplained: Vec<Value>,
        reached: HashSet<String>,
        failure: Option<Value>,
        error: Option<String>,
    }
    let sum = Mutex::new(Sum { runs: 0, agreed: 0, unexplained: vec![], reached: HashSet::new(), failure: None, error: None });
    thread::scope(|s| {
        for _ in 0..2 * super::run::threads() {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                let Some(t) = all.get(i) else { break };
                if sum.lock().unwrap().failure.is_some() {
                    break;
                }
                let spec: Value = t["spec"].clone();
                let possible = t["seen"].as_array().unwrap();
                let session = spec.get("Session").is_some();
                let mut wrong = vec![];
                let mut k = 0;
                let goal = if session { times } else { 1 };
                while k < goal {
                    // A slow machine may make it miss what it waits for: it waits longer the next time.
                    let r = observe(&spec, k % 3, [1, 2, 5, 10, 20, 40][wrong.len()]);
                    let mut g = sum.lock().unwrap();
                    match r {
                        Err(e) => {
                            g.error = Some(e);
                            break;
                        }
                        Ok(v) => {
                            g.runs += 1;
                            if possible.contains(&v) {
                                g.agreed += 1;
                                g.reached.insert(format!("{i} {v}"));
                                k += 1;
                            } else {
                                wrong.push(v);
                                if wrong.len() > 5 {
                                    break;
                                }
                            }
                        }
                    }
                }
                if !wrong.is_empty() {
                    let mut g = sum.lock().unwrap();
                    let v = json!({
                        "job": t["job"], "case": t["case"], "input": spec.to_string(), "real": wrong.last(), "possible": possible,
                        "message": "the real system does what the exploration found impossible",
                        "scenario": t,
                    });
                    if wrong.len() > 5 && k == 0 && t["complete"] == true {
                        g.failure.get_or_insert(v);
                    } else {
                        g.unexplained.push(v);
                    }
                }
            });
        }
    });
    let s = sum.into_inner().unwrap();
    let code = if s.failure.is_some() {
        1
    } else if s.error.is_some() {
        3
    } else {
        0
    };
    let v = json!({
        "scenarios": all.len(), "runs": s.runs, "agreed": s.agreed, "outcomes": s.reached.len(),
        "possible": all.iter().map(|t| t["seen"].as_array().unwrap().len()).sum::<usize>(),
        "unexplained": s.unexplained, "failure": s.failure, "error": s.error,
    });
    (v, code)
}
