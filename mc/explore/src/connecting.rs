//! P26: connecting and listening.

use crate::dialogue::{message, program};
use crate::canon;
use crate::job::*;
use crate::script::Spec;
use crate::msgs::*;
use crate::session::*;
use crate::traffic::*;
use bsp_server::{Connection, IoThreads};
use mcrt::explore::Config;
use mcrt::pipe::Pipe;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;
use stdshim::net::{Call, TcpListener, TcpStream};

const A1: &str = "127.0.0.1:1001";
const A2: &str = "127.0.0.1:1002";

type Opened = io::Result<(Connection, IoThreads)>;

fn outcome(r: &Opened) -> Value {
    match r {
        Ok(_) => json!("ok"),
        Err(e) => json!(format!("{:?}", e.kind())),
    }
}

/// The connector that keeps trying until somebody listens.
fn dial(addr: &'static str) -> TcpStream {
    loop {
        match TcpStream::connect(addr) {
            Ok(s) => return s,
            Err(_) => stdshim::net::__await_listener(addr),
        }
    }
}

fn use_up(c: Connection, io: IoThreads, send: &'static str) -> Value {
    let sent = c.send(outgoing(send).0).is_ok();
    let got: Vec<Value> = c.receiver.iter().map(|m| describe(&m)["params"].clone()).collect();
    drop(c);
    let j = io.join();
    json!([sent, got, j.is_ok()])
}

/// What a plain peer sees: it sends these messages, closes, and reads to the end.
fn plain(mut s: TcpStream, names: &[&str]) -> Value {
    for n in names {
        if s.write_all(&incoming_frame(n)).is_err() {
            return json!("cannot write");
        }
    }
    if s.shutdown(stdshim::net::Shutdown::Write).is_err() {
        return json!("cannot shut down");
    }
    let mut v = vec![];
    match s.read_to_end(&mut v) {
        Ok(_) => json!(show(&v)),
        Err(e) => json!(format!("{:?}", e.kind())),
    }
}

fn the_only(name: &str, v: &Value) -> Result<(), String> {
    let (f, rest) = split_output(v.as_str().unwrap_or("?").as_bytes())?;
    ensure!(rest.is_empty() && f == [on_wire(&outgoing(name).1)], "the peer got {f:?}, not one {name}");
    Ok(())
}

const FAULTS: [ErrorKind; 7] = [
    ErrorKind::ConnectionRefused,
    ErrorKind::AddrInUse,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionAborted,
    ErrorKind::Other,
    ErrorKind::OutOfMemory,
];

pub fn p26(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let mut out = vec![];
    // Every call fails, with every error.
    let calls = [Call::Connect, Call::Bind, Call::Accept, Call::TryClone, Call::SetOption];
    let k = FAULTS.len();
    for listen in [false, true] {
        out.push(Job::many(
            format!("{}: every call fails with every error", if listen { "listen" } else { "connect" }),
            calls.len() * k * 2,
            move |i| {
                let (call, kind) = (calls[i / 2 / k], FAULTS[i / 2 % k]);
                let after = (i % 2) as u32;
                let seen: Rc<RefCell<Vec<Rc<Pipe>>>> = Rc::default();
                let s2 = seen.clone();
                program(
                    move |log| {
                        // The world is there when the program starts; `program` made it.
                        let net = stdshim::net::__install();
                        net.on_stream(move |_, a, b| s2.borrow_mut().extend([a.clone(), b.clone()]));
                        let r = if listen {
                            let relevant = matches!(call, Call::Bind | Call::Accept | Call::TryClone | Call::SetOption);
                            let h = mcrt::spawn(Some("dialer".into()), false, move || {
                                if call == Call::Bind && after == 0 {
                                    return None;
                                }
                                Some(dial(A1))
                            });
                            net.fail(call, if relevant { after } else { u32::MAX }, kind);
                            let r = Connection::listen(A1);
                            (r, h.join().ok().flatten())
                        } else {
                            let l = TcpListener::bind(A1).unwrap();
                            net.fail(call, if call == Call::Bind { u32::MAX } else { after }, kind);
                            let r = Connection::connect(A1);
                            let peer = l.__take();
                            l.__forget();
                            (r, peer)
                        };
                        let (r, peer) = r;
                        let o = outcome(&r);
                        let threads = stdshim::thread::__spawned();
                        let open = net.open_streams();
                        match r {
                            Ok((c, io)) => {
                                let h = peer.map(|p| mcrt::spawn(Some("peer".into()), false, move || plain(p, &["n5"])));
                                let used = use_up(c, io, "m3");
                                let seen = h.and_then(|h| h.join().ok());
                                log.borrow_mut().push(json!([o, threads, open, used, seen]));
                            }
                            Err(_) => log.borrow_mut().push(json!([o, threads, open, peer.is_some()])),
                        }
                    },
                    move |log, end| {
                        drop(seen);
                        ensure!(!end.livelock && end.blocked.is_empty(), "blocked: {:?}", end.blocked);
                        ensure!(log.len() == 1, "{log:?}");
                        let l = &log[0];
                        if l[0] == "ok" {
                            ensure!(l[3] == json!([true, [5], true]), "an opened connection does not work: {l}");
                            return the_only("m3", &l[4]);
                        }
                        let hit = after == 0
                            && (call == Call::TryClone
                                || call == Call::SetOption
                                || (listen && matches!(call, Call::Bind | Call::Accept))
                                || (!listen && call == Call::Connect));
                        // More calls than today's are allowed, failing ones included.
                        ensure!(hit || after > 0, "reports {} although nothing failed", l[0]);
                        ensure!(l[0] == json!(format!("{kind:?}")), "reports {} instead of {kind:?}", l[0]);
                        ensure!(l[1] == 0, "{} threads were started for no connection", l[1]);
                        ensure!(l[2].as_u64().unwrap() <= l[3].as_bool().unwrap() as u64, "a stream is left open");
                        Ok(())
                    },
                )
            },
            move |i| format!("{:?} number {} fails with {:?}", calls[i / 2 / k], i % 2, FAULTS[i / 2 % k]),
        ));
    }
    // And the necessary ones do fail.
    for (listen, call) in [(false, Call::Connect), (true, Call::Bind), (true, Call::Accept)] {
        out.push(Job::one(format!("{call:?} fails"), Config::default(), move || {
            program(
                move |log| {
                    let net = stdshim::net::__install();
                    let l = (!listen).then(|| TcpListener::bind(A1).unwrap());
                    net.fail(call, 0, ErrorKind::PermissionDenied);
                    let r = if listen {
                        if call == Call::Accept {
                            mcrt::spawn(Some("dialer".into()), false, || drop(dial(A1)));
                        }
                        Connection::listen(A1)
                    } else {
                        Connection::connect(A1)
                    };
                    drop(l);
                    log.borrow_mut().push(json!([outcome(&r), stdshim::thread::__spawned()]));
                    drop(r);
                },
                |log, end| {
                    ensure!(!end.livelock && end.blocked.is_empty(), "blocked: {:?}", end.blocked);
                    ensure!(log == [json!(["PermissionDenied", 0])], "ended with {log:?}");
                    Ok(())
                },
            )
        }));
    }
    // No address, nobody there, somebody there.
    let odd: [(&str, bool, &str); 8] = [
        ("nonsense", false, "InvalidInput"),
        ("nonsense", true, "InvalidInput"),
        ("127.0.0.1", false, "InvalidInput"),
        ("127.0.0.1:70000", true, "InvalidInput"),
        ("127.0.0.1:9", false, "ConnectionRefused"),
        (A1, true, "AddrInUse"),
        (A2, false, "ConnectionRefused"),
        ("", true, "InvalidInput"),
    ];
    out.push(Job::many(
        "addresses that lead nowhere".to_string(),
        odd.len(),
        move |i| {
            let (addr, listen, want) = odd[i];
            let r = program(
                move |log| {
                    let l = TcpListener::bind(A1).unwrap();
                    let r = if listen { Connection::listen(addr) } else { Connection::connect(addr) };
                    log.borrow_mut().push(json!([outcome(&r), stdshim::thread::__spawned()]));
                    drop(r);
                    drop(l);
                },
                move |log, end| {
                    ensure!(end.blocked.is_empty(), "blocked: {:?}", end.blocked);
                    canon::seen(log[0][0].clone());
                    ensure!(log == [json!([want, 0])], "{addr:?} ended with {log:?}");
                    Ok(())
                },
            );
            canon::begin(Some(Spec::Address { listen, addr: addr.replace(A1, "TAKEN").replace(A2, "FREE") }));
            r
        },
        move |i| format!("{:?}", odd[i]),
    ));
    // Several addresses: the first that works.
    out.push(Job::one("several addresses", Config::default(), || {
        program(
            |log| {
                let l = TcpListener::bind(A2).unwrap();
                let addrs: Vec<std::net::SocketAddr> = vec![A1.parse().unwrap(), A2.parse().unwrap()];
                let (c, io) = Connection::connect(&addrs[..]).expect("the second address works");
                let s = l.__take().unwrap();
                l.__forget();
                let h = mcrt::spawn(Some("peer".into()), false, move || plain(s, &["n5"]));
                let u = use_up(c, io, "m3");
                log.borrow_mut().push(json!([u, h.join().ok()]));
            },
            |log, end| {
                ensure!(end.blocked.is_empty(), "blocked: {:?}", end.blocked);
                ensure!(log.len() == 1 && log[0][0] == json!([true, [5], true]), "{log:?}");
                the_only("m3", &log[0][1])
            },
        )
    }));
    // Two connections at once, each its own.
    for kind in if deep { vec![0, 2, 1] } else { vec![0, 2] } {
        let cfg = Config { preemptions: Some((deep && kind != 1) as u32), ..Config::default() };
        out.push(Job::one(format!("two connections at once, kind {kind}"), cfg, move || {
            program(
                move |log| {
                    let mut hs = vec![];
                    for (n, addr) in [(1usize, A1), (2, A2)] {
                        let log = log.clone();
                        let listen = kind == 1 || (kind == 2 && n == 2);
                        let (mine, theirs) = (["", "m1", "m2"][n], ["", "n1", "n2"][n]);
                        hs.push(mcrt::spawn(Some(format!("side{n}")), false, move || {
                            let (l, h);
                            let (c, io) = if listen {
                                h = mcrt::spawn(Some("peer".into()), false, move || plain(dial(addr), &[theirs]));
                                Connection::listen(addr).unwrap()
                            } else {
                                l = TcpListener::bind(addr).unwrap();
                                let x = Connection::connect(addr).unwrap();
                                let s = l.__take().unwrap();
                                l.__forget();
                                h = mcrt::spawn(Some("peer".into()), false, move || plain(s, &[theirs]));
                                x
                            };
                            let u = use_up(c, io, mine);
                            let seen = h.join().ok();
                            log.borrow_mut().push(json!([n, u, seen]));
                        }));
                    }
                    for h in hs {
                        let _ = h.join();
                    }
                },
                |log, end| {
                    ensure!(!end.livelock && end.blocked.is_empty(), "blocked: {:?}", end.blocked);
                    ensure!(log.len() == 2, "{log:?}");
                    for l in log {
                        let n = l[0].as_u64().unwrap();
                        ensure!(l[1] == json!([true, [n], true]), "connection {n} saw {}", l[1]);
                        the_only(["", "m1", "m2"][n as usize], &l[2])?;
                    }
                    Ok(())
                },
            )
        }));
    }
    // Another stream to the same listener is no part of the connection.
    out.push(Job::one("two dialers, one listener", Config { preemptions: Some(deep as u32), ..Config::default() }, || {
        program(
            |log| {
                let hs: Vec<_> = [["n1"], ["n2"]]
                    .into_iter()
                    .enumerate()
                    .map(|(k, n)| {
                        mcrt::spawn(Some(format!("dialer{k}")), false, move || {
                            let Ok(s) = TcpStream::connect(A1) else { return json!("refused") };
                            plain(s, &n)
                        })
                    })
                    .collect();
                let h3 = mcrt::spawn(Some("dialer".into()), false, || plain(dial(A1), &["n3"]));
                let (c, io) = Connection::listen(A1).unwrap();
                let u = use_up(c, io, "m3");
                let mut seen: Vec<Value> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
                // The last one may dial for ever once nobody listens.
                let _ = &h3;
                seen.push(json!(null));
                log.borrow_mut().push(json!([u, seen]));
            },
            |log, end| {
                ensure!(!end.livelock, "no end in sight");
                ensure!(end.blocked.iter().all(|b| b.0 == "dialer"), "blocked: {:?}", end.blocked);
                ensure!(log.len() == 1, "{log:?}");
                let got = log[0][0][1].as_array().unwrap();
                ensure!(got.len() == 1, "one stream's messages expected, got {got:?}");
                let n = got[0].as_u64().unwrap() as usize;
                ensure!(log[0][0][2] == true, "{log:?}");
                for (k, s) in log[0][1].as_array().unwrap()[..2].iter().enumerate() {
                    let s = s.as_str().unwrap_or("");
                    ensure!((k + 1 == n) == s.contains("Content-Length"), "dialer {} saw {s:?}, but {n} is connected", k + 1);
                }
                Ok(())
            },
        )
    }));
    // What the peer does first is no part of connecting: it may say nothing, say half of something, or leave.
    for (n, plan) in ["stays silent until spoken to", "sends half a message until spoken to", "is gone at once", "sends and is gone"].into_iter().enumerate() {
        for listen in [false, true] {
            let cfg = Config { preemptions: Some(1 + deep as u32), ..Config::default() };
            out.push(Job::one(format!("{}: the peer {plan}", if listen { "listen" } else { "connect" }), cfg, move || {
                program(
                    move |log| {
                        let peer = move |mut s: TcpStream| {
                            let f = incoming_frame("n5");
                            match n {
                                0 | 1 => {
                                    let (a, b) = f.split_at(if n == 0 { 0 } else { f.len() / 2 });
                                    let mut one = [0; 1];
                                    let w = s.write_all(a).and_then(|_| s.read_exact(&mut one)).and_then(|_| s.write_all(b));
                                    let w = w.and_then(|_| s.shutdown(stdshim::net::Shutdown::Write));
                                    let mut v = one.to_vec();
                                    let r = s.read_to_end(&mut v);
                                    json!([w.is_ok(), r.is_ok(), show(&v)])
                                }
                                2 => json!(null),
                                _ => json!(s.write_all(&f).is_ok()),
                            }
                        };
                        let (l, h);
                        let (c, io) = if listen {
                            h = mcrt::spawn(Some("peer".into()), false, move || peer(dial(A1)));
                            match Connection::listen(A1) {
                                Ok(x) => x,
                                Err(e) => return log.borrow_mut().push(json!(format!("{:?}", e.kind()))),
                            }
                        } else {
                            l = TcpListener::bind(A1).unwrap();
                            let x = match Connection::connect(A1) {
                                Ok(x) => x,
                                Err(e) => return log.borrow_mut().push(json!(format!("{:?}", e.kind()))),
                            };
                            let s = l.__take().unwrap();
                            l.__forget();
                            h = mcrt::spawn(Some("peer".into()), false, move || peer(s));
                            x
                        };
                        let u = if n < 2 {
                            use_up(c, io, "m3")
                        } else {
                            let got: Vec<Value> = c.receiver.iter().map(|m| describe(&m)["params"].clone()).collect();
                            drop(c);
                            json!([true, got, io.join().is_ok()])
                        };
                        log.borrow_mut().push(json!([u, h.join().ok()]));
                    },
                    move |log, end| {
                        ensure!(!end.livelock && end.blocked.is_empty(), "blocked: {:?}", end.blocked);
                        ensure!(log.len() == 1, "{log:?}");
                        let want = if n == 2 { json!([true, [], true]) } else { json!([true, [5], true]) };
                        ensure!(log[0][0] == want, "the connection saw {}, not {want}", log[0]);
                        if n < 2 {
                            ensure!(log[0][1][0] == true && log[0][1][1] == true, "the peer saw {}", log[0][1]);
                            the_only("m3", &log[0][1][2])?;
                        }
                        Ok(())
                    },
                )
            }));
        }
    }
    // The library on both ends.
    let sets: [(&[&'static str], &[&'static str]); 4] = [(&["r1"], &["n2"]), (&["r1", "note"], &["resp"]), (&["init"], &["err", "task"]), (&[], &[])];
    for (a, b) in sets {
        for listener_first in [false, true] {
            let cfg = Config { preemptions: Some(if deep { 2 } else { 1 }), ..Config::default() };
            out.push(Job::one(format!("both ends, {a:?} and {b:?}, listener sends first: {listener_first}"), cfg, move || {
                program(
                    move |log| {
                        let h = mcrt::spawn(Some("connecting".into()), false, move || {
                            let (c, io) = loop {
                                match Connection::connect(A1) {
                                    Ok(x) => break x,
                                    Err(_) => stdshim::net::__await_listener(A1),
                                }
                            };
                            both(c, io, a, b.len(), !listener_first)
                        });
                        let (c, io) = Connection::listen(A1).unwrap();
                        let r = both(c, io, b, a.len(), listener_first);
                        log.borrow_mut().push(json!([h.join().ok(), r]));
                    },
                    move |log, end| {
                        ensure!(!end.livelock && end.blocked.is_empty(), "blocked: {:?}", end.blocked);
                        let d = |l: &[&str]| l.iter().chain(&["exit"]).map(|n| describe_json(&incoming(n))).collect::<Vec<_>>();
                        let want = json!([[d(b), true, true], [d(a), true, true]]);
                        ensure!(log == [want.clone()], "ended with {log:?} instead of {want}");
                        Ok(())
                    },
                )
            }));
        }
    }
    // The two roles behave alike.
    for link in [Link::Connect, Link::Listen] {
        let ok = all(vec![no_panic, all_done, app_done, inbound, outbound, joined_means_written, join_tells]);
        let sc = Scenario::new(link)
            .preload(&["req", "note", "exit"], false)
            .app(vec![A::Recv, A::Send("ok", How::Block), A::RecvAll, A::Send("note", How::Block), A::DropConn, A::Join])
            .app(vec![A::Send("m1", How::Block)]);
        out.push(sched(format!("{link:?}: both directions at once"), Config::default(), sc, ok.clone()));
        let ins = ["req", "note", "resp", "exit"];
        let outs = ["ok", "note", "err"];
        let (n, m) = (seq_count(ins.len(), 3), seq_count(outs.len(), 3));
        out.push(sweep(
            format!("{link:?}: all traffic of up to 3 messages each way"),
            n * m,
            move |i| {
                let mut a: Vec<A> = seq(&outs, i / n).into_iter().map(|n| A::Send(n, How::Block)).collect();
                a.extend([A::RecvAll, A::DropConn, A::Join]);
                Scenario::new(link).preload(&seq(&ins, i % n), true).app(a)
            },
            move |i| format!("{:?} in, {:?} out", seq(&ins, i % n), seq(&outs, i / n)),
            ok,
        ));
    }
    out
}

/// Sends its messages and takes those of the other side; exits or drops at the end.
fn both(c: Connection, io: IoThreads, names: &[&'static str], expect: usize, first: bool) -> Value {
    let mut ok = true;
    let mut got = vec![];
    let mut send = |c: &Connection| {
        for n in names {
            ok &= c.send(message(n)).is_ok();
        }
    };
    if first {
        send(&c);
    }
    for _ in 0..expect {
        match c.receiver.recv() {
            Ok(m) => got.push(describe(&m)),
            Err(_) => break,
        }
    }
    if !first {
        send(&c);
    }
    // `exit` ends the other side's reader, as the other side's ends this one's.
    ok &= c.send(message("exit")).is_ok();
    got.extend(c.receiver.iter().map(|m| describe(&m)));
    drop(c);
    json!([got, ok, io.join().is_ok()])
}
