//! P10 to P13 and P25: pairs in memory, the handshake, shutdown, and whole sessions.

use crate::canon;
use crate::job::*;
use crate::msgs::*;
use crate::script::Spec;
use crate::session::*;
use crate::traffic::*;
use bsp_server::{Connection, Message, Request};
use bsp_server_channel::{RecvTimeoutError, SendTimeoutError, TryRecvError, TrySendError};
use mcrt::explore::{Config, Oracle};
use mcrt::pipe::{Env, Quirk};
use mcrt::End;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use std::time::Duration;

pub fn message(name: &str) -> Message {
    serde_json::from_value(on_wire(&incoming(name))).unwrap_or_else(|e| panic!("{name}: {e}"))
}

fn described(name: &str) -> Value {
    describe_json(&incoming(name))
}

/// A program of its own, with a log for the oracle.
pub type Log = Rc<RefCell<Vec<Value>>>;

pub fn program(
    main: impl FnOnce(Log) + 'static,
    oracle: impl FnOnce(Vec<Value>, &End) -> Result<(), String> + 'static,
) -> (Box<dyn FnOnce()>, Oracle) {
    canon::begin(None);
    stdshim::thread::__reset();
    stdshim::thread::__fail_spawn_after(-1);
    stdshim::net::__install();
    stdshim::io::__install(None, None);
    let log: Log = Rc::default();
    let l2 = log.clone();
    (
        Box::new(move || main(l2)),
        Box::new(move |end| {
            if let Some(p) = end.panics.first() {
                return Err(format!("thread {} panicked: {}", p.task, p.message));
            }
            if let Some(c) = end.exit {
                return Err(format!("the process ended with status {c}"));
            }
            let log = std::mem::take(&mut *log.borrow_mut());
            let h = mcrt::hash_str(&format!("{log:?} {}", end.clock));
            oracle(log, end).map(|()| h)
        }),
    )
}

fn quiet(end: &End) -> Result<(), String> {
    ensure!(!end.livelock, "no end in sight");
    ensure!(end.blocked.is_empty(), "blocked for ever: {:?}", end.blocked);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum M {
    Send(usize),
    Recv(usize),
    DropSender(usize),
    DropReceiver(usize),
}
const OPS: [M; 8] = [
    M::Send(0),
    M::Send(1),
    M::Recv(0),
    M::Recv(1),
    M::DropSender(0),
    M::DropSender(1),
    M::DropReceiver(0),
    M::DropReceiver(1),
];

fn any_send(s: &Connection, m: Message, how: usize) -> Result<(), (Message, bool)> {
    let late = |e| match e {
        SendTimeoutError::Timeout(m) => (m, true),
        SendTimeoutError::Disconnected(m) => (m, false),
    };
    let now = mcrt::time::Instant::now();
    match how % WAYS {
        0 => s.send(m).map_err(|e| (e.0, false)),
        1 => s.try_send(m).map_err(|e| match e {
            TrySendError::Full(m) => (m, true),
            TrySendError::Disconnected(m) => (m, false),
        }),
        2 => s.send_timeout(m, Duration::ZERO).map_err(late),
        3 => s.send_deadline(m, now).map_err(late),
        4 => s.sender.send(m).map_err(|e| (e.0, false)),
        5 => s.send_timeout(m, Duration::MAX).map_err(late),
        6 => s.send_deadline(m, now - Duration::from_secs(60)).map_err(late),
        _ => s.send_deadline(m, now + Duration::from_secs(1 << 40)).map_err(late),
    }
}
const WAYS: usize = 8;

/// A sequence of operations on a pair against two queues.
fn pair_case(ops: Vec<M>, how: usize) -> (Box<dyn FnOnce()>, Oracle) {
    let spec = Spec::Pair {
        ops: ops
            .iter()
            .map(|o| match o {
                M::Send(k) => ("send".to_string(), *k),
                M::Recv(k) => ("recv".to_string(), *k),
                M::DropSender(k) => ("drop sender".to_string(), *k),
                M::DropReceiver(k) => ("drop receiver".to_string(), *k),
            })
            .collect(),
        how,
    };
    let r = program(
        move |log| {
            let (a, b) = Connection::memory();
            let mut side = [Some(a), Some(b)];
            let mut sending = [true, true];
            let mut receiving = [true, true];
            let mut queue: [VecDeque<Value>; 2] = Default::default();
            let say = |s: String| log.borrow_mut().push(json!(s));
            for (n, op) in ops.iter().enumerate() {
                match *op {
                    M::Send(k) if sending[k] => {
                        let msg = message(["req", "note", "resp", "exit", "big2000", "n5", "err"][n % 7]);
                        let d = describe(&msg);
                        let r = any_send(side[k].as_ref().unwrap(), msg, how + n);
                        canon::seen(match &r {
                            Ok(()) => json!("sent"),
                            Err((m, full)) => json!(["back", describe(m), full]),
                        });
                        match r {
                            Ok(()) if receiving[1 - k] => queue[k].push_back(d),
                            Ok(()) => say(format!("op {n}: a send to nobody succeeded")),
                            Err((m, full)) => {
                                if receiving[1 - k] {
                                    say(format!("op {n}: a send failed"));
                                } else if full || describe(&m) != d {
                                    say(format!("op {n}: a failed send handed back {}", describe(&m)));
                                }
                            }
                        }
                    }
                    M::Recv(k) if receiving[k] => {
                        let want = match queue[1 - k].pop_front() {
                            Some(d) => d,
                            None if sending[1 - k] => json!("empty"),
                            None => json!("disconnected"),
                        };
                        let r = &side[k].as_ref().unwrap().receiver;
                        let got = match (how + n) % 3 {
                            0 if want != "empty" => r.recv().map_err(|_| "disconnected"),
                            1 => r.recv_timeout(Duration::ZERO).map_err(|e| match e {
                                RecvTimeoutError::Timeout => "empty",
                                RecvTimeoutError::Disconnected => "disconnected",
                            }),
                            _ => r.try_recv().map_err(|e| match e {
                                TryRecvError::Empty => "empty",
                                TryRecvError::Disconnected => "disconnected",
                            }),
                        };
                        let got = got.map_or_else(|e| json!(e), |m| describe(&m));
                        canon::seen(got.clone());
                        if got != want {
                            say(format!("op {n}: received {got} instead of {want}"));
                        }
                    }
                    M::DropSender(k) if sending[k] => {
                        let Connection { sender, receiver } = side[k].take().unwrap();
                        drop(sender);
                        sending[k] = false;
                        side[k] = Some(Connection { sender: bsp_server_channel::unbounded().0, receiver });
                    }
                    M::DropReceiver(k) if receiving[k] => {
                        let Connection { sender, receiver } = side[k].take().unwrap();
                        drop(receiver);
                        receiving[k] = false;
                        queue[1 - k].clear();
                        side[k] = Some(Connection { sender, receiver: bsp_server_channel::never() });
                    }
                    _ => {}
                }
            }
            log.borrow_mut().push(json!("done"));
        },
        |log, end| {
            quiet(end)?;
            ensure!(log == [json!("done")], "{log:?}");
            Ok(())
        },
    );
    canon::begin(Some(spec));
    r
}

pub fn p10(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let mut out = vec![];
    let depth = if deep { 7 } else { 5 };
    let hows = if deep { 3 } else { WAYS };
    out.push(Job::many(
        format!("all sequences of up to {depth} operations on a pair"),
        seq_count(OPS.len(), depth) * hows,
        move |i| pair_case(seq(&OPS, i / hows), i % hows),
        move |i| format!("{:?}, ways rotated by {}", seq(&OPS, i / hows), i % hows),
    ));
    // Long queues: no send ever waits.
    out.push(Job::many(
        "long queues".to_string(),
        8 * WAYS,
        |i| {
            let n = [0, 1, 2, 10, 100, 1000, 2000, 3000][i / WAYS];
            let mut ops = vec![M::Send(0); n];
            ops.extend(vec![M::Send(1); n]);
            ops.extend([M::DropSender(0), M::DropReceiver(0)]);
            ops.extend(vec![M::Recv(1); n + 1]);
            ops.push(M::Send(1));
            pair_case(ops, i % WAYS)
        },
        |i| format!("{i}"),
    ));
    // Very long ones, and no end in sight.
    let lens = [10_000usize, 70_000, if deep { 1_100_000 } else { 140_000 }];
    let mut long = Job::many(
        "very long queues, without a limit".to_string(),
        lens.len() * 2,
        move |i| {
            let (n, side) = (lens[i / 2], i % 2);
            program(
                move |log| {
                    let (a, b) = Connection::memory();
                    let (from, to) = if side == 0 { (a, b) } else { (b, a) };
                    let none = [from.sender.capacity(), from.receiver.capacity(), to.sender.capacity(), to.receiver.capacity()] == [None; 4];
                    let sent = (0..n).filter(|k| from.try_send(Message::from(bsp_server::Notification::Custom("n", json!(k)))).is_ok()).count();
                    drop(from);
                    let mut got = 0;
                    for m in &to.receiver {
                        match m {
                            Message::Notification(bsp_server::Notification::Custom("n", v)) if v == json!(got) => got += 1,
                            _ => break,
                        }
                    }
                    log.borrow_mut().push(json!([none, sent, got]));
                },
                move |log, end| {
                    quiet(end)?;
                    ensure!(log == [json!([true, n, n])], "without a limit, sent and received of {n} messages: {log:?}");
                    Ok(())
                },
            )
        },
        move |i| format!("{} messages from side {}", lens[i / 2], i % 2),
    );
    long.cfg.max_steps = 10_000_000;
    out.push(long);
    out.push(Job::many(
        "a wide range of messages".to_string(),
        wide_greetings().end * WAYS,
        |i| {
            let (w, how) = (wide_name(i / WAYS), i % WAYS);
            program(
                move |log| {
                    let (a, b) = Connection::memory();
                    let sent = [any_send(&a, message(w), how).is_ok(), any_send(&b, message(w), how).is_ok()];
                    let got: Vec<Value> = [&a, &b].into_iter().flat_map(|s| s.receiver.try_iter().map(|m| describe(&m)).collect::<Vec<_>>()).collect();
                    drop(b);
                    let back = match any_send(&a, message(w), how) {
                        Ok(()) => json!("sent to nobody"),
                        Err((m, waited)) if !waited => describe(&m),
                        Err(_) => json!("waited"),
                    };
                    log.borrow_mut().push(json!([sent, got, back]));
                },
                move |log, end| {
                    quiet(end)?;
                    let d = describe(&message(w));
                    ensure!(log == [json!([[true, true], [d, d], d])], "{} instead of {d}", log[0]);
                    Ok(())
                },
            )
        },
        |i| format!("{}, way {}", incoming(wide_name(i / WAYS)), i % WAYS),
    ));
    // Under every schedule: two sides, and several threads on one side.
    for how in 0..WAYS {
        for (na, nb, clones) in [(2usize, 1usize, 1usize), (1, 1, 2), (2, 2, 1)] {
            if (na, nb) == (2, 2) && !deep && how > 0 {
                continue;
            }
            out.push(Job::one(
                format!("{na} and {nb} messages, {clones} sending threads, way {how}"),
                Config { eager_timeouts: false, ..Config::default() },
                move || {
                    program(
                        move |log| {
                            let (a, b) = Connection::memory();
                            let mut hs = vec![];
                            for (k, c, n) in [(0usize, a, na), (1, b, nb)] {
                                let Connection { sender, receiver } = c;
                                for t in 0..clones {
                                    let s = Connection { sender: sender.clone(), receiver: bsp_server_channel::never() };
                                    let log = log.clone();
                                    hs.push(mcrt::spawn(Some(format!("sender{k}{t}")), false, move || {
                                        for i in 0..n {
                                            let m = message(name(format!("r{}", k * 100 + t * 10 + i)));
                                            if any_send(&s, m, how).is_err() {
                                                log.borrow_mut().push(json!("a send failed"));
                                            }
                                        }
                                    }));
                                }
                                drop(sender);
                                let log = log.clone();
                                hs.push(mcrt::spawn(Some(format!("receiver{k}")), false, move || {
                                    let mut got = vec![];
                                    while let Ok(m) = receiver.recv() {
                                        got.push(describe(&m)["id"].as_u64().unwrap() as usize);
                                    }
                                    log.borrow_mut().push(json!([k, got]));
                                }));
                            }
                            for h in hs {
                                let _ = h.join();
                            }
                        },
                        move |log, end| {
                            // A receiver that ends early makes no send fail: it takes all there is first.
                            quiet(end)?;
                            for l in &log {
                                let Some(l) = l.as_array() else { return Err(format!("{log:?}")) };
                                let k = l[0].as_u64().unwrap() as usize;
                                let got: Vec<usize> = l[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                                let n = [nb, na][k];
                                for t in 0..clones {
                                    let mine: Vec<usize> = got.iter().copied().filter(|x| x / 10 % 10 == t).collect();
                                    let want: Vec<usize> = (0..n).map(|i| (1 - k) * 100 + t * 10 + i).collect();
                                    ensure!(mine == want, "side {k} received {got:?}");
                                }
                                ensure!(got.len() == n * clones, "side {k} received {got:?}");
                            }
                            ensure!(log.len() == 2, "{log:?}");
                            Ok(())
                        },
                    )
                },
            ));
        }
    }
    // One side goes away while the other sends and receives.
    for part in 0..3 {
        out.push(Job::one(format!("one side goes away, part {part}"), Config::default(), move || {
            program(
                move |log| {
                    let (a, b) = Connection::memory();
                    let h = mcrt::spawn(Some("b".into()), false, move || {
                        let sent = b.send(message("r1")).is_ok();
                        let Connection { sender, receiver } = b;
                        match part {
                            0 => drop((sender, receiver)),
                            1 => {
                                drop(receiver);
                                let _ = sender.send(message("r2"));
                            }
                            _ => {
                                drop(sender);
                                let _ = receiver.recv();
                            }
                        }
                        sent
                    });
                    let r1 = a.send(message("n1")).is_ok();
                    let mut got = vec![];
                    while let Ok(m) = a.receiver.recv() {
                        got.push(describe(&m)["id"].clone());
                    }
                    let _ = h.join();
                    let r2 = a.send(message("n2"));
                    let back = r2.as_ref().err().map(|e| describe(&e.0));
                    log.borrow_mut().push(json!([got, r1, back]));
                },
                move |log, end| {
                    quiet(end)?;
                    let want = if part == 1 { json!([1, 2]) } else { json!([1]) };
                    ensure!(log.len() == 1 && log[0][0] == want, "{log:?}");
                    ensure!(log[0][2] == described("n2"), "a send to a dropped side ended with {:?}", log[0][2]);
                    Ok(())
                },
            )
        }));
    }
    out
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum ClientEnd {
    /// The client sends no more but is there.
    Open,
    /// The client has dropped its sender.
    Done,
    /// The client takes no answers.
    Deaf,
    /// The client is gone.
    Gone,
}
const ENDS: [ClientEnd; 4] = [ClientEnd::Open, ClientEnd::Done, ClientEnd::Deaf, ClientEnd::Gone];

fn greets(name: &str) -> bool {
    incoming(name)["method"] == "build/initialize" && name != "custominit"
}

/// What the handshake must do with these messages: the call's outcome (None: it waits), the answers,
/// how many messages it takes.
fn handshake_model(names: &[&str], end: ClientEnd) -> (Option<Value>, Vec<Value>, usize) {
    let deaf = matches!(end, ClientEnd::Deaf | ClientEnd::Gone);
    let mut answers = vec![];
    let mut called = vec![];
    let err = |called: &Vec<Value>| Some(json!({"error": true, "called": called}));
    let mut at = 0;
    let params = loop {
        let Some(n) = names.get(at) else {
            let r = if matches!(end, ClientEnd::Done | ClientEnd::Gone) { err(&called) } else { None };
            return (r, answers, at);
        };
        at += 1;
        let mut d = described(n);
        if greets(n) {
            d["params"] = incoming(n)["params"].clone();
        }
        match d["kind"].as_str().unwrap() {
            "request" if greets(n) => break d,
            "request" if deaf => return (err(&called), answers, at),
            "request" => answers.push(json!({"id": d["id"], "code": -32002})),
            "notification" if !is_exit(n) => {}
            _ => return (err(&called), answers, at),
        }
    };
    called.push(params["params"].clone());
    if deaf {
        return (err(&called), answers, at);
    }
    answers.push(json!({"id": params["id"], "result": {"answer": 1, "to": params["params"]["displayName"]}}));
    let Some(n) = names.get(at) else {
        let r = if matches!(end, ClientEnd::Done | ClientEnd::Gone) { err(&called) } else { None };
        return (r, answers, at);
    };
    at += 1;
    if *n == "initialized" || *n == "initializedp" {
        (Some(json!({"initialized": params["params"], "called": called})), answers, at)
    } else {
        (err(&called), answers, at)
    }
}

fn strip(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter()
                .filter(|(_, x)| !x.is_null() && **x != json!("") && **x != json!([]) && **x != json!({}))
                .map(|(k, x)| (k.clone(), strip(x)))
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        v => v.clone(),
    }
}

fn answer(m: &Message) -> Value {
    let d = describe(m);
    if d["kind"] != "response" {
        return json!({"not a response": d});
    }
    match (d.get("result"), d.get("error")) {
        (Some(r), None) => json!({"id": d["id"], "result": r}),
        (None, Some(e)) => json!({"id": d["id"], "code": e["code"]}),
        _ => json!({"both or neither": d}),
    }
}

/// `names` are there, or come one by one from another thread; then the client ends.
fn handshake(names: Vec<&'static str>, end: ClientEnd, live: bool) -> (Box<dyn FnOnce()>, Oracle) {
    let (want, answers, taken) = handshake_model(&names, end);
    let total = names.len();
    let spec = Spec::Handshake { names: names.iter().map(|n| n.to_string()).collect(), end: format!("{end:?}") };
    let spec = (!live && want.is_some()).then_some(spec);
    let r = program(
        move |log| {
            let (client, server) = Connection::memory();
            let Connection { sender, receiver } = client;
            let deaf = matches!(end, ClientEnd::Deaf | ClientEnd::Gone);
            let keep: Rc<RefCell<Option<bsp_server_channel::Receiver<Message>>>> = Rc::new(RefCell::new(None));
            if deaf {
                drop(receiver);
            } else {
                *keep.borrow_mut() = Some(receiver);
            }
            let send = move || {
                for n in &names {
                    let _ = sender.send(message(n));
                }
                match end {
                    ClientEnd::Done | ClientEnd::Gone => drop(sender),
                    _ => {
                        // Stays for ever, without a thread that waits.
                        std::mem::forget(sender);
                    }
                }
            };
            if live {
                mcrt::spawn(Some("client".into()), false, send);
            } else {
                send();
            }
            let l2 = log.clone();
            let k2 = keep.clone();
            mcrt::spawn(Some("server".into()), false, move || {
                let r = initialize(&server);
                let sent: Vec<Value> = k2.borrow().iter().flat_map(|r| r.try_iter().map(|m| answer(&m)).collect::<Vec<_>>()).collect();
                l2.borrow_mut().push(json!({"result": r, "answers": sent}));
                let rest = if live {
                    // All that is left, once it has come.
                    mcrt::sleep(1);
                    server.receiver.try_iter().count()
                } else {
                    server.receiver.try_iter().count()
                };
                l2.borrow_mut().push(json!({ "rest": rest }));
            });
            // Whether it waits shows when nothing else can happen.
            mcrt::sleep(1000);
            let done = log.borrow().len() == 2;
            if !done {
                let sent: Vec<Value> = keep.borrow().iter().flat_map(|r| r.try_iter().map(|m| answer(&m)).collect::<Vec<_>>()).collect();
                log.borrow_mut().push(json!({ "waiting": sent }));
            }
        },
        move |log, _| {
            log.iter().for_each(|l| canon::seen(l.clone()));
            let got = match &want {
                None => {
                    ensure!(log.len() == 1 && log[0].get("waiting").is_some(), "does not wait for more: {log:?}");
                    log[0]["waiting"].clone()
                }
                Some(w) => {
                    ensure!(log.len() == 2, "no outcome, expected {w}: {log:?}");
                    let r = &log[0]["result"];
                    ensure!(strip(r) == strip(w), "the handshake ended with {r} instead of {w}");
                    ensure!(log[1]["rest"] == json!(total - taken), "took {} of {total} messages instead of {taken}", total - log[1]["rest"].as_u64().unwrap() as usize);
                    log[0]["answers"].clone()
                }
            };
            ensure!(got == json!(answers), "answered {got} instead of {}", json!(answers));
            Ok(())
        },
    );
    canon::begin(spec);
    r
}

const HELLO: [&str; 16] = [
    "init", "initialized", "req", "note", "resp", "exit", "shutdown", "initb", "custominit", "targets", "task", "err", "req2",
    "exitreq", "initreq", "exitparams",
];

pub fn ids() -> Vec<Value> {
    [i32::MIN as i64, -1, 0, 1, 7, i32::MAX as i64]
        .iter()
        .map(|n| json!(n))
        .chain(["", "1", "-0", "id", "null", "é\u{1F980}\"\\\n", "2147483648"].iter().map(|s| json!(s)))
        .collect()
}

/// Every kind of request, with any id.
pub fn requests() -> Vec<(&'static str, Value)> {
    let t = json!({"uri": "file:///t"});
    vec![
        ("build/shutdown", Value::Null),
        ("workspace/buildTargets", Value::Null),
        ("workspace/reload", Value::Null),
        ("buildTarget/sources", json!({"targets": [t]})),
        ("buildTarget/inverseSources", json!({"textDocument": {"uri": "file:///d"}})),
        ("buildTarget/dependencyModules", json!({"targets": [t]})),
        ("buildTarget/dependencySources", json!({"targets": [t], "textDocument": {"uri": "file:///d"}})),
        ("buildTarget/resources", json!({"targets": [t]})),
        ("buildTarget/compile", json!({"target": [t], "targets": [t]})),
        ("buildTarget/test", json!({"targets": [t]})),
        ("buildTarget/run", json!({"target": t})),
        ("buildTarget/cleanCache", json!({"targets": [t]})),
        ("debugSession/start", json!({"targets": [t], "dataKind": "k", "data": null})),
        ("x/y", json!({"z": 1})),
        ("build/initialize", json!({"not": "it"})),
        ("", Value::Null),
    ]
}

fn req_message(k: usize, id: &Value) -> Message {
    let (m, p) = &requests()[k];
    serde_json::from_value(json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p})).unwrap()
}

fn handshake_jobs(tier: Tier, p12: bool) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let mut out = vec![];
    let depth = if deep { 5 } else { 4 };
    let n = seq_count(HELLO.len(), depth);
    out.push(Job::many(
        format!("all sequences of up to {depth} messages, every way the client ends"),
        n * ENDS.len(),
        move |i| handshake(seq(&HELLO, i / 4), ENDS[i % 4], false),
        move |i| format!("{:?}, then {:?}", seq(&HELLO, i / 4), ENDS[i % 4]),
    ));
    if p12 {
        // After a proper beginning, everything that may follow.
        let starts: [&[&'static str]; 5] =
            [&["init"], &["initb"], &["req", "init"], &["note", "custominit", "initb"], &["init", "initialized"]];
        let m = seq_count(HELLO.len(), 3);
        out.push(Job::many(
            "all sequences of up to 3 messages after initialize".to_string(),
            m * starts.len() * 4,
            move |i| {
                let (i, e) = (i / 4, i % 4);
                let mut names = starts[i % starts.len()].to_vec();
                names.extend(seq(&HELLO, i / starts.len()));
                handshake(names, ENDS[e], false)
            },
            move |i| format!("{i}"),
        ));
    }
    // A wide range of messages, at the start or after another, and before a proper beginning.
    let n = wide_texts().end;
    let ways: Vec<(Vec<&'static str>, Vec<&'static str>)> = if p12 {
        vec![(vec!["init"], vec!["initialized"]), (vec!["req", "initb"], vec![]), (vec!["init", "initialized"], vec!["req"])]
    } else {
        vec![(vec![], vec![]), (vec!["req"], vec!["init", "initialized"]), (vec!["note", "task"], vec!["req2"])]
    };
    let w2 = ways.clone();
    let place = move |i: usize| {
        let (before, after) = &w2[i / 4 % w2.len()];
        [before.clone(), vec![wide_name(i / 4 / w2.len())], after.clone()].concat()
    };
    let p2 = place.clone();
    out.push(Job::many(
        "a wide range of messages, every way the client ends".to_string(),
        n * 4 * ways.len(),
        move |i| handshake(place(i), ENDS[i % 4], false),
        move |i| format!("{}, then {:?}", p2(i).iter().map(|n| incoming(n).to_string()).collect::<Vec<_>>().join(" "), ENDS[i % 4]),
    ));
    let (a, n) = (wide_greetings().start, wide_greetings().len());
    if p12 {
        out.push(Job::many(
            "a wide range of requests to initialize".to_string(),
            n * 3,
            move |i| {
                let w = wide_name(a + i / 3);
                handshake([vec![w, "initialized", "req"], vec![w, "req", "initialized"], vec!["req", w, "initializedp"]][i % 3].clone(), ClientEnd::Open, false)
            },
            move |i| incoming(wide_name(a + i / 3)).to_string(),
        ));
    }
    // Long waits for it.
    let counts = [5, 10, 16, 17, 32, 33, 50, 64, 65, 99, 100, 101, 128, 129, 255, 256, 257, 500, 513, 1000, 1024, 1025, 2000];
    let pools: [&[&'static str]; 4] = [&["req"], &["note"], &["req2", "targets", "note", "custominit"], &["shutdown", "task"]];
    out.push(Job::many(
        "many messages before initialize".to_string(),
        counts.len() * pools.len() * 2,
        move |i| {
            let (pool, n) = (pools[i / 2 % pools.len()], counts[i / 2 / pools.len()]);
            let mut names: Vec<&'static str> = (0..n).map(|k| pool[k % pool.len()]).collect();
            names.extend(["init", "initialized"]);
            handshake(names, if i % 2 == 0 { ClientEnd::Open } else { ClientEnd::Gone }, false)
        },
        move |i| format!("{} messages of {:?}", counts[i / 2 / pools.len()], pools[i / 2 % pools.len()]),
    ));
    // Live clients.
    let lists: Vec<Vec<&'static str>> = vec![
        vec!["init", "initialized", "req"],
        vec!["req", "init", "initialized"],
        vec!["note", "targets", "init", "note"],
        vec!["exit", "init"],
        vec!["resp", "init"],
        vec!["init", "exit", "initialized"],
        vec!["custominit", "init", "initializedp"],
        vec!["req"],
        vec!["init"],
    ];
    for l in lists {
        for end in ENDS {
            if matches!(end, ClientEnd::Deaf) {
                continue;
            }
            let l = l.clone();
            out.push(Job::one(format!("live client {l:?}, then {end:?}"), Config::default(), move || {
                handshake(l.clone(), end, true)
            }));
        }
    }
    // Any id on any request.
    let (ids, reqs) = (ids(), requests().len());
    let k = ids.len();
    let cases = if p12 { k * k } else { k * reqs };
    let ids = Rc::new(ids);
    let i2 = ids.clone();
    out.push(Job::many(
        format!("every id{}", if p12 { " on initialize, after every id" } else { " on every request" }),
        cases,
        move |i| {
            let (id, first) = (ids[i % k].clone(), if p12 { ids[i / k].clone() } else { json!(1) });
            program(
                move |log| {
                    let (client, server) = Connection::memory();
                    let before = if p12 { req_message(13, &first) } else { req_message(i / k, &id) };
                    let mut init = incoming("init");
                    if p12 {
                        init["id"] = id.clone();
                    }
                    let _ = client.send(before);
                    let _ = client.send(serde_json::from_value::<Message>(init).unwrap());
                    let _ = client.send(message("initialized"));
                    let r = initialize(&server);
                    let got: Vec<Value> = client.receiver.try_iter().map(|m| answer(&m)).collect();
                    let ok = r.get("initialized").is_some() && r["called"].as_array().unwrap().len() == 1;
                    let (a, b) = if p12 { (first, id) } else { (id, json!(0)) };
                    let want = json!([{"id": a, "code": -32002}, {"id": b, "result": {"answer": 1, "to": "c"}}]);
                    log.borrow_mut().push(json!([ok, got == *want.as_array().unwrap(), got]));
                },
                |log, end| {
                    quiet(end)?;
                    ensure!(log.len() == 1 && log[0][0] == true && log[0][1] == true, "answered wrongly: {log:?}");
                    Ok(())
                },
            )
        },
        move |i| format!("id {}", i2[i % k]),
    ));
    // Over real transports.
    for link in LINKS {
        for (what, names, ok) in [
            ("to the end", vec!["note", "req", "init", "initialized"], true),
            ("exit first", vec!["req", "exit"], false),
            ("another after initialize", vec!["init", "req"], false),
            ("the stream ends", vec!["req", "init"], false),
        ] {
            let (w, answers, _) = handshake_model(&names, ClientEnd::Done);
            let w = w.unwrap();
            let sc = Scenario::new(link).preload(&names, true).app(vec![A::Initialize, A::DropReceiver, A::DropConn, A::Join]);
            let check: Check = Rc::new(move |s, o, e| {
                no_panic(s, o, e)?;
                all_done(s, o, e)?;
                app_done(s, o, e)?;
                joined_means_written(s, o, e)?;
                let (f, rest) = split_output(&o.written)?;
                ensure!(rest.is_empty(), "incomplete frame");
                let got: Vec<Value> = f
                    .iter()
                    .map(|f| serde_json::from_value::<Message>(f.clone()).map_or(json!("bad"), |m| answer(&m)))
                    .collect();
                ensure!(got == answers, "answered {got:?} instead of {answers:?}");
                ensure!(o.calls.len() == 1 && strip(&o.calls[0]) == strip(&w), "{:?} instead of {w}", o.calls);
                ensure!(o.calls[0].get("initialized").is_some() == ok, "{:?}", o.calls);
                Ok(())
            });
            out.push(sched(format!("{link:?}: handshake {what}"), Config::default(), sc, check));
        }
    }
    out
}

pub fn p11(tier: Tier) -> Vec<Job> {
    handshake_jobs(tier, false)
}
pub fn p12(tier: Tier) -> Vec<Job> {
    handshake_jobs(tier, true)
}

// ---------------------------------------------------------------------------------------------

const LIMIT: u64 = 30_000_000_000;

/// `then`: (when, what) the client sends after the request was taken; None: it drops its end.
fn shutdown(req: Message, then: Vec<(u64, Option<&'static str>)>, before: usize, eager: bool) -> (Box<dyn FnOnce()>, Oracle) {
    let is = matches!(req, Message::Request(Request::Shutdown(_)));
    let id = describe(&req)["id"].clone();
    let first = then.first().copied();
    let total = then.iter().filter(|t| t.1.is_some()).count();
    let t2 = then.clone();
    let names: Vec<String> = then.iter().filter_map(|t| t.1).map(|n| n.to_string()).collect();
    let spec = Spec::Shutdown {
        request: serde_json::to_value(&req).unwrap(),
        gone: then.iter().any(|t| t.1.is_none()),
        names,
    };
    let soon = then.iter().all(|t| t.0 == 0) && (!then.is_empty() || !is) && !eager;
    let spec = soon.then_some(spec);
    let r = program(
        move |log| {
            let (client, server) = Connection::memory();
            let Message::Request(req) = req else { unreachable!() };
            let Connection { sender, receiver } = client;
            let mut then = then.into_iter();
            let mut sender = Some(sender);
            for (_, n) in then.by_ref().take(before) {
                match n {
                    Some(n) => drop(sender.as_ref().unwrap().send(message(n))),
                    None => sender = None,
                }
            }
            let client = mcrt::spawn(Some("client".into()), false, move || {
                for (t, n) in then {
                    if let Some(d) = t.checked_sub(mcrt::now()).filter(|d| *d > 0) {
                        mcrt::sleep(d);
                    }
                    match (n, &sender) {
                        (Some(n), Some(s)) => drop(s.send(message(n))),
                        _ => sender = None,
                    }
                }
                std::mem::forget(sender);
            });
            let r = match server.handle_shutdown(&req) {
                Ok(b) => json!(b),
                Err(e) => json!({"error": !e.to_string().is_empty()}),
            };
            let at = mcrt::now();
            let _ = client.join();
            let got: Vec<Value> = receiver.try_iter().map(|m| answer(&m)).collect();
            let rest = server.receiver.try_iter().count();
            log.borrow_mut().push(json!({"result": r, "at": at, "sent": got, "rest": rest}));
        },
        move |log, _| {
            ensure!(log.len() == 1, "handle_shutdown does not return: {log:?}");
            let l = &log[0];
            canon::seen(json!([l["result"], l["sent"], l["rest"]]));
            if !is {
                ensure!(l["result"] == false, "another request ended with {}", l["result"]);
                ensure!(l["sent"] == json!([]), "another request was answered with {}", l["sent"]);
                ensure!(l["rest"] == json!(total), "took a message for another request");
                ensure!(l["at"] == 0, "another request took {} ns", l["at"]);
                return Ok(());
            }
            ensure!(l["sent"] == json!([{"id": id, "result": null}]), "shutdown was answered with {}", l["sent"]);
            let error = json!({"error": true});
            if eager && l["result"] == error && l["at"].as_u64().unwrap() >= LIMIT {
                // Out of time; nothing was taken.
                ensure!(l["rest"] == json!(total), "timed out and took a message");
                return Ok(());
            }
            let (want, at, taken) = match first {
                Some((t, Some(n))) if t < LIMIT => (if is_exit(n) { json!(true) } else { error }, t, 1),
                Some((t, None)) if t < LIMIT => (error, t, 0),
                _ => (error, LIMIT, 0),
            };
            ensure!(l["result"] == want, "shutdown followed by {t2:?} ended with {} instead of {want}", l["result"]);
            ensure!(eager || l["at"] == json!(at), "shutdown followed by {t2:?} took {} ns instead of {at}", l["at"]);
            ensure!(l["rest"] == json!(total - taken), "{} messages are left of {total}", l["rest"]);
            Ok(())
        },
    );
    canon::begin(spec);
    r
}

/// The client takes the response late, at `take`, and does something at `at`. The application's connection is of its own making.
fn late_taker(full: bool, take: u64, at: u64, what: Option<&'static str>) -> (Box<dyn FnOnce()>, Oracle) {
    program(
        move |log| {
            let (out, taken) = bsp_server_channel::bounded(full as usize);
            let (input, receiver) = bsp_server_channel::unbounded();
            if full {
                let _ = out.send(message("note"));
            }
            let server = Connection { sender: out, receiver };
            let taker = mcrt::spawn(Some("taker".into()), false, move || {
                mcrt::sleep(take);
                taken.iter().map(|m| answer(&m)).collect::<Vec<Value>>()
            });
            let client = mcrt::spawn(Some("client".into()), false, move || {
                if at > 0 {
                    mcrt::sleep(at);
                }
                match what {
                    Some(n) => drop(input.send(message(n))),
                    None => return,
                }
                std::mem::forget(input);
            });
            let Message::Request(req) = req_message(0, &json!("late")) else { unreachable!() };
            let r = match server.handle_shutdown(&req) {
                Ok(b) => json!(b),
                Err(_) => json!("error"),
            };
            let end = mcrt::now();
            drop(server);
            let _ = client.join();
            let sent = taker.join().ok();
            log.borrow_mut().push(json!([r, end, sent.map(|mut s| s.split_off(full as usize))]));
        },
        move |log, end| {
            quiet(end)?;
            let in_time = at < take + LIMIT;
            let want = if in_time && what.is_some_and(is_exit) { json!(true) } else { json!("error") };
            let when = if in_time { at.max(take) } else { take + LIMIT };
            let want = json!([want, when, [{"id": "late", "result": null}]]);
            ensure!(log == [want.clone()], "the response is taken at {take} and {what:?} comes at {at}: {log:?} instead of {want}");
            Ok(())
        },
    )
}

/// Nobody takes the response: the client's receiver is gone from the start or goes at `gone`. `early` of the events come before.
fn deaf_client(gone: Option<u64>, then: Vec<(u64, Option<&'static str>)>, early: usize) -> (Box<dyn FnOnce()>, Oracle) {
    let first = then.first().copied();
    let total = then.iter().filter(|t| t.1.is_some()).count();
    let show = then.clone();
    program(
        move |log| {
            let (Connection { sender, receiver }, server) = Connection::memory();
            let mut then = then.into_iter();
            let mut sender = Some(sender);
            let mut receiver = Some(receiver);
            for (_, n) in then.by_ref().take(early) {
                match (n, &sender) {
                    (Some(n), Some(s)) => drop(s.send(message(n))),
                    _ => sender = None,
                }
            }
            if gone.is_none() {
                receiver = None;
            }
            let client = mcrt::spawn(Some("client".into()), false, move || {
                let wait = |t: u64| {
                    if let Some(d) = t.checked_sub(mcrt::now()).filter(|d| *d > 0) {
                        mcrt::sleep(d);
                    }
                };
                for (t, n) in then {
                    if gone.is_some_and(|g| g <= t) {
                        wait(gone.unwrap());
                        receiver = None;
                    }
                    wait(t);
                    match (n, &sender) {
                        (Some(n), Some(s)) => drop(s.send(message(n))),
                        _ => sender = None,
                    }
                }
                std::mem::forget((sender, receiver));
            });
            let Message::Request(req) = req_message(0, &json!("deaf")) else { unreachable!() };
            let r = match server.handle_shutdown(&req) {
                Ok(b) => json!(b),
                Err(_) => json!("error"),
            };
            let at = mcrt::now();
            let _ = client.join();
            log.borrow_mut().push(json!([r, at, server.receiver.try_iter().count()]));
        },
        move |log, end| {
            quiet(end)?;
            let (r, at, taken) = match first {
                Some((t, Some(n))) if t < LIMIT => (if is_exit(n) { json!(true) } else { json!("error") }, t, 1),
                Some((t, None)) if t < LIMIT => (json!("error"), t, 0),
                _ => (json!("error"), LIMIT, 0),
            };
            let want = json!([r, at, total - taken]);
            ensure!(log == [want.clone()], "nobody takes the response ({gone:?}), then {show:?}: {log:?} instead of {want}");
            Ok(())
        },
    )
}

pub fn p13(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let mut out = vec![];
    let times: [u64; 6] = [0, 1, LIMIT / 30, LIMIT - 1, LIMIT + 1, 2 * LIMIT];
    let mut events: Vec<Option<&'static str>> = HELLO.iter().copied().map(Some).collect();
    events.push(None);
    // (time, event) pairs in order of time, up to two; three when deep.
    let mut scripts: Vec<Vec<(u64, Option<&'static str>)>> = vec![vec![]];
    let singles: Vec<(u64, Option<&'static str>)> = times.iter().flat_map(|t| events.iter().map(|e| (*t, *e))).collect();
    for a in &singles {
        scripts.push(vec![*a]);
        for b in &singles {
            if b.0 >= a.0 && a.1.is_some() {
                scripts.push(vec![*a, *b]);
                if deep {
                    for c in &singles {
                        if c.0 >= b.0 && b.1.is_some() && c.1.is_some_and(|n| ["exit", "req", "note"].contains(&n)) {
                            scripts.push(vec![*a, *b, *c]);
                        }
                    }
                }
            }
        }
    }
    let takes = [0, 1, LIMIT / 3, LIMIT - 1, LIMIT + 1, 3 * LIMIT];
    let later: Vec<(u64, u64)> = takes
        .iter()
        .flat_map(|t| {
            let mut at = vec![0, 1, t.saturating_sub(1), t + 1, t + LIMIT / 2, t + LIMIT - 1, t + LIMIT + 1, t + 2 * LIMIT];
            at.sort();
            at.dedup();
            at.into_iter().filter(move |a| a != t || *a == 0).map(move |a| (*t, a))
        })
        .collect();
    let (l2, e2) = (later.clone(), events.clone());
    let k = events.len();
    let show = move |i: usize| (l2[i / k / 2], e2[i / 2 % k], i % 2 == 1);
    let s2 = show.clone();
    out.push(Job::many(
        "shutdown whose response is taken late".to_string(),
        later.len() * k * 2,
        move |i| {
            let ((take, at), what, full) = show(i);
            late_taker(full, take, at, what)
        },
        move |i| format!("{:?}", s2(i)),
    ));
    let gone: Vec<Option<u64>> = vec![None, Some(0), Some(1), Some(LIMIT - 1)];
    let (g2, k) = (gone.clone(), gone.len());
    let mut few: Vec<_> = scripts.iter().filter(|s| s.len() <= 2).cloned().collect();
    few.sort_by_key(|s| s.len());
    let few = Rc::new(few);
    let f2 = few.clone();
    out.push(Job::many(
        "shutdown whose response nobody takes".to_string(),
        few.len() * k * 3,
        move |i| {
            let then = few[i / 3 / k].clone();
            let early = (i % 3).min(then.len());
            let early = then.iter().take(early).take_while(|t| t.0 == 0).count();
            deaf_client(gone[i / 3 % k], then, early)
        },
        move |i| format!("gone {:?}, {} early: {:?}", g2[i / 3 % k], i % 3, f2[i / 3 / k]),
    ));
    let reqs = requests().len();
    let scripts = Rc::new(scripts);
    let n = scripts.len();
    let s2 = scripts.clone();
    out.push(Job::many(
        format!("shutdown, then up to {} messages or the end at any time", if deep { 3 } else { 2 }),
        n,
        move |i| shutdown(req_message(0, &json!(5)), scripts[i].clone(), 0, false),
        move |i| format!("{:?}", s2[i]),
    ));
    let ids = Rc::new(ids());
    let k = ids.len();
    let pre: [&[&'static str]; 6] = [&[], &["exit"], &["note", "exit"], &["exit", "exit"], &["resp"], &["shutdown", "exit"]];
    out.push(Job::many(
        "every request with every id, messages there before".to_string(),
        reqs * k * pre.len(),
        move |i| {
            let (i, p) = (i / pre.len(), i % pre.len());
            let then: Vec<_> = pre[p].iter().map(|n| (0, Some(*n))).collect();
            let len = then.len();
            shutdown(req_message(i / k, &ids[i % k]), then, len, false)
        },
        move |i| format!("{} {}", requests()[i / pre.len() / k].0, i % k),
    ));
    let n = wide_texts().end;
    let when = [0, 1, LIMIT - 1, LIMIT + 1];
    out.push(Job::many(
        "shutdown, then any message of a wide range".to_string(),
        n * when.len() * 2,
        move |i| {
            let t = when[i / 2 % when.len()];
            let mut then = vec![(t, Some(wide_name(i / 2 / when.len())))];
            if i % 2 == 1 {
                then.push((t, Some("exit")));
            }
            shutdown(req_message(0, &json!(5)), then, 0, false)
        },
        move |i| format!("{} after {} ns", incoming(wide_name(i / 2 / when.len())), when[i / 2 % when.len()]),
    ));
    let asks: Vec<usize> = (0..n).filter(|k| describe_json(&incoming(wide_name(*k)))["kind"] == "request").collect();
    let texts: Vec<String> = crate::wide::texts();
    let (a2, t2) = (asks.clone(), texts.clone());
    out.push(Job::many(
        "a wide range of other requests, and of ids on shutdown".to_string(),
        asks.len() + texts.len(),
        move |i| {
            let req = match asks.get(i) {
                Some(k) => message(wide_name(*k)),
                None => req_message(0, &json!(texts[i - asks.len()])),
            };
            shutdown(req, vec![(0, Some("exit"))], 1, false)
        },
        move |i| match a2.get(i) {
            Some(k) => incoming(wide_name(*k)).to_string(),
            None => format!("shutdown with id {:?}", t2[i - a2.len()]),
        },
    ));
    for then in [
        vec![(0, Some("exit"))],
        vec![(0, Some("note")), (0, Some("exit"))],
        vec![(0, Some("exit")), (0, Some("req"))],
        vec![(0, None)],
        vec![(5, Some("exit")), (6, None)],
        vec![(0, Some("req")), (0, None)],
    ] {
        for eager in [false, true] {
            let then = then.clone();
            let cfg = Config { eager_timeouts: eager, ..Config::default() };
            out.push(Job::one(format!("shutdown while the client does {then:?}, eager {eager}"), cfg, move || {
                shutdown(req_message(0, &json!("s")), then.clone(), 0, eager)
            }));
        }
    }
    // Over real transports.
    for link in LINKS {
        for (names, want) in [
            (vec!["shutdown", "exit"], json!([{"shutdown": true}])),
            (vec!["req", "shutdown", "exit"], json!([{"shutdown": false}, {"shutdown": true}])),
            (vec!["shutdown", "note", "exit"], json!([{"shutdown error": 0}])),
            (vec!["shutdown"], json!([{"shutdown error": 0}])),
        ] {
            let mut a = vec![A::HandleShutdown; want.as_array().unwrap().len()];
            a.extend([A::DropConn, A::Join]);
            let sc = Scenario::new(link).preload(&names, true).app(a);
            let check: Check = Rc::new(move |s, o, e| {
                no_panic(s, o, e)?;
                all_done(s, o, e)?;
                app_done(s, o, e)?;
                joined_means_written(s, o, e)?;
                let (f, _) = split_output(&o.written)?;
                ensure!(f == [json!({"jsonrpc": "2.0", "id": 9, "result": null})], "shutdown was answered with {f:?}");
                let got: Vec<Value> = o
                    .calls
                    .iter()
                    .map(|c| if c.get("shutdown error").is_some() { json!({"shutdown error": 0}) } else { c.clone() })
                    .collect();
                ensure!(json!(got) == want, "handle_shutdown returned {got:?} instead of {want}");
                ensure!(e.clock < LIMIT, "took {} ns", e.clock);
                Ok(())
            });
            out.push(sched(format!("{link:?}: {names:?}"), Config::default(), sc, check));
            // Nothing can be written any more.
            let want = json!(names.iter().filter(|n| ["req", "shutdown"].contains(n)).map(|n| match *n {
                "req" => json!({"shutdown": false}),
                _ if names.last() == Some(&"exit") && names[names.len() - 2] == "shutdown" => json!({"shutdown": true}),
                _ => json!({"shutdown error": 0}),
            }).collect::<Vec<_>>());
            let mut a = vec![A::Send("ok", How::Block), A::Sleep(5000)];
            a.extend(vec![A::HandleShutdown; want.as_array().unwrap().len()]);
            a.extend([A::DropConn, A::Join]);
            let mut sc = Scenario::new(link).preload(&names, true).app(a);
            sc.wenv.at = vec![(0, Quirk::Fail(std::io::ErrorKind::BrokenPipe))];
            let check: Check = Rc::new(move |s, o, e| {
                no_panic(s, o, e)?;
                all_done(s, o, e)?;
                app_done(s, o, e)?;
                let got: Vec<Value> = o
                    .calls
                    .iter()
                    .map(|c| if c.get("shutdown error").is_some() { json!({"shutdown error": 0}) } else { c.clone() })
                    .collect();
                ensure!(json!(got) == want, "handle_shutdown returned {got:?} instead of {want} although only writing has failed");
                Ok(())
            });
            out.push(sched(format!("{link:?}: {names:?} after writing has failed"), Config::default(), sc, check));
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------

/// What the documented server answers to a request.
fn reply(name: &str) -> Option<Value> {
    let v = incoming(name);
    v.get("method")?;
    let id = v.get("id")?.clone();
    Some(match v["method"].as_str().unwrap() {
        _ if ["custominit", "badsources"].contains(&name) => json!({"id": id, "code": -32601}),
        "build/initialize" => json!({"id": id, "result": {"answer": 1, "to": v["params"]["displayName"]}}),
        "workspace/buildTargets" => json!({"id": id, "result": {"targets": []}}),
        "buildTarget/sources" => json!({"id": id, "result": {"items": []}}),
        "build/shutdown" => json!({"id": id, "result": null}),
        _ => json!({"id": id, "code": -32601}),
    })
}

fn session(link: Link, before: &[&'static str], body: &[&'static str], mode: usize, env: (Env, Env)) -> (Scenario, Check) {
    let mut names: Vec<&'static str> = before.to_vec();
    let mut want: Vec<Value> =
        before.iter().filter_map(|n| incoming(n).get("id").filter(|_| incoming(n).get("method").is_some()).map(|i| json!({"id": i, "code": -32002}))).collect();
    names.extend(["init", "initialized"]);
    names.extend(body);
    names.extend(["shutdown", "exit"]);
    want.extend(names[before.len()..].iter().filter_map(|n| reply(n)));
    // How many answers there must be before message k goes out: the client waits for the answers to
    // initialize and shutdown, or (mode 1) to everything, or (mode 2) writes it all at once.
    let mut script = vec![];
    let mut answered = 0;
    let mut asked = 0;
    for (k, n) in names.iter().enumerate() {
        let must = match mode {
            0 => k == before.len() + 1 || k == names.len() - 1,
            1 => true,
            _ => false,
        };
        if must && asked > answered {
            script.push(P::Frames(asked));
            answered = asked;
        }
        script.push(P::Msg(n));
        if incoming(n).get("id").is_some() && incoming(n).get("method").is_some() {
            asked += 1;
        }
    }
    let serve = vec![A::Initialize, A::Serve, A::Join];
    let mut sc = Scenario::new(link).app(serve).renv(env.0).wenv(env.1);
    sc = match mode {
        2 => sc.preload(&names, false),
        3 => sc.preload(&names, true),
        _ => {
            script.push(P::Drain);
            sc.peer(script)
        }
    };
    let check: Check = Rc::new(move |s, o, e| {
        no_panic(s, o, e)?;
        all_done(s, o, e)?;
        app_done(s, o, e)?;
        joined_means_written(s, o, e)?;
        let (f, rest) = split_output(&o.written)?;
        ensure!(rest.is_empty(), "incomplete frame {:?}", show(&rest));
        let got: Vec<Value> =
            f.iter().map(|f| serde_json::from_value::<Message>(f.clone()).map_or(json!(f), |m| answer(&m))).collect();
        ensure!(got == want, "answered {} instead of {}", json!(got), json!(want));
        ensure!(
            o.calls.len() == 2 && o.calls[0].get("initialized").is_some() && o.calls[1] == "served",
            "the server ended with {:?}",
            o.calls
        );
        ensure!(o.join == Some(Ok(())), "joining ended with {:?}", o.join);
        Ok(())
    });
    (sc, check)
}

/// A session with a server that answers in one of many manners.
fn session_as(link: Link, body: &[&'static str], client: usize, manner: usize) -> (Scenario, Check) {
    use crate::serve::{frames, plain, LAZY};
    let mut names = vec!["init", "initialized"];
    names.extend(body);
    names.extend(["shutdown", "exit"]);
    let client = if manner == LAZY && client == 1 { 0 } else { client };
    let mut want: Vec<Value> = vec![];
    let mut script = vec![];
    let mut k = 0;
    let mut due = 0;
    for (i, n) in names.iter().enumerate() {
        let must = match client {
            0 => i == 1 || i == names.len() - 1,
            _ => true,
        };
        if must && want.len() > due {
            due = want.len();
            script.push(P::Frames(due));
        }
        script.push(P::Msg(n));
        let v = incoming(n);
        if v.get("id").is_none() || v.get("method").is_none() {
            continue;
        }
        if ["init", "shutdown"].contains(n) {
            want.push(reply(n).unwrap());
        } else {
            want.extend(frames(&v["id"], manner, k));
            k += 1;
        }
    }
    let sc = Scenario::new(link).app(vec![A::Initialize, A::ServeAs(manner), A::Join]);
    let sc = match client {
        2 => sc.preload(&names, false),
        3 => sc.preload(&names, true),
        _ => {
            script.push(P::Drain);
            sc.peer(script)
        }
    };
    let check: Check = Rc::new(move |s, o, e| {
        no_panic(s, o, e)?;
        all_done(s, o, e)?;
        app_done(s, o, e)?;
        joined_means_written(s, o, e)?;
        let (f, rest) = split_output(&o.written)?;
        ensure!(rest.is_empty(), "incomplete frame {:?}", show(&rest));
        let got: Vec<Value> = f.iter().map(plain).collect();
        ensure!(got == want, "answered {} instead of {}", short(&json!(got)), short(&json!(want)));
        ensure!(
            o.calls.len() == 2 && o.calls[0].get("initialized").is_some() && o.calls[1] == "served",
            "the server ended with {:?}",
            o.calls
        );
        ensure!(o.join == Some(Ok(())), "joining ended with {:?}", o.join);
        Ok(())
    });
    (sc, check)
}

fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() < 3000 { s } else { format!("{}...", s.chars().take(3000).collect::<String>()) }
}

const TALK: [&str; 12] =
    ["targets", "sources", "req", "note", "resp", "compile", "task", "err", "badsources", "req2", "cancel", "exitreq"];

fn memory_session(body: Vec<&'static str>, pipelined: bool) -> (Box<dyn FnOnce()>, Oracle) {
    let mut names = vec!["init", "initialized"];
    names.extend(body);
    names.extend(["shutdown", "exit"]);
    let want: Vec<Value> = names.iter().filter_map(|n| reply(n)).collect();
    program(
        move |log| {
            let (client, server) = Connection::memory();
            let h = mcrt::spawn(Some("server".into()), false, move || {
                let a = initialize(&server);
                let b = serve(server);
                json!([a.get("initialized").is_some(), b])
            });
            let mut got = vec![];
            for n in names {
                let _ = client.send(message(n));
                if !pipelined && reply(n).is_some() {
                    if let Ok(m) = client.receiver.recv() {
                        got.push(answer(&m));
                    }
                }
            }
            got.extend(client.receiver.iter().map(|m| answer(&m)));
            let r = h.join().ok();
            log.borrow_mut().push(json!([got, r]));
        },
        move |log, end| {
            quiet(end)?;
            ensure!(log.len() == 1 && log[0][0] == json!(want), "answered {log:?} instead of {want:?}");
            ensure!(log[0][1] == json!([true, "served"]), "the server ended with {}", log[0][1]);
            Ok(())
        },
    )
}

pub fn p25(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let mut out = vec![];
    let before: [&[&'static str]; 4] = [&[], &["req"], &["note", "targets"], &["task", "exitreq", "req2"]];
    for link in LINKS {
        let depth = if deep { 4 } else if link == Link::Listen { 2 } else { 3 };
        let n = seq_count(TALK.len(), depth);
        let k = before.len() * 4;
        let make = move |i: usize| {
            let (i, r) = (i / k, i % k);
            session(link, before[r / 4], &seq(&TALK, i), r % 4, Default::default())
        };
        out.push(Job::many(
            format!("{link:?}: all sessions of up to {depth} messages, four kinds of client"),
            n * k,
            move |i| {
                let (sc, c) = make(i);
                setup(&sc, c)
            },
            move |i| format!("{:?} after {:?}, client {}", seq(&TALK, i / k), before[i % k / 4], i % 4),
        ));
        // However the bytes are cut.
        let body = ["targets", "note", "sources", "req"];
        out.push(Job::many(
            format!("{link:?}: a session in reads and writes of every size"),
            150 * 4,
            move |i| {
                let e = || Env { max: Some(i / 4 + 1), ..Env::default() };
                let (sc, c) = session(link, &["req"], &body, i % 4, (e(), e()));
                setup(&sc, c)
            },
            |i| format!("at most {} bytes, client {}", i / 4 + 1, i % 4),
        ));
        // Whatever the answers are.
        let depth = if deep { 4 } else { 3 };
        let asks = ["req", "targets", "compile", "note", "resp"];
        let n = seq_count(asks.len(), depth);
        let m = crate::serve::MANNERS;
        out.push(Job::many(
            format!("{link:?}: servers that answer in {m} manners"),
            n * m * 4,
            move |i| {
                let (sc, c) = session_as(link, &seq(&asks, i / 4 / m), i % 4, i / 4 % m);
                setup(&sc, c)
            },
            move |i| format!("{:?}, client {}, manner {}", seq(&asks, i / 4 / m), i % 4, i / 4 % m),
        ));
        let n = wide_texts().end;
        out.push(Job::many(
            format!("{link:?}: sessions with a wide range of messages"),
            n * 4,
            move |i| {
                let w = wide_name(i / 4);
                let before: &[&'static str] = if i % 4 > 1 && !matches!(described(w)["kind"].as_str(), Some("response")) { &[w] } else { &[] };
                let (sc, c) = session(link, before, &["targets", w, "req"], i % 4, Default::default());
                setup(&sc, c)
            },
            |i| format!("{}, client {}", incoming(wide_name(i / 4)), i % 4),
        ));
        let counts = [10, 31, 33, 65, 100, 101, 129, 257, 513, 1001, if deep { 5000 } else { 1500 }];
        out.push(Job::many(
            format!("{link:?}: long sessions"),
            counts.len() * 4 * 3,
            move |i| {
                let n = if i % 4 == 1 { counts[i / 12].min(513) } else { counts[i / 12] };
                let pool: &[&'static str] = [&TALK[..], &["req"], &["note", "targets"]][i / 4 % 3];
                let body: Vec<&'static str> = (0..n).map(|k| pool[k % pool.len()]).collect();
                let before: Vec<&'static str> = (0..if i % 4 == 3 { n } else { 0 }).map(|k| ["req", "note"][k % 2]).collect();
                let (sc, c) = session(link, &before, &body, i % 4, Default::default());
                setup(&sc, c)
            },
            move |i| format!("{} messages, client {}, kind {}", counts[i / 12], i % 4, i / 4 % 3),
        ));
        for (body, mode) in [
            (vec!["targets"], 0),
            (vec!["req", "note"], 2),
            (vec!["sources", "resp", "targets"], 2),
            (vec!["req"], 1),
            (vec!["note", "req"], 3),
            (vec!["targets", "req"], 0),
        ] {
            let heavy = mode < 2;
            let cfg = if !deep && heavy {
                Config { preemptions: Some(2), ..Config::default() }
            } else if deep && heavy {
                Config { preemptions: Some(4), ..Config::default() }
            } else if !deep && body.len() > 1 {
                Config { preemptions: Some(3), ..Config::default() }
            } else {
                Config::default()
            };
            let (sc, c) = session(link, &[], &body, mode, Default::default());
            out.push(sched(format!("{link:?}: session {body:?}, client {mode}"), cfg, sc, c));
        }
        // Small pipes and a client that writes everything before it reads anything.
        for cap in [40, 100] {
            let (mut sc, c) = session(link, &[], &["targets", "req"], 0, Default::default());
            sc.out_cap = cap;
            out.push(sched(
                format!("{link:?}: session through a pipe of {cap} bytes"),
                Config { preemptions: Some(if deep { 3 } else { 2 }), ..Config::default() },
                sc,
                c,
            ));
        }
    }
    let depth = if deep { 5 } else { 4 };
    out.push(Job::many(
        format!("in memory: all sessions of up to {depth} messages"),
        seq_count(TALK.len(), depth) * 2,
        move |i| memory_session(seq(&TALK, i / 2), i % 2 == 0),
        move |i| format!("{:?}, pipelined {}", seq(&TALK, i / 2), i % 2 == 0),
    ));
    out.push(Job::many(
        "in memory: long sessions, and sessions with a wide range of messages".to_string(),
        wide_texts().end * 2 + 20,
        move |i| match (i / 2).checked_sub(wide_texts().end) {
            None => memory_session(vec!["targets", wide_name(i / 2), "req"], i % 2 == 0),
            Some(k) => memory_session((0..[30, 33, 65, 100, 101, 129, 257, 513, 1001, 2000][k]).map(|k| TALK[k % TALK.len()]).collect(), i % 2 == 0),
        },
        |i| format!("{i}"),
    ));
    for (body, pipelined) in
        [(vec!["targets", "req"], true), (vec!["note", "sources"], false), (vec!["req", "resp", "req2"], true), (vec!["req"], false)]
    {
        out.push(Job::one(format!("in memory: session {body:?}, pipelined {pipelined}"), Config::default(), move || {
            memory_session(body.clone(), pipelined)
        }));
    }
    out
}
