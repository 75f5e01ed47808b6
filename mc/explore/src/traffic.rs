//! P01, P02, P04 to P09: what goes through a connection, and how it ends.

use crate::job::*;
use crate::msgs::*;
use crate::session::*;
use mcrt::explore::Config;
use mcrt::pipe::{Env, Quirk};
use mcrt::End;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::ErrorKind;
use std::rc::Rc;

pub fn name(s: String) -> &'static str {
    thread_local!(static N: RefCell<HashMap<String, &'static str>> = RefCell::default());
    N.with(|n| *n.borrow_mut().entry(s).or_insert_with_key(|k| Box::leak(k.clone().into_boxed_str())))
}

/// One scenario under every schedule.
pub fn sched(name: String, cfg: Config, sc: Scenario, check: Check) -> Job {
    let mut sc = sc;
    sc.loose_time = cfg.eager_timeouts;
    Job::one(name, cfg, move || setup(&sc, check.clone()))
}

/// Many scenarios, each under the default schedule and every answer its environment may give.
pub fn sweep(
    name: impl Into<String>,
    cases: usize,
    make: impl Fn(usize) -> Scenario + 'static,
    show: impl Fn(usize) -> String + 'static,
    check: Check,
) -> Job {
    Job::many(name, cases, move |i| setup(&make(i), check.clone()), show)
}

/// Sequences over an alphabet, shortest first.
pub fn seq_count(k: usize, depth: usize) -> usize {
    (0..=depth as u32).map(|d| k.pow(d)).sum()
}
pub fn seq<T: Copy>(alphabet: &[T], mut i: usize) -> Vec<T> {
    let k = alphabet.len();
    let mut d = 0;
    while i >= k.pow(d) {
        i -= k.pow(d);
        d += 1;
    }
    (0..d)
        .map(|_| {
            let x = alphabet[i % k];
            i /= k;
            x
        })
        .collect()
}

pub fn frames(names: &[&str]) -> Vec<u8> {
    names.iter().flat_map(|n| incoming_frame(n)).collect()
}

fn pair(n: usize, i: usize) -> (usize, usize) {
    (i / n, i % n)
}

fn listen() -> Vec<A> {
    vec![A::RecvAll, A::DropConn, A::Join]
}

fn full() -> Config {
    Config::default()
}
fn eager() -> Config {
    Config { eager_timeouts: true, ..full() }
}
fn bounded(n: u32) -> Config {
    Config { preemptions: Some(n), ..full() }
}

fn both() -> Vec<fn(&Scenario, &Obs, &End) -> Result<(), String>> {
    vec![no_panic, all_done, app_done, inbound, outbound, joined_means_written, join_tells, send_outcomes]
}

const IN: [&str; 11] =
    ["req", "req2", "note", "task", "resp", "exit", "shutdown", "exitreq", "lspexit", "exitparams", "init"];
const OUT: [&str; 9] = ["ok", "null", "err", "ask", "shutdown", "exit", "task", "note", "targets"];
const OUT_ALL: [&str; 14] = [
    "ok", "null", "err", "ask", "shutdown", "exit", "task", "note", "targets", "init", "initialized", "reqnull",
    "notenull", "m1",
];

// ---------------------------------------------------------------------------------------------

/// The peer writes the stream piece by piece, and goes on past the end of a message only when the
/// application has it.
fn lockstep(names: &[&'static str], cuts: &[usize]) -> (Vec<P>, Vec<A>) {
    let all = frames(names);
    let mut ends = vec![];
    let mut at = 0;
    for n in names {
        at += incoming_frame(n).len();
        ends.push(at);
    }
    let mut stops: Vec<usize> = ends.iter().chain(cuts).copied().collect();
    stops.sort();
    stops.dedup();
    let (mut p, mut a) = (vec![], vec![]);
    let mut from = 0;
    for s in stops {
        p.push(P::Raw(all[from..s].to_vec()));
        match ends.iter().position(|e| *e == s) {
            Some(k) => p.push(P::Await(k as u16)),
            None => p.push(P::Sleep(1)),
        }
        from = s;
    }
    for k in 0..names.len() {
        a.extend([A::Recv, A::Signal(k as u16)]);
    }
    p.push(P::Close);
    a.extend(listen());
    (p, a)
}

pub fn p01(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let ok = || all(vec![no_panic, all_done, app_done, inbound, join_tells]);
    let mut out = vec![];

    // Under every schedule.
    for link in LINKS {
        for (what, names, closed) in [
            ("two messages then end", vec!["req", "note"], true),
            ("exit", vec!["note", "exit"], false),
            ("exit and more", vec!["exit", "req"], false),
            ("three messages", vec!["resp", "req2", "note"], true),
        ] {
            let mut p: Vec<P> = names.iter().map(|n| P::Msg(n)).collect();
            if closed {
                p.push(P::Close);
            }
            let sc = Scenario::new(link).expect(&names, InEnd::Clean).peer(p).app(listen());
            out.push(sched(format!("{link:?}: {what}"), full(), sc, ok()));
        }
        let b = frames(&["req", "note"]);
        let cut = incoming_frame("req").len();
        for at in [1, 16, 20, cut - 1, cut, cut + 5] {
            let sc = Scenario::new(link)
                .expect(&["req", "note"], InEnd::Clean)
                .peer(vec![P::Raw(b[..at].to_vec()), P::Raw(b[at..].to_vec()), P::Close])
                .app(listen());
            out.push(sched(format!("{link:?}: pieces cut at {at}"), full(), sc, ok()));
        }
        let sc = Scenario::new(link)
            .preload(&["req", "note", "resp"], true)
            .app(listen())
            .app(vec![A::RecvAll]);
        out.push(sched(format!("{link:?}: two receivers"), full(), sc, ok()));
        let sc = Scenario::new(link)
            .expect(&["req", "note"], InEnd::Clean)
            .peer(vec![P::Msg("req"), P::Msg("note"), P::Close])
            .app(vec![A::TryRecv, A::RecvTimeout(5), A::TryRecv, A::RecvAll, A::DropConn, A::Join]);
        out.push(sched(format!("{link:?}: impatient receiver"), eager(), sc, ok()));
        let sc = Scenario::new(link)
            .preload(&["req", "note", "exit"], false)
            .app(vec![A::RecvAll, A::Send("ok", How::Block), A::DropConn, A::Join])
            .app(vec![A::Send("note", How::Block)]);
        out.push(sched(format!("{link:?}: with traffic the other way"), full(), sc, ok()));
        for n in [["req", "note"], ["note", "exit"]] {
            let (p, a) = lockstep(&n, &[]);
            let sc = Scenario::new(link).expect(&n, InEnd::Clean).peer(p).app(a);
            out.push(sched(format!("{link:?}: {n:?} one at a time"), full(), sc, ok()));
        }
        if deep {
            let (p, a) = lockstep(&["req", "note", "exit"], &[20]);
            let sc = Scenario::new(link).expect(&["req", "note", "exit"], InEnd::Clean).peer(p).app(a);
            out.push(sched(format!("{link:?}: three in pieces one at a time"), full(), sc, ok()));
            let sc = Scenario::new(link)
                .expect(&["req", "note", "exit"], InEnd::Clean)
                .peer(vec![P::Msg("req"), P::Msg("note"), P::Msg("exit")])
                .app(vec![A::RecvAll, A::Send("ok", How::Block), A::DropConn, A::Join])
                .app(vec![A::RecvAll]);
            out.push(sched(format!("{link:?}: two receivers, live peer"), bounded(3), sc, ok()));
            let sc = Scenario::new(link)
                .preload(&["req", "note", "resp", "req2"], true)
                .app(listen())
                .app(vec![A::RecvAll])
                .app(vec![A::Recv]);
            out.push(sched(format!("{link:?}: three receivers"), bounded(3), sc, ok()));
        }
    }

    for link in LINKS {
        // However the stream is cut into reads.
        let names = ["req", "note", "exit", "req2"];
        let n = frames(&names).len() + 1;
        let base = move || Scenario::new(link).preload(&names, false).app(listen());
        if link == Link::Connect || deep {
            out.push(sweep(
                format!("{link:?}: every two cuts of {names:?}"),
                n * n,
                move |i| {
                    let (a, b) = pair(n, i);
                    base().renv(Env { cuts: vec![a.min(b), a.max(b)], ..Env::default() })
                },
                move |i| format!("reads end at {:?}", pair(n, i)),
                ok(),
            ));
        } else {
            out.push(sweep(
                format!("{link:?}: every cut of {names:?}"),
                n,
                move |i| base().renv(Env { cuts: vec![i], ..Env::default() }),
                move |i| format!("a read ends at {i}"),
                ok(),
            ));
        }
        out.push(sweep(
            format!("{link:?}: every read size for {names:?}"),
            120,
            move |i| base().renv(Env { max: Some(i + 1), ..Env::default() }),
            move |i| format!("reads of at most {} bytes", i + 1),
            ok(),
        ));
        // A message is there as soon as it is complete.
        let names = ["note", "resp", "req2"];
        let n = frames(&names).len() + 1;
        let cases = if deep { n * n } else { n };
        out.push(sweep(
            format!("{link:?}: delivered when complete, {} of {names:?}", if deep { "every two cuts" } else { "every cut" }),
            cases,
            move |i| {
                let (a, b) = pair(n, i);
                let (p, a) = lockstep(&names, &[a, b].map(|x| x.clamp(1, n - 2)));
                Scenario::new(link).expect(&names, InEnd::Clean).peer(p).app(a)
            },
            move |i| format!("written up to {:?}, then on when nothing moves", pair(n, i)),
            ok(),
        ));
        // All sequences of messages.
        let depth = if deep { 5 } else if link == Link::Connect { 4 } else { 3 };
        out.push(sweep(
            format!("{link:?}: all sequences of up to {depth} messages"),
            seq_count(IN.len(), depth),
            move |i| Scenario::new(link).preload(&seq(&IN, i), true).app(listen()),
            move |i| format!("{:?}", seq(&IN, i)),
            ok(),
        ));
        // Sizes around those of buffers.
        let mut sizes: Vec<usize> = vec![];
        for s in [0usize, 1024, 4096, 8192, 16384, 65536] {
            let w = if deep { 300 } else { 24 };
            sizes.extend((s / 16).saturating_sub(w / 16)..=(s / 16) + w / 16);
        }
        let chunks = [usize::MAX, 1000, 4096, 8191, 8192, 8193];
        let k = sizes.len();
        out.push(sweep(
            format!("{link:?}: messages around the sizes of buffers"),
            k * chunks.len(),
            move |i| {
                let (c, s) = pair(k, i);
                let big = name(format!("big{}", sizes[s] * 16));
                Scenario::new(link)
                    .preload(&["req", big, "note", "exit"], false)
                    .renv(Env { max: Some(chunks[c]), ..Env::default() })
                    .app(listen())
            },
            move |i| format!("size {} of {k}, reads of at most {}", i % k, chunks[i / k]),
            ok(),
        ));
        out.push(wide(link, move |n| Scenario::new(link).preload(&[n, "req", n, "exit"], false).app(listen()), ok()));
        out.push(large(link, move |n| Scenario::new(link).preload(&["req", n, "note"], true).app(listen()), ok()));
        for late in [false, true] {
            out.push(twos(
                format!("{link:?}: every two kinds of messages{}", if late { ", taken late" } else { "" }),
                move |[x, y]| {
                    let mut a = if late { vec![A::Sleep(1_000), A::Recv, A::Sleep(1_000)] } else { vec![] };
                    a.extend(listen());
                    Scenario::new(link).preload(&[x, y, x, y], true).app(a)
                },
                ok(),
            ));
        }
        let all: Vec<&'static str> = IN.into_iter().filter(|n| !is_exit(n)).collect();
        out.push(long(link, all.len(), move |k, m| Scenario::new(link).preload(&alternating(&all, k, m), true).app(listen()), ok()));
        let mut counts = vec![50, 300];
        counts.extend(deep.then_some(1500));
        let c2 = counts.clone();
        out.push(sweep(
            format!("{link:?}: long runs of messages, one at a time, with pauses"),
            counts.len() * PAUSES.len(),
            move |i| {
                let (c, q) = pair(PAUSES.len(), i);
                let names = alternating(&["req", "note", "resp"], 0, counts[c]);
                let (mut p, a) = lockstep(&names, &[]);
                if PAUSES[q] > 0 {
                    p = p.into_iter().flat_map(|p| [p, P::Sleep(PAUSES[q])]).collect();
                }
                Scenario::new(link).expect(&names, InEnd::Clean).peer(p).app(a)
            },
            move |i| format!("{} messages, {} ns apart", c2[i / PAUSES.len()], PAUSES[i % PAUSES.len()]),
            ok(),
        ));
    }
    out
}

/// From nothing to a day.
const PAUSES: [u64; 6] = [0, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000];

/// Every message of a wide range.
fn wide(link: Link, make: impl Fn(&'static str) -> Scenario + 'static, check: Check) -> Job {
    let (n, k) = (wide_values().end, wide_known());
    let at = move |i: usize| wide_name(if i < n { i } else { k.start + i - n });
    let a2 = at.clone();
    sweep(format!("{link:?}: a wide range of messages"), n + wide_known().len(), move |i| make(at(i)), move |i| incoming(a2(i)).to_string(), check)
}

/// Every two messages of all kinds that there are, alike ones and the same one included.
fn twos(name: String, make: impl Fn([&'static str; 2]) -> Scenario + 'static, check: Check) -> Job {
    let (k, n) = (wide_known().start, wide_known().len());
    let at = move |i: usize| [wide_name(k + i / n), wide_name(k + i % n)];
    sweep(name, n * n, move |i| make(at(i)), move |i| at(i).map(incoming).map(|v| v.to_string()).join(" and "), check)
}

/// Alike ones from several threads at once.
fn contended(link: Link, cfg: Config, threes: bool, check: Check) -> Job {
    let (k, n) = (wide_known().start, wide_known().len());
    let at = move |i: usize| [i / 3, if i % 3 < 2 { i / 3 ^ (i % 3) } else { (i / 3 + 2) % n }].map(|j| wide_name(k + j));
    let make = move |i: usize| {
        let [x, y] = at(i);
        let (x, y) = (A::Send(x, How::Block), A::Send(y, How::Block));
        let sc = Scenario::new(link).closing().expect(&[], InEnd::Clean).app(vec![x.clone(), A::DropConn, A::Join]).app(vec![y]);
        if threes { sc.app(vec![x]) } else { sc }
    };
    let mut j = sweep(
        format!("{link:?}: {} threads with messages that are alike", if threes { 3 } else { 2 }),
        n * 3,
        make,
        move |i| at(i).map(incoming).map(|v| v.to_string()).join(" and "),
        check,
    );
    j.cfg = cfg;
    j
}

/// Every message, written in every way.
pub fn spelled(link: Link, deep: bool) -> Job {
    let names: Vec<&'static str> = IN.into_iter().chain(["init", "initb", "badsources", "cancel", "initialized", "compile", "log", "err", "empty", "custominit"]).chain(wide_known().map(wide_name)).collect();
    let step = if deep || link == Link::Connect { 1 } else { 9 };
    let names: Vec<&'static str> = names.into_iter().chain((0..wide_values().end).step_by(step).map(wide_name)).collect();
    let n2 = names.clone();
    let n = names.len();
    let case = move |i: usize| {
        let (way, k) = (i / n, i % n);
        let next = (k + 1) % n;
        [(way, k), ((way + 1) % WAYS_TO_WRITE, next), (way, k)].map(|(w, k)| name(format!("v{w}:{}", names[k])))
    };
    sweep(
        format!("{link:?}: every message in every spelling"),
        n * WAYS_TO_WRITE,
        move |i| Scenario::new(link).preload(&case(i), true).app(listen()),
        move |i| show(&incoming_frame(&format!("v{}:{}", i / n, n2[i % n]))),
        all(vec![no_panic, all_done, app_done, inbound, join_tells]),
    )
}

/// What is written in one way after another, on its own and among others, comes in as what it is.
pub fn p19(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let mut out: Vec<Job> = LINKS.map(|link| spelled(link, deep)).into();
    for link in LINKS {
        let names = ["v4:req", "v6:note", "v1:targets", "v11:resp", "v10:exit"];
        let n = frames(&names).len() + 1;
        out.push(sweep(
            format!("{link:?}: every cut of {names:?}"),
            n,
            move |i| Scenario::new(link).preload(&names, false).app(listen()).renv(Env { cuts: vec![i], ..Env::default() }),
            |i| format!("a read ends at {i}"),
            all(vec![no_panic, all_done, app_done, inbound, join_tells]),
        ));
    }
    out
}

/// Messages far larger than any buffer.
fn large(link: Link, make: impl Fn(&'static str) -> Scenario + 'static, check: Check) -> Job {
    let mut sizes = vec![];
    for p in 17..=23 {
        sizes.extend([(1usize << p) - 200, 1 << p, (1 << p) + 200]);
    }
    sizes.extend([100_000, 1_000_000, 3_000_000, 10_000_000, 17_000_000]);
    let s2 = sizes.clone();
    sweep(
        format!("{link:?}: messages far larger than any buffer"),
        sizes.len(),
        move |i| make(name(format!("big{}", sizes[i]))),
        move |i| format!("about {} bytes", s2[i]),
        check,
    )
}

/// How long the long runs are.
const COUNTS: [usize; 9] = [17, 33, 65, 101, 129, 257, 513, 1025, 2000];

/// Runs of one message and runs of all of them.
fn alternating(all: &[&'static str], k: usize, m: usize) -> Vec<&'static str> {
    (0..m).map(|i| if k == 0 { all[i % all.len()] } else { all[k - 1] }).collect()
}

fn long(link: Link, kinds: usize, make: impl Fn(usize, usize) -> Scenario + 'static, check: Check) -> Job {
    sweep(
        format!("{link:?}: long runs of messages, all alike and mixed"),
        COUNTS.len() * (kinds + 1),
        move |i| make(i % (kinds + 1), COUNTS[i / (kinds + 1)]),
        move |i| format!("{} messages, {}", COUNTS[i / (kinds + 1)], i % (kinds + 1)),
        check,
    )
}

// ---------------------------------------------------------------------------------------------

pub fn p02(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let ok = || all(vec![no_panic, all_done, app_done, inbound, outbound, joined_means_written, join_tells]);
    let mut out = vec![];
    use A::*;
    let b = How::Block;
    for link in LINKS {
        let base = || Scenario::new(link).closing().expect(&[], InEnd::Clean);
        let sc = base().app(vec![Send("ok", b), Send("note", b), DropConn, Join]).app(vec![Send("m1", b)]);
        out.push(sched(format!("{link:?}: two senders"), full(), sc, ok()));
        let sc = base()
            .app(vec![Send("ok", b), Signal(0), Await(1), Send("err", b), DropConn, Join])
            .app(vec![Await(0), Send("m1", b), Signal(1), Send("m2", b)]);
        out.push(sched(format!("{link:?}: senders ordered by signals"), full(), sc, ok()));
        let sc = base()
            .app(vec![Send("ok", b), Send("null", b), DropConn, Join])
            .app(vec![Send("m1", b)])
            .wenv(Env { quirks: vec![Quirk::Short(1), Quirk::Short(9)], budget: 2, ..Env::default() });
        out.push(sched(format!("{link:?}: partial writes"), if deep { full() } else { bounded(2) }, sc, ok()));
        let sc = base()
            .app(vec![Send("ok", b), Send("note", b), DropConn, Join])
            .app(vec![Send("m1", b)])
            .out_cap(40)
            .peer(vec![P::Drain]);
        out.push(sched(format!("{link:?}: small pipe"), if deep { full() } else { bounded(2) }, sc, ok()));
        let sc = Scenario::new(link)
            .preload(&["req", "note", "exit"], false)
            .app(vec![RecvAll, Send("ok", b), DropConn, Join])
            .app(vec![Send("m1", b), Send("m2", b)]);
        out.push(sched(format!("{link:?}: while messages come in"), full(), sc, ok()));
        let sc = base()
            .app(vec![Send("ok", How::Try), Send("m1", How::Timeout(50)), Send("m2", How::Deadline(50)), DropConn, Join])
            .app(vec![Send("m3", How::Channel)]);
        out.push(sched(format!("{link:?}: all ways to send"), if deep { eager() } else { Config { eager_timeouts: true, ..bounded(2) } }, sc, ok()));
        let sc = base().app(vec![Insist("ok"), Insist("m1"), DropConn, Join]).app(vec![Insist("m3")]);
        out.push(sched(format!("{link:?}: insisting senders"), full(), sc, ok()));
        let sc = base()
            .app(vec![Send("m1", b), DropConn, Join])
            .app(vec![Send("m2", b)])
            .app(vec![Send("m3", b)]);
        out.push(sched(format!("{link:?}: three senders"), full(), sc, ok()));
        if deep {
            let sc = base()
                .app(vec![Send("m1", b), Send("ok", b), DropConn, Join])
                .app(vec![Send("m2", b), Send("note", b)])
                .app(vec![Send("m3", b), Send("err", b)]);
            out.push(sched(format!("{link:?}: three senders of two"), bounded(3), sc, ok()));
        }
    }
    for link in LINKS {
        let base = move |names: Vec<&'static str>| {
            let mut a: Vec<A> = names.into_iter().map(|n| Send(n, b)).collect();
            a.extend([DropConn, Join]);
            Scenario::new(link).closing().expect(&[], InEnd::Clean).app(a)
        };
        let depth = if deep { 5 } else if link == Link::Connect { 4 } else { 3 };
        out.push(sweep(
            format!("{link:?}: all sequences of up to {depth} messages"),
            seq_count(OUT.len(), depth),
            move |i| base(seq(&OUT, i)),
            move |i| format!("{:?}", seq(&OUT, i)),
            ok(),
        ));
        let names = || vec!["ok", "note", "err", "task"];
        let n = names().iter().map(|n| calibrated(n).len()).sum::<usize>() + 1;
        let cases = if deep || link == Link::Stdio { n * n } else { n };
        out.push(sweep(
            format!("{link:?}: writes cut at every {} of four messages", if cases > n { "two positions" } else { "position" }),
            cases,
            move |i| {
                let (x, y) = pair(n, i);
                base(names()).wenv(Env { cuts: vec![x.min(y), x.max(y)], ..Env::default() })
            },
            move |i| format!("writes end at {:?}", pair(n, i)),
            ok(),
        ));
        out.push(sweep(
            format!("{link:?}: every write size"),
            120,
            move |i| base(names()).wenv(Env { max: Some(i + 1), ..Env::default() }),
            move |i| format!("writes of at most {} bytes", i + 1),
            ok(),
        ));
        // Big messages through small pipes.
        let sizes = [100, 1000, 1024, 4080, 8000, 8176, 8192, 16384, 70000];
        let caps = [64usize, 1000, 4096, 8192, 65536];
        out.push(sweep(
            format!("{link:?}: big messages through small pipes"),
            sizes.len() * caps.len(),
            move |i| {
                let (s, c) = pair(caps.len(), i);
                let big = name(format!("big{}", sizes[s]));
                base(vec!["m1", big, "m2", big, "m3"]).out_cap(caps[c]).peer(vec![P::Drain])
            },
            move |i| format!("{:?}", pair(caps.len(), i)),
            ok(),
        ));
        out.push(wide(link, move |n| base(vec!["m1", n, "m2"]), ok()));
        out.push(twos(format!("{link:?}: every two kinds of messages"), move |[x, y]| base(vec![x, y, x, y]), ok()));
        out.push(contended(link, if deep { full() } else { bounded(1) }, false, ok()));
        out.push(contended(link, if deep { full() } else { bounded((link == Link::Connect) as u32) }, true, ok()));
        out.push(large(link, move |n| base(vec!["m1", n, "m2"]), ok()));
        out.push(long(link, OUT.len(), move |k, m| base(alternating(&OUT, k, m)), ok()));
        out.push(sweep(
            format!("{link:?}: long runs of messages, one at a time, with pauses"),
            PAUSES.len(),
            move |i| {
                let mut a: Vec<A> = (0..200).flat_map(|k| [Send(name(format!("m{k}")), b), Sleep(PAUSES[i].max(1))]).collect();
                a.extend([DropConn, Join]);
                Scenario::new(link).closing().expect(&[], InEnd::Clean).app(a)
            },
            |i| format!("{} ns apart", PAUSES[i]),
            ok(),
        ));
    }
    out
}

// ---------------------------------------------------------------------------------------------

/// The application sends, and goes on only when the peer has the whole frame.
fn lockstep_out(names: &[&'static str]) -> (Vec<P>, Vec<A>) {
    let (mut p, mut a) = (vec![], vec![]);
    for (k, n) in names.iter().enumerate() {
        a.extend([A::Send(n, How::Block), A::Await(k as u16)]);
        p.extend([P::Frames(k + 1), P::Signal(k as u16)]);
    }
    a.extend([A::DropConn, A::Join]);
    p.push(P::Drain);
    (p, a)
}

pub fn p04(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let ok = || all(vec![no_panic, all_done, app_done, outbound, joined_means_written, join_tells]);
    let mut out = vec![];
    for link in LINKS {
        let base = move |names: &[&'static str]| {
            let (p, a) = lockstep_out(names);
            Scenario::new(link).closing().expect(&[], InEnd::Clean).peer(p).app(a)
        };
        for n in [["ok", "note"], ["exit", "task"]] {
            out.push(sched(format!("{link:?}: {n:?} one at a time"), full(), base(&n), ok()));
        }
        let sc = base(&["ok", "note"])
            .wenv(Env { quirks: vec![Quirk::Short(1), Quirk::Short(17), Quirk::Short(30)], budget: 2, ..Env::default() });
        out.push(sched(format!("{link:?}: one at a time, partial writes"), if deep { full() } else { bounded(2) }, sc, ok()));
        let depth = if deep { 4 } else if link == Link::Listen { 2 } else { 3 };
        out.push(sweep(
            format!("{link:?}: all sequences of up to {depth} messages, one at a time"),
            seq_count(OUT_ALL.len(), depth),
            move |i| base(&seq(&OUT_ALL, i)),
            move |i| format!("{:?}", seq(&OUT_ALL, i)),
            ok(),
        ));
        let k = OUT_ALL.len();
        out.push(sweep(
            format!("{link:?}: every message, every write size"),
            k * 130,
            move |i| {
                let (m, w) = pair(130, i);
                base(&[OUT_ALL[m], OUT_ALL[(m + 1) % k]]).wenv(Env { max: Some(w + 1), ..Env::default() })
            },
            move |i| format!("{} in writes of at most {}", OUT_ALL[i / 130], i % 130 + 1),
            ok(),
        ));
        // Lengths.
        let mut sizes: Vec<usize> = (37..if deep { 3000 } else { 1200 }).collect();
        for s in [4096, 8192, 9999, 16384, 32768, 65536, 99999, 131072] {
            sizes.extend(s - 60..s + 30);
        }
        let sizes = Rc::new(sizes);
        let s2 = sizes.clone();
        out.push(sweep(
            format!("{link:?}: bodies of every length up to {}, and around powers of two and ten", if deep { 3000 } else { 1200 }),
            sizes.len(),
            move |i| base(&[name(format!("size{}", sizes[i])), "m1"]),
            move |i| format!("a body of {} bytes", s2[i]),
            ok(),
        ));
        out.push(wide(link, move |n| base(&[n, "m1"]), ok()));
        out.push(large(link, move |n| base(&["m1", n, "m2"]), ok()));
        out.push(sweep(
            format!("{link:?}: long runs of messages, one at a time"),
            COUNTS.len(),
            move |i| base(&alternating(&["ok", "note", "m1", "exit", "err"], 0, COUNTS[i].min(if deep { 2000 } else { 600 }))),
            |i| format!("{} messages", COUNTS[i]),
            ok(),
        ));
        // Every character there is.
        if link == Link::Connect || deep {
            out.push(sweep(
                format!("{link:?}: every Unicode character, in params, ids, keys and error messages"),
                0x110000 / 64,
                move |i| base(&[name(format!("chars{i}"))]),
                move |i| format!("characters from U+{:04X}", i * 64),
                ok(),
            ));
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------

const KINDS: [ErrorKind; 8] = [
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
];

/// Joining reports one of the errors that were injected.
fn join_kind(sc: &Scenario, o: &Obs, _: &End) -> Result<(), String> {
    if let Some(Err((k, m))) = &o.join {
        let mut ok = vec![];
        if o.failed_reads > 0 {
            ok.extend(sc.renv.at.iter().map(|a| &a.1).chain(&sc.renv.quirks).filter_map(fault));
        }
        if o.failed_writes > 0 {
            ok.extend(sc.wenv.at.iter().map(|a| &a.1).chain(&sc.wenv.quirks).filter_map(fault));
            if ok.is_empty() {
                ok.push(ErrorKind::BrokenPipe);
            }
        }
        ensure!(ok.is_empty() || ok.contains(k), "joining reports {k:?} ({m}) and not the error that happened: {ok:?}");
    }
    Ok(())
}

fn fault(q: &Quirk) -> Option<ErrorKind> {
    match q {
        Quirk::Fail(ErrorKind::Interrupted) | Quirk::Short(_) => None,
        Quirk::Fail(k) => Some(*k),
        Quirk::Zero => Some(ErrorKind::WriteZero),
    }
}

/// After a failed write and time to stop, sends fail.
fn late_send_fails(_: &Scenario, o: &Obs, _: &End) -> Result<(), String> {
    for s in &o.sends {
        if s.name == "m9" && s.writer_failed_before {
            ensure!(
                matches!(s.result, Sent::Back { waited: false, .. }),
                "writing failed and stopped, yet a later send is {:?}",
                s.result
            );
        }
    }
    Ok(())
}

fn fault_free(_: &Scenario, o: &Obs, _: &End) -> Result<(), String> {
    ensure!(matches!(o.join, None | Some(Ok(()))), "joining reports {:?} for a call that was only interrupted", o.join);
    for s in &o.sends {
        ensure!(s.result == Sent::Ok, "sending {} ended with {:?} for a call that was only interrupted", s.name, s.result);
    }
    Ok(())
}

pub fn p05(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let ok = || {
        let mut c = both();
        c.extend([join_kind as fn(&Scenario, &Obs, &End) -> _, late_send_fails]);
        all(c)
    };
    let b = How::Block;
    use A::*;
    let mut out = vec![];
    let ends: [(&[&'static str], bool); 3] =
        [(&["req", "note", "resp"], true), (&["req", "note", "exit"], false), (&["req", "big9000", "note"], true)];
    for link in LINKS {
        let base = move |e: usize, max: usize| {
            Scenario::new(link)
                .preload(ends[e].0, ends[e].1)
                .app(vec![
                    Recv, Send("ok", b), Recv, Send("note", b), Send("err", b), RecvAll, Sleep(1000), Send("m9", b), DropConn, Join,
                ])
                .renv(Env { max: Some(max), ..Env::default() })
                .wenv(Env { max: Some(max), ..Env::default() })
        };
        // After long runs.
        out.push(sweep(
            format!("{link:?}: a call fails after long runs of messages"),
            COUNTS.len() * 6 * 3,
            move |i| {
                let (i, k) = pair(3, i);
                let (c, w) = pair(6, i);
                let n = COUNTS[c];
                let mut a: Vec<A> = (0..n).flat_map(|k| [Recv, Send(["ok", "note", "err"][k % 3], b)]).collect();
                a.extend([RecvAll, Sleep(1000), Send("m9", b), DropConn, Join]);
                let mut sc = Scenario::new(link).preload(&alternating(&["req", "note", "resp"], 0, n), true).app(a);
                let kind = [ErrorKind::BrokenPipe, ErrorKind::Other, ErrorKind::Interrupted][k];
                match w {
                    0 => sc.wenv.at = vec![(n - 1, Quirk::Fail(kind))],
                    1 => sc.wenv.at = vec![(n / 2, Quirk::Fail(kind))],
                    2 => sc.wenv.at = vec![(n, Quirk::Zero)],
                    3 => {
                        sc.renv.max = Some(100);
                        sc.renv.at = vec![(n / 2, Quirk::Fail(kind))];
                    }
                    4 => {
                        sc.renv.max = Some(30);
                        sc.renv.at = vec![(n, Quirk::Fail(kind))];
                    }
                    _ => {}
                }
                sc
            },
            |i| format!("{} messages, fault {}", COUNTS[i / 18], i % 18),
            ok(),
        ));
        let maxes = [9usize, 40, usize::MAX];
        let calls = 45;
        let per = calls * KINDS.len();
        let case = move |i: usize| {
            let (r, k) = (i % per, i / per);
            (k / maxes.len(), k % maxes.len(), r / KINDS.len(), r % KINDS.len())
        };
        out.push(sweep(
            format!("{link:?}: a read fails, every call, every error"),
            ends.len() * maxes.len() * per,
            move |i| {
                let (e, m, call, kind) = case(i);
                let mut sc = base(e, maxes[m]);
                sc.renv.at = vec![(call, Quirk::Fail(KINDS[kind]))];
                sc
            },
            move |i| format!("{:?}", case(i)),
            ok(),
        ));
        out.push(sweep(
            format!("{link:?}: a write fails, every call, every error"),
            ends.len() * maxes.len() * per,
            move |i| {
                let (e, m, call, kind) = case(i);
                let mut sc = base(e, maxes[m]);
                // Instead of one of the errors: nothing is accepted.
                let q = if kind == KINDS.len() - 1 { Quirk::Zero } else { Quirk::Fail(KINDS[kind]) };
                sc.wenv.at = vec![(call, q)];
                sc
            },
            move |i| format!("{:?}", case(i)),
            ok(),
        ));
        // Two faults.
        let n = if deep { calls } else { 24 };
        out.push(sweep(
            format!("{link:?}: a read and a write fail, every two calls"),
            n * n * ends.len(),
            move |i| {
                let (e, i) = pair(n * n, i);
                let (x, y) = pair(n, i);
                let mut sc = base(e, if deep { 9 } else { 20 });
                sc.renv.at = vec![(x, Quirk::Fail(ErrorKind::ConnectionReset))];
                sc.wenv.at = vec![(y, Quirk::Fail(ErrorKind::BrokenPipe))];
                sc
            },
            move |i| format!("{:?}", (i / n / n, i / n % n, i % n)),
            ok(),
        ));
        // Interrupted calls.
        let quiet = || {
            let mut c = both();
            c.push(fault_free);
            all(c)
        };
        let int = || Quirk::Fail(ErrorKind::Interrupted);
        out.push(sweep(
            format!("{link:?}: calls are interrupted, each and every two"),
            calls * calls * ends.len(),
            move |i| {
                let (e, i) = pair(calls * calls, i);
                let (x, y) = pair(calls, i);
                let mut sc = base(e, 11);
                sc.renv.at = vec![(x, int()), (y, int()), (y + 1, int())];
                sc.wenv.at = vec![(y, int()), (x, int()), (x + 1, int())];
                sc
            },
            move |i| format!("{:?}", (i / calls / calls, i / calls % calls, i % calls)),
            quiet(),
        ));
        out.push(sweep(
            format!("{link:?}: every other call is interrupted"),
            40 * ends.len(),
            move |i| {
                let (e, m) = pair(40, i);
                let mut sc = base(e, m + 1);
                sc.renv.at = (0..20_000).step_by(2).map(|k| (k, int())).collect();
                sc.wenv.at = sc.renv.at.clone();
                if e == 2 {
                    sc.renv.max = Some(m * 50 + 50);
                }
                sc
            },
            move |i| format!("{:?}", pair(40, i)),
            quiet(),
        ));
        // Under every schedule.
        for call in 0..2 {
            let mut sc = Scenario::new(link)
                .preload(&["req", "note"], true)
                .app(vec![Recv, Send("ok", b), RecvAll, Sleep(1000), Send("m9", b), DropConn, Join])
                .app(vec![Send("m1", b)]);
            sc.wenv.at = vec![(call, Quirk::Fail(ErrorKind::BrokenPipe))];
            out.push(sched(format!("{link:?}: write {call} fails"), full(), sc.clone(), ok()));
            sc.wenv.at.clear();
            sc.renv = Env { max: Some(60), at: vec![(call + 1, Quirk::Fail(ErrorKind::ConnectionReset))], ..Env::default() };
            out.push(sched(format!("{link:?}: read {} fails", call + 1), full(), sc, ok()));
        }
        let sc = Scenario::new(link)
            .preload(&["req", "exit"], false)
            .app(vec![RecvAll, Send("ok", b), Send("note", b), Sleep(1000), Send("m9", b), DropConn, Join])
            .peer(vec![P::CloseRx]);
        out.push(sched(format!("{link:?}: the peer stops reading at any time"), full(), sc, ok()));
        let sc = Scenario::new(link)
            .preload(&["req", "exit"], false)
            .app(vec![RecvAll, Send("ok", b), Send("note", b), Sleep(1000), Send("m9", b), DropConn, Join])
            .out_cap(30)
            .peer(vec![P::Frames(1), P::CloseRx]);
        out.push(sched(format!("{link:?}: the peer stops reading midway"), full(), sc, ok()));
        let sc = Scenario::new(link)
            .preload(&["req"], true)
            .app(vec![RecvAll, Send("ok", b), Insist("m1"), Sleep(1000), Send("m9", b), DropConn, Join])
            .wenv(Env { quirks: vec![Quirk::Fail(ErrorKind::BrokenPipe), int(), Quirk::Short(3)], budget: 2, ..Env::default() });
        out.push(sched(format!("{link:?}: writes fail at any time"), bounded(if deep { 4 } else { 2 }), sc, ok()));
        let sc = Scenario::new(link)
            .preload(&["req", "note"], true)
            .app(vec![RecvAll, Send("ok", b), DropConn, Join])
            .renv(Env { quirks: vec![Quirk::Fail(ErrorKind::ConnectionReset), int(), Quirk::Short(3)], budget: 3, ..Env::default() });
        out.push(sched(format!("{link:?}: reads fail at any time"), bounded(if deep { 4 } else { 2 }), sc, ok()));
    }
    out
}

// ---------------------------------------------------------------------------------------------

/// Streams that are no frames.
pub fn bad(k: usize) -> Vec<u8> {
    let good = frame(&on_wire(&incoming("req")));
    match k {
        0 => b"garbage\r\n\r\n".to_vec(),
        1 => b"Content-Length: x\r\n\r\n{}".to_vec(),
        2 => b"Content-Type: y\r\n\r\n{}".to_vec(),
        3 => b"Content-Length: 2\n\n{}".to_vec(),
        4 => frame_text("{\"id\":1"),
        5 => frame_text("[1]"),
        6 => frame_text("null"),
        7 => frame_text("{\"jsonrpc\":\"2.0\",\"method\":1}"),
        8 => frame_text("{\"jsonrpc\":\"2.0\",\"id\":1.5,\"method\":\"x\"}"),
        9 => b"Content-Length: 2\r\n\r\n\xff\xff".to_vec(),
        10 => b"Content-Length: 0\r\n\r\n".to_vec(),
        11 => frame_text("{\"jsonrpc\":\"2.0\",\"method\":\"build/taskStart\",\"params\":{\"taskId\":7}}"),
        12 => b"Content-Length: 18446744073709551615\r\n\r\n{}".to_vec(),
        13 => frame_text("{} {}"),
        // Only as the last thing in the stream.
        14 => good[..10].to_vec(),
        15 => good[..21].to_vec(),
        16 => good[..good.len() - 1].to_vec(),
        _ => b"Content-Length: 20\r\n".to_vec(),
    }
}
pub const BAD: usize = 18;
const BAD_ANYWHERE: usize = 14;

/// Nothing is taken from the stream beyond the frame that ended reading.
fn reads_no_more(limit: usize) -> Check {
    Rc::new(move |_, o, _| {
        ensure!(o.consumed <= limit, "read {} bytes, {} past the point where reading must end", o.consumed, o.consumed - limit);
        Ok(())
    })
}

pub fn also(a: Check, b: Check) -> Check {
    Rc::new(move |s, o, e| {
        a(s, o, e)?;
        b(s, o, e)
    })
}

pub fn p06(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let ok = || all(both());
    let b = How::Block;
    use A::*;
    let mut out = vec![];
    for link in LINKS {
        // Bytes after an exit are left where they are.
        let words = ["req", "note", "exit", "resp", "exitreq", "exitparams"];
        let tails: Vec<Vec<u8>> =
            vec![vec![], incoming_frame("req"), incoming_frame("exit"), b"garbage\r\n".to_vec(), vec![0xff; 40], b"C".to_vec()];
        let depth = if deep { 4 } else { 3 };
        let n = seq_count(words.len(), depth);
        let k = tails.len() * 2;
        let make = move |i: usize| {
            let (w, t) = pair(k, i);
            let mut names = seq(&words, w);
            names.push("exit");
            let closed = t % 2 == 1;
            let at = names.iter().position(|n| is_exit(n)).unwrap();
            let ends: Vec<usize> = (0..names.len()).map(|j| frames(&names[..=j]).len()).collect();
            let limit = ends[at];
            let sc = Scenario::new(link)
                .preload(&names, false)
                .bytes(&tails[t / 2], closed)
                .renv(Env { cuts: ends, ..Env::default() })
                .app(vec![RecvAll, Recv, Send("ok", b), TryRecv, DropConn, Join]);
            (sc, limit)
        };
        out.push(Job::many(
            format!("{link:?}: all sequences of up to {depth} messages and an exit, followed by anything"),
            n * k,
            move |i| {
                let (sc, limit) = make(i);
                setup(&sc, also(all(both()), reads_no_more(limit)))
            },
            move |i| format!("{:?} and an exit, tail {}", seq(&words, i / k), i % k),
        ));
        // Whatever came before, and however much comes after.
        let m = wide_texts().end;
        let make = move |i: usize| {
            let names: Vec<&'static str> = if i < m {
                vec!["req", wide_name(i), "exit", wide_name(i), "req"]
            } else {
                let (c, k) = pair(2, i - m);
                let mut v = alternating(&["req", "note", "exitreq"], 0, COUNTS[c]);
                v.push("exit");
                v.extend(alternating(&["req", "exit", "note"], 0, if k == 0 { 1 } else { COUNTS[c] }));
                v
            };
            let at = names.iter().position(|n| *n == "exit").unwrap();
            let limit = frames(&names[..=at]).len();
            (Scenario::new(link).preload(&names, false).renv(Env { cuts: vec![limit], ..Env::default() }).app(vec![RecvAll, Recv, Send("ok", b), DropConn, Join]), limit)
        };
        out.push(Job::many(
            format!("{link:?}: a wide range of messages and long runs of them before an exit, more after it"),
            m + COUNTS.len() * 2,
            move |i| {
                let (sc, limit) = make(i);
                setup(&sc, also(all(both()), reads_no_more(limit)))
            },
            move |i| if i < m { incoming(wide_name(i)).to_string() } else { format!("{:?}", pair(2, i - m)) },
        ));
        // An invalid frame ends reading.
        let words = ["req", "note", "resp"];
        let n = seq_count(words.len(), 3);
        let make = move |i: usize| {
            let (w, t) = pair(BAD * 2, i);
            let names = seq(&words, w);
            let kind = t / 2;
            // An endless body is an error when the stream ends.
            let closed = t % 2 == 1 || kind >= BAD_ANYWHERE || kind == 12;
            let at = frames(&names).len();
            let bad = bad(kind);
            let mut sc = Scenario::new(link).preload(&names, false).bytes(&bad, false);
            if kind < BAD_ANYWHERE {
                sc = sc.bytes(&frames(&["req2", "exit"]), closed);
            } else {
                sc = sc.bytes(&[], true);
            }
            sc.in_end = InEnd::Error;
            let limit = if kind < BAD_ANYWHERE && kind != 12 { at + bad.len() } else { usize::MAX };
            let mut cuts: Vec<usize> = (0..names.len()).map(|j| frames(&names[..=j]).len()).collect();
            cuts.push(at + bad.len());
            (
                sc.renv(Env { cuts, ..Env::default() })
                    .app(vec![RecvAll, Recv, Send("ok", b), TryRecv, DropConn, Join]),
                limit,
            )
        };
        out.push(Job::many(
            format!("{link:?}: all sequences of up to 3 messages and an invalid frame, then more"),
            n * BAD * 2,
            move |i| {
                let (sc, limit) = make(i);
                setup(&sc, also(all(both()), reads_no_more(limit)))
            },
            move |i| format!("{:?}, invalid {}, {}", seq(&words, i / BAD / 2), i / 2 % BAD, i % 2),
        ));
        // Nobody listens.
        let w2 = ["req", "note", "resp"];
        let n = seq_count(w2.len(), 3);
        out.push(sweep(
            format!("{link:?}: the application drops its connection after any number of messages"),
            n * 4 * 3,
            move |i| {
                let (i, how) = pair(3, i);
                let (w, taken) = pair(4, i);
                let names = seq(&w2, w);
                let mut a = vec![Recv; taken.min(names.len())];
                a.extend(match how {
                    0 => vec![DropConn, Signal(0), Join],
                    1 => vec![DropReceiver, Signal(0), Send("ok", b), Send("note", b), DropConn, Join],
                    _ => vec![Send("ok", b), DropReceiver, DropSender, Signal(0), Join],
                });
                Scenario::new(link)
                    .preload(&names, false)
                    .app(a)
                    .peer(vec![P::Await(0), P::Sleep(1), P::Msg("req2")])
                    .expect(&names, InEnd::Clean)
            },
            move |i| format!("{:?}: {} taken, drop {}", seq(&w2, i / 12), i / 3 % 4, i % 3),
            ok(),
        ));
        for (what, sc) in [
            (
                "exit, stream left open",
                Scenario::new(link)
                    .expect(&["note", "exit"], InEnd::Clean)
                    .peer(vec![P::Msg("note"), P::Msg("exit"), P::Msg("req")])
                    .app(vec![RecvAll, Recv, Send("ok", b), DropConn, Join]),
            ),
            (
                "drop while messages come",
                Scenario::new(link)
                    .expect(&["note", "req", "resp"], InEnd::Clean)
                    .peer(vec![P::Msg("note"), P::Msg("req"), P::Msg("resp"), P::Await(0), P::Msg("req2")])
                    .app(vec![Recv, DropConn, Signal(0), Join]),
            ),
            (
                "drop by two holders while messages come",
                Scenario::new(link)
                    .preload(&["note", "req", "resp"], false)
                    .expect(&["note", "req", "resp"], InEnd::Clean)
                    .peer(vec![P::Await(0), P::Await(1), P::Msg("req2")])
                    .app(vec![DropConn, Signal(0), Join])
                    .app(vec![Recv, DropConn, Signal(1)]),
            ),
            (
                "drop and end of stream",
                Scenario::new(link)
                    .expect(&["note"], InEnd::Clean)
                    .peer(vec![P::Msg("note"), P::Close])
                    .app(vec![DropConn, Join]),
            ),
            (
                "error, then more",
                Scenario::new(link)
                    .expect(&["note"], InEnd::Error)
                    .peer(vec![P::Msg("note"), P::Raw(bad(0)), P::Msg("req")])
                    .app(vec![RecvAll, Recv, Send("ok", b), DropConn, Join]),
            ),
            (
                "exit to two receivers",
                Scenario::new(link)
                    .preload(&["note", "exit", "req"], false)
                    .app(vec![RecvAll, DropConn, Join])
                    .app(vec![RecvAll, RecvAll]),
            ),
        ] {
            out.push(sched(format!("{link:?}: {what}"), full(), sc, ok()));
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------

/// Ways for the incoming side to end, with one message before.
fn ending(link: Link, k: usize) -> Scenario {
    let sc = Scenario::new(link);
    match k {
        0 => sc.preload(&["req", "exit"], false),
        1 => sc.preload(&["req"], true),
        2 => {
            let mut s = sc.preload(&["req"], false).bytes(&bad(4), false);
            s.in_end = InEnd::Error;
            s
        }
        3 => {
            let mut s = sc.preload(&["req"], false).bytes(&bad(14), true);
            s.in_end = InEnd::Error;
            s
        }
        4 => {
            let mut s = sc.preload(&["req", "note"], true);
            s.renv = Env { max: Some(60), at: vec![(1, Quirk::Fail(ErrorKind::ConnectionReset))], ..Env::default() };
            s
        }
        _ => sc.preload(&["req", "exit", "note"], true),
    }
}
const ENDINGS: usize = 6;

pub fn p07(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let ok = || all(both());
    let b = How::Block;
    use A::*;
    let mut out = vec![];
    for link in LINKS {
        let caps = [1usize, 7, 50, 200, usize::MAX];
        let words = ["ok", "note", "big600"];
        let depth = 3;
        let n = seq_count(words.len(), depth);
        let peers = 3;
        let orders = 3;
        let total = n * ENDINGS * caps.len() * peers * orders;
        let split = move |i: usize| {
            let (i, e) = pair(ENDINGS, i);
            let (i, c) = pair(caps.len(), i);
            let (i, p) = pair(peers, i);
            let (w, o) = pair(orders, i);
            (e, c, p, o, w)
        };
        out.push(sweep(
            format!("{link:?}: every ending, every output of up to {depth} messages, slow peers"),
            total,
            move |i| {
                let (e, c, p, o, w) = split(i);
                let sends: Vec<A> = seq(&words, w).into_iter().map(|n| Send(n, b)).collect();
                let tail = [DropConn, Join];
                let a = match o {
                    0 => [&[RecvAll], &sends[..], &tail].concat(),
                    1 => [&sends[..], &[RecvAll], &tail].concat(),
                    _ => [&[Recv], &sends[..], &[RecvAll, Recv], &tail].concat(),
                };
                let peer = match p {
                    0 => vec![P::Drain],
                    1 => vec![P::Sleep(50), P::Drain],
                    _ => vec![P::Frames(1), P::Sleep(500), P::Drain],
                };
                ending(link, e).app(a).out_cap(caps[c]).peer(peer)
            },
            move |i| format!("(ending, pipe, peer, order, output) {:?}", split(i)),
            ok(),
        ));
        out.push(sweep(
            format!("{link:?}: every ending, long runs of output, slow peers"),
            ENDINGS * COUNTS.len() * 6,
            move |i| {
                let (i, k) = pair(6, i);
                let (e, c) = pair(COUNTS.len(), i);
                let mut a: Vec<A> = alternating(&words, 0, COUNTS[c]).into_iter().map(|n| Send(n, b)).collect();
                if k % 2 == 0 {
                    a.insert(0, RecvAll);
                } else {
                    a.push(RecvAll);
                }
                a.extend([DropConn, Join]);
                let peer = vec![P::Sleep([0, 1_000_000_000, 100_000_000_000][k / 2]), P::Drain];
                ending(link, e).app(a).out_cap([usize::MAX, 200, 65_536][k / 2]).peer(peer)
            },
            |i| format!("ending {}, {} messages, {}", i / 6 / COUNTS.len(), COUNTS[i / 6 % COUNTS.len()], i % 6),
            ok(),
        ));
        for e in 0..ENDINGS {
            let sc = ending(link, e).app(vec![RecvAll, Send("ok", b), Send("note", b), DropConn, Join]);
            out.push(sched(format!("{link:?}: ending {e}, two messages out"), full(), sc, ok()));
            let sc = ending(link, e)
                .app(vec![RecvAll, Send("ok", b), DropConn, Join])
                .app(vec![Send("m1", b)]);
            out.push(sched(format!("{link:?}: ending {e}, two senders"), full(), sc, ok()));
            let sc = ending(link, e)
                .app(vec![RecvAll, DropConn, Join])
                .app(vec![Sleep(10), Send("m1", b), Sleep(10), Send("m2", b)]);
            out.push(sched(format!("{link:?}: ending {e}, another thread still sends"), full(), sc, ok()));
            let sc = ending(link, e)
                .app(vec![RecvAll, Send("ok", b), DropConn, Join])
                .out_cap(60)
                .peer(vec![P::Drain]);
            out.push(sched(format!("{link:?}: ending {e}, small pipe"), full(), sc, ok()));
            let mut sc = ending(link, e).app(vec![RecvAll, Send("ok", b), Send("note", b), DropConn, Join]);
            sc.wenv.at = vec![(1, Quirk::Fail(ErrorKind::BrokenPipe))];
            out.push(sched(format!("{link:?}: ending {e}, writing fails"), full(), sc, ok()));
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------

pub fn p08(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let ok = || all(both());
    let b = How::Block;
    use A::*;
    let mut out = vec![];
    for link in LINKS {
        // Sends complete although nothing is received.
        let words = ["ok", "note", "big600"];
        let ins = ["req", "note", "big600"];
        let n = seq_count(words.len(), 3);
        let m = seq_count(ins.len(), 3);
        let caps = [16usize, 1000, usize::MAX];
        out.push(sweep(
            format!("{link:?}: all sends complete before anything is received"),
            n * m * caps.len(),
            move |i| {
                let (i, c) = pair(caps.len(), i);
                let (x, y) = pair(m, i);
                let mut a: Vec<A> = seq(&words, x).into_iter().map(|n| Send(n, b)).collect();
                a.push(Signal(0));
                a.extend(listen());
                Scenario::new(link).preload(&seq(&ins, y), true).app(a).out_cap(caps[c]).peer(vec![P::Drain])
            },
            move |i| format!("{:?} out, {:?} in", seq(&words, i / caps.len() / m), seq(&ins, i / caps.len() % m)),
            ok(),
        ));
        // Everything is received although the peer does not read and a send is stuck.
        out.push(sweep(
            format!("{link:?}: everything is received while sends are stuck"),
            n * m * caps.len(),
            move |i| {
                let (i, c) = pair(caps.len(), i);
                let (x, y) = pair(m, i);
                let mut p: Vec<P> = seq(&ins, y).into_iter().map(P::Msg).collect();
                p.extend([P::Msg("exit"), P::Await(0), P::Drain]);
                let mut e = seq(&ins, y);
                e.push("exit");
                Scenario::new(link)
                    .expect(&e, InEnd::Clean)
                    .app(vec![Sleep(5), RecvAll, Signal(0), DropConn, Join])
                    .app(seq(&words, x).into_iter().map(|n| Send(n, b)).collect())
                    .out_cap(if caps[c] == usize::MAX { 1 } else { caps[c] })
                    .peer(p)
            },
            move |i| format!("{:?} out, {:?} in", seq(&words, i / caps.len() / m), seq(&ins, i / caps.len() % m)),
            ok(),
        ));
        // Only a part of a frame has come, and the peer reads before it goes on.
        let half = ["note", "req", "resp", "exit", "big600"];
        let len = half.iter().map(|n| frames(&[*n]).len()).max().unwrap();
        out.push(sweep(
            format!("{link:?}: sends complete in the middle of an incoming frame"),
            half.len() * len * 3 * 2,
            move |i| {
                let (i, early) = pair(2, i);
                let (i, k) = pair(3, i);
                let (h, cut) = pair(len, i);
                let h = half[h];
                let f = frames(&[h]);
                let cut = cut % f.len();
                let before: &[&'static str] = if k == 2 { &["req2"] } else { &[] };
                let mut bytes = frames(before);
                bytes.extend(&f[..cut]);
                let sends = [&["ok"][..], &["note", "big600"], &["m1", "m2", "m3"]][k];
                let mut p = vec![P::Frames(sends.len()), P::Raw(f[cut..].to_vec())];
                let mut e = before.to_vec();
                e.push(h);
                if h != "exit" {
                    p.push(P::Msg("exit"));
                    e.push("exit");
                }
                p.push(P::Drain);
                let mut a = if early == 0 { vec![Sleep(5)] } else { vec![] };
                a.extend(sends.iter().map(|n| Send(n, b)));
                a.extend(listen());
                let mut sc = Scenario::new(link).expect(&e, InEnd::Clean).app(a).out_cap([usize::MAX, 16, 60][k]);
                if early == 0 {
                    p.insert(0, P::Raw(bytes));
                } else {
                    sc = sc.bytes(&bytes, false);
                }
                sc.peer(p)
            },
            move |i| {
                let h = half[i / 6 / len];
                format!("{h}, cut at {}, {}", i / 6 % len % frames(&[h]).len(), i % 6)
            },
            ok(),
        ));
        // A send is stuck in the middle of a frame, at every place.
        let out_len = 200;
        out.push(sweep(
            format!("{link:?}: everything is received while a send is stuck anywhere"),
            out_len * 3,
            move |i| {
                let (i, k) = pair(3, i);
                let mut e = [&["req"][..], &["note", "big600"], &[]][k].to_vec();
                e.push("exit");
                let mut p: Vec<P> = e.iter().map(|n| P::Msg(n)).collect();
                p.extend([P::Await(0), P::Drain]);
                Scenario::new(link)
                    .expect(&e, InEnd::Clean)
                    .app(vec![Sleep(5), RecvAll, Signal(0), DropConn, Join])
                    .app(vec![Send("note", b), Send("m1", b), Send("ok", b)])
                    .out_cap(i + 1)
                    .peer(p)
            },
            move |i| format!("a pipe of {} bytes, {}", i / 3 + 1, i % 3),
            ok(),
        ));
        out.push(sweep(
            format!("{link:?}: long runs of both"),
            COUNTS.len() * 3 * 3,
            move |i| {
                let (i, k) = pair(3, i);
                let (c, cap) = pair(3, i);
                let n = COUNTS[c];
                let names = alternating(&ins, 0, n);
                let sends: Vec<A> = alternating(&words, 0, n).into_iter().map(|n| Send(n, b)).collect();
                let cap = [60usize, 1000, 70_000][cap];
                match k {
                    0 => {
                        let mut a = sends;
                        a.push(Signal(0));
                        a.extend(listen());
                        Scenario::new(link).preload(&names, true).app(a).out_cap(cap).peer(vec![P::Drain])
                    }
                    1 => {
                        let mut e = names.clone();
                        e.push("exit");
                        let mut p: Vec<P> = e.iter().map(|n| P::Msg(n)).collect();
                        p.extend([P::Await(0), P::Drain]);
                        Scenario::new(link).expect(&e, InEnd::Clean).app(vec![RecvAll, Signal(0), DropConn, Join]).app(sends).out_cap(cap).peer(p)
                    }
                    _ => {
                        let mut e = names.clone();
                        e.push("exit");
                        let mut p: Vec<P> = e.iter().map(|n| P::Msg(n)).collect();
                        p.push(P::Drain);
                        let mut a = sends;
                        a.extend(listen());
                        let mut sc = Scenario::new(link).expect(&e, InEnd::Clean).app(a).out_cap(usize::MAX).in_cap(cap).peer(p);
                        sc.peer.push(vec![]);
                        sc
                    }
                }
            },
            |i| format!("{} messages, {}", COUNTS[i / 9], i % 9),
            ok(),
        ));
        let lvl = if deep { full() } else if link == Link::Listen { bounded(2) } else { bounded(3) };
        for (what, sc) in [
            (
                "input piles up while the application sends",
                Scenario::new(link)
                    .preload(&["req", "note"], true)
                    .app(vec![Send("ok", b), Send("note", b), RecvAll, DropConn, Join])
                    .out_cap(40)
                    .peer(vec![P::Drain]),
            ),
            (
                "a send is stuck while input arrives",
                Scenario::new(link)
                    .expect(&["req", "exit"], InEnd::Clean)
                    .app(vec![RecvAll, Signal(0), DropConn, Join])
                    .app(vec![Send("m1", b), Send("m2", b)])
                    .out_cap(10)
                    .peer(vec![P::Msg("req"), P::Msg("exit"), P::Await(0), P::Drain]),
            ),
            (
                "both pipes are narrow",
                Scenario::new(link)
                    .expect(&["req", "exit"], InEnd::Clean)
                    .app(vec![RecvAll, DropConn, Join])
                    .app(vec![Send("m1", b), Send("m2", b)])
                    .out_cap(30)
                    .in_cap(30)
                    .peer(vec![P::Msg("req"), P::Msg("exit")])
                    .peer(vec![P::Drain]),
            ),
            (
                "the peer answers before it reads on",
                Scenario::new(link)
                    .expect(&["req", "exit"], InEnd::Clean)
                    .app(vec![Send("m1", b), Recv, Send("m2", b), RecvAll, DropConn, Join])
                    .out_cap(30)
                    .peer(vec![P::Frames(1), P::Msg("req"), P::Frames(2), P::Msg("exit"), P::Drain]),
            ),
        ] {
            out.push(sched(format!("{link:?}: {what}"), lvl.clone(), sc, ok()));
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------

pub fn p09(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let ok = || all(both());
    let b = How::Block;
    use A::*;
    const HOW: [How; 11] = [
        How::Ever,
        How::Past,
        How::Block,
        How::Channel,
        How::Try,
        How::Timeout(0),
        How::Timeout(7),
        How::Timeout(1000),
        How::Deadline(0),
        How::Deadline(7),
        How::Deadline(1000),
    ];
    const TIMED: [How; 8] = [
        How::Past,
        How::Try,
        How::Timeout(0),
        How::Timeout(7),
        How::Timeout(1000),
        How::Deadline(0),
        How::Deadline(7),
        How::Deadline(1000),
    ];
    fn send(i: usize, h: How) -> A {
        Send(["m1", "m2", "m3", "m4", "m5", "m6"][i], h)
    }
    let mut out = vec![];
    for link in LINKS {
        out.push(sweep(
            format!("{link:?}: long runs of sends in every way"),
            COUNTS.len() * (HOW.len() + 1) * 3,
            move |i| {
                let (i, s) = pair(3, i);
                let (c, h) = pair(HOW.len() + 1, i);
                let n = COUNTS[c];
                let mut a: Vec<A> = (0..n)
                    .flat_map(|k| [Send(name(format!("m{k}")), if h == 0 { HOW[k % HOW.len()] } else { HOW[h - 1] }), Sleep(if k % 3 == 0 { 9 } else { 1 })])
                    .collect();
                a.extend([DropConn, Join]);
                let sc = Scenario::new(link).closing().expect(&[], InEnd::Clean).app(a);
                match s {
                    0 => sc.peer(vec![P::Drain]),
                    1 => sc.out_cap(300).peer(vec![P::Sleep(3000), P::Drain]),
                    _ => {
                        let mut sc = sc.peer(vec![P::Drain]);
                        sc.wenv.at = vec![(n / 2, Quirk::Fail(ErrorKind::BrokenPipe))];
                        sc
                    }
                }
            },
            |i| format!("{} sends, {}", COUNTS[i / 3 / (HOW.len() + 1)], i / 3 % (HOW.len() + 1)),
            ok(),
        ));
        // The writer is idle, busy (the peer reads nothing), slow, or gone.
        let depth = if deep { 4 } else { 3 };
        let n = seq_count(HOW.len(), depth);
        out.push(sweep(
            format!("{link:?}: all sequences of up to {depth} sends, the peer reads late"),
            n * 4,
            move |i| {
                let (w, s) = pair(4, i);
                let mut a = vec![];
                for (k, h) in seq(&HOW, w).into_iter().enumerate() {
                    a.push(send(k, h));
                }
                a.extend([DropConn, Join]);
                let sc = Scenario::new(link).closing().expect(&[], InEnd::Clean).app(a);
                match s {
                    0 => sc.peer(vec![P::Drain]),
                    1 => sc.out_cap(1).peer(vec![P::Sleep(5), P::Drain]),
                    2 => sc.out_cap(10).peer(vec![P::Sleep(100), P::Frames(1), P::Sleep(100), P::Drain]),
                    _ => sc.out_cap(10).peer(vec![P::Sleep(2000), P::Drain]),
                }
            },
            move |i| format!("{:?}, peer {}", seq(&HOW, i / 4), i % 4),
            ok(),
        ));
        out.push(sweep(
            format!("{link:?}: all sequences of up to {depth} sends that give up, the peer reads nothing"),
            seq_count(TIMED.len(), depth),
            move |w| {
                let mut a = vec![Send("ok", b)];
                for (k, h) in seq(&TIMED, w).into_iter().enumerate() {
                    a.push(Sleep(1));
                    a.push(send(k, h));
                }
                a.extend([Signal(0), DropConn, Join]);
                Scenario::new(link)
                    .closing()
                    .expect(&[], InEnd::Clean)
                    .app(a)
                    .out_cap(3)
                    .peer(vec![P::Await(0), P::Drain])
            },
            move |i| format!("{:?}", seq(&TIMED, i)),
            also(ok(), Rc::new(|_, o, _| {
                // A queue may take it: then it is delivered once the peer reads.
                for s in o.sends.iter().filter(|s| s.how != How::Block) {
                    ensure!(
                        matches!(s.result, Sent::Ok | Sent::Back { waited: true, .. }),
                        "{} ({:?}) ended with {:?} although the connection is up",
                        s.name, s.how, s.result
                    );
                }
                Ok(())
            })),
        ));
        out.push(sweep(
            format!("{link:?}: all sequences of up to {depth} sends after writing has failed"),
            seq_count(HOW.len(), depth),
            move |w| {
                let mut a = vec![Send("ok", b), Sleep(5000)];
                for (k, h) in seq(&HOW, w).into_iter().enumerate() {
                    a.push(send(k, h));
                }
                a.extend([DropConn, Join]);
                let mut sc = Scenario::new(link).closing().expect(&[], InEnd::Clean).app(a);
                sc.wenv.at = vec![(0, Quirk::Fail(ErrorKind::BrokenPipe))];
                sc
            },
            move |i| format!("{:?}", seq(&HOW, i)),
            also(ok(), Rc::new(|_, o, _| {
                for s in o.sends.iter().filter(|s| s.name != "ok") {
                    ensure!(
                        matches!(s.result, Sent::Back { waited: false, same: true }),
                        "{} ({:?}) ended with {:?} although writing has failed",
                        s.name, s.how, s.result
                    );
                }
                Ok(())
            })),
        ));
        // Races.
        for (x, hx) in HOW.into_iter().enumerate() {
            if !deep && matches!(hx, How::Ever | How::Past | How::Channel | How::Deadline(0) | How::Deadline(1000) | How::Timeout(1000)) {
                continue;
            }
            for hy in &HOW[x..] {
                if !deep && matches!(hy, How::Ever | How::Past | How::Channel | How::Timeout(0) | How::Deadline(1000) | How::Timeout(1000)) {
                    continue;
                }
                let sc = Scenario::new(link)
                    .closing()
                    .expect(&[], InEnd::Clean)
                    .app(vec![send(0, hx), send(1, *hy), DropConn, Join])
                    .app(vec![send(2, *hy)]);
                let cfg = Config { eager_timeouts: true, ..if deep { full() } else { bounded(3) } };
                out.push(sched(format!("{link:?}: {hx:?} against {hy:?}"), cfg, sc, ok()));
            }
        }
        for h in HOW {
            let mut sc = Scenario::new(link)
                .closing()
                .expect(&[], InEnd::Clean)
                .app(vec![send(0, b), send(1, h), DropConn, Join])
                .app(vec![send(2, h)]);
            sc.wenv.at = vec![(0, Quirk::Fail(ErrorKind::BrokenPipe))];
            let cfg = Config { eager_timeouts: true, ..full() };
            out.push(sched(format!("{link:?}: {h:?} while writing fails"), cfg.clone(), sc, ok()));
            let sc = Scenario::new(link)
                .preload(&["exit"], false)
                .app(vec![send(0, h), RecvAll, send(1, h), DropConn, Join])
                .out_cap(20)
                .peer(vec![P::Drain]);
            let cfg = if deep { cfg } else { Config { preemptions: Some(2), ..cfg } };
            out.push(sched(format!("{link:?}: {h:?} around exit, small pipe"), cfg, sc, ok()));
        }
    }
    out
}
