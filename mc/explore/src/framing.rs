//! P03: streams of bytes, well-formed and not, against a reference parser. P24: what is on stdout.

use crate::alloc;
use crate::job::*;
use crate::msgs::*;
use crate::session::*;
use crate::traffic::*;
use mcrt::explore::Config;
use mcrt::pipe::{Env, Quirk};
use serde_json::Value;
use std::io::ErrorKind;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ending {
    Clean,
    Error,
    /// What happens from here on is not specified, but for doing no harm.
    Unspecified,
}

/// What a stream means.
pub fn reference(bytes: &[u8]) -> (Vec<Value>, Ending) {
    let mut out = vec![];
    let mut at = 0;
    loop {
        if at == bytes.len() {
            return (out, Ending::Clean);
        }
        let mut len = None;
        loop {
            let Some(n) = bytes[at..].iter().position(|b| *b == b'\n') else {
                let part = &bytes[at..];
                // An unfinished line that is no text either way.
                return (out, if std::str::from_utf8(part).is_err() { Ending::Unspecified } else { Ending::Error });
            };
            let line = &bytes[at..at + n + 1];
            at += n + 1;
            if !line.ends_with(b"\r\n") {
                return (out, if std::str::from_utf8(line).is_err() { Ending::Unspecified } else { Ending::Error });
            }
            let Ok(line) = std::str::from_utf8(&line[..line.len() - 2]) else {
                return (out, Ending::Unspecified);
            };
            if line.is_empty() {
                break;
            }
            let Some((name, value)) = line.split_once(": ") else { return (out, Ending::Error) };
            if !name.eq_ignore_ascii_case("content-length") {
                continue;
            }
            if len.is_some() {
                return (out, Ending::Unspecified);
            }
            let digits = !value.is_empty() && value.bytes().all(|b| b.is_ascii_digit());
            let t = value.trim().trim_start_matches('+');
            if (digits && value.len() > 1 && value.starts_with('0')) || (t != value && t.parse::<u128>().is_ok()) {
                return (out, Ending::Unspecified);
            }
            match value.parse::<usize>() {
                Ok(n) => len = Some(n),
                Err(_) => return (out, Ending::Error),
            }
        }
        let Some(len) = len else { return (out, Ending::Error) };
        if bytes.len() - at < len {
            return (out, Ending::Error);
        }
        let body = &bytes[at..at + len];
        at += len;
        let Ok(text) = std::str::from_utf8(body) else { return (out, Ending::Error) };
        let Ok(v) = serde_json::from_str::<Value>(text) else { return (out, Ending::Error) };
        match accept(&v) {
            Some(true) => {
                let d = describe_json(&v);
                let exit = d["kind"] == "notification" && d["method"] == "build/exit";
                out.push(d);
                if exit {
                    return (out, Ending::Clean);
                }
            }
            Some(false) => return (out, Ending::Error),
            None => return (out, Ending::Unspecified),
        }
    }
}

/// Whether a body is a message (custom methods and exit only).
fn accept(v: &Value) -> Option<bool> {
    let Some(o) = v.as_object() else { return Some(false) };
    let id = o.get("id").filter(|i| !i.is_null());
    let good = id.is_none_or(|i| i.is_string() || i.as_i64().is_some_and(|n| i32::try_from(n).is_ok()));
    match o.get("method") {
        Some(m) => Some(m.is_string() && good),
        None if id.is_none() || !good => Some(false),
        None => match o.get("error") {
            None | Some(Value::Null) => Some(true),
            Some(e) => {
                let e = e.as_object()?;
                let ok = e.get("code").and_then(|c| c.as_i64()).is_some_and(|c| i32::try_from(c).is_ok())
                    && e.get("message").is_some_and(|m| m.is_string());
                ok.then_some(true)
            }
        },
    }
}

fn judged(bytes: &[u8]) -> Check {
    let (want, end) = reference(bytes);
    Rc::new(move |sc, o, e| {
        no_panic(sc, o, e)?;
        all_done(sc, o, e)?;
        app_done(sc, o, e)?;
        let got: Vec<&Value> = o.recvd.iter().map(|r| &r.what).collect();
        let n = got.len().min(want.len());
        ensure!(
            got[..n] == want.iter().collect::<Vec<_>>()[..n] && got.len() >= want.len(),
            "delivered {got:?} where the stream holds {want:?}"
        );
        if end == Ending::Unspecified {
            return Ok(());
        }
        ensure!(got.len() == want.len(), "delivered {} messages where the stream holds {}: {got:?}", got.len(), want.len());
        match &o.join {
            Some(Ok(())) => ensure!(end == Ending::Clean, "joining reports success although the stream is malformed"),
            Some(Err(x)) => ensure!(end == Ending::Error, "joining reports {x:?} although the stream is well-formed"),
            None => return Err("not joined".into()),
        }
        ensure!(
            alloc::largest() < (8 << 20).max(4 * o.in_written.len()),
            "{} bytes were allocated at once for a stream of {}",
            alloc::largest(),
            o.in_written.len()
        );
        Ok(())
    })
}

fn stream(link: Link, bytes: &[u8], env: Env) -> Scenario {
    Scenario::new(link).bytes(bytes, true).renv(env).app(vec![A::RecvAll, A::DropConn, A::Join])
}

fn bytes_job(
    name: String,
    link: Link,
    cases: usize,
    make: impl Fn(usize) -> (Vec<u8>, Env) + Clone + 'static,
) -> Job {
    let m2 = make.clone();
    Job::many(
        name,
        cases,
        move |i| {
            let (b, env) = make(i);
            alloc::reset();
            setup(&stream(link, &b, env), judged(&b))
        },
        move |i| {
            let (b, env) = m2(i);
            format!("{:?} reads cut at {:?}", show(&b), env.cuts)
        },
    )
}

fn body(k: usize) -> (Vec<u8>, &'static str) {
    match k {
        0 => (on_wire(&incoming("req")).to_string().into_bytes(), ""),
        1 => (on_wire(&incoming("note")).to_string().into_bytes(), ""),
        2 => (on_wire(&incoming("exit")).to_string().into_bytes(), ""),
        3 => (b"{\"id\":1,".to_vec(), ""),
        4 => (b"{\"method\":\"\xff\xfe\"}".to_vec(), ""),
        5 => (b"".to_vec(), ""),
        6 => (b"{\"id\":3,\"method\":\"a\\r\\n\\r\\nContent-Length: 2\\r\\n\"}".to_vec(), ""),
        7 => (b"\r\n {\"id\":\"\xf0\x9f\xa6\x80\"\r\n,\r\n\r\n\"result\":null}\r\n\r\n".to_vec(), ""),
        _ => (b"{\"id\":null}".to_vec(), ""),
    }
}
const BODIES: usize = 9;

const LINES: usize = 17;
fn line(k: usize, n: usize) -> String {
    match k {
        0 => format!("Content-Length: {n}\r\n"),
        1 => "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n".into(),
        2 => format!("content-length: {n}\r\n"),
        3 => format!("CONTENT-LENGTH: {}\r\n", n + 1),
        4 => format!("cOnTeNt-LeNgTh: {}\r\n", n.saturating_sub(1)),
        5 => "X: a: b\r\n".into(),
        6 => format!("Content-Length-X: {}\r\n", n + 2),
        7 => "garbage\r\n".into(),
        8 => format!("Content-Length:{n}\r\n"),
        9 => format!("Content-Length: {n}\n"),
        10 => "Content-Length: \r\n".into(),
        11 => "Content-Length: ten\r\n".into(),
        12 => "Content-Length: -1\r\n".into(),
        13 => "Content-Length: 99999999999999999999\r\n".into(),
        14 => format!("Content-Length: {n}.0\r\n"),
        15 => "Naïve-Größe: \u{1F980}\r\n".into(),
        _ => format!("X-Content-Length: {}\r\n", n + 3),
    }
}

fn samples() -> Vec<Vec<u8>> {
    let note = on_wire(&incoming("note")).to_string();
    let with = format!("Content-Type: t\r\ncontent-LENGTH: {}\r\nX: : \r\n\r\n{note}", note.len()).into_bytes();
    vec![
        [frames(&["req"]), with.clone(), frames(&["resp"])].concat(),
        [with.clone(), frames(&["exit", "req"])].concat(),
        [frame(&on_wire(&incoming("err"))), with, frames(&["n1"])].concat(),
    ]
}

pub fn p03(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let mut out = vec![];
    for link in [Link::Connect, Link::Stdio, Link::Listen] {
        let light = link == Link::Listen && !deep;
        // Header lines.
        let depth = if light { 2 } else if deep { 4 } else { 3 };
        let heads = seq_count(LINES, depth);
        let lines: Vec<usize> = (0..LINES).collect();
        let tails = 3 * BODIES * 2;
        out.push(bytes_job(
            format!("{link:?}: all headers of up to {depth} lines, every body"),
            link,
            heads * tails,
            move |i| {
                let (h, t) = (i / tails, i % tails);
                let (stop, t) = (t % 3, t / 3);
                let (b, more) = (t % BODIES, t / BODIES);
                let body = body(b).0;
                let mut s = String::new();
                for l in seq(&lines, h) {
                    s.push_str(&line(l, body.len()));
                }
                s.push_str(["\r\n", "\n", ""][stop]);
                let mut v = s.into_bytes();
                if stop < 2 || b < 2 {
                    v.extend(&body);
                }
                if more == 1 {
                    v.extend(frames(&["n7"]));
                }
                (v, Env::default())
            },
        ));
        for (k, s) in samples().into_iter().enumerate() {
            let n = s.len();
            // Ends anywhere.
            let s2 = s.clone();
            out.push(bytes_job(format!("{link:?}: stream {k} ends after every byte"), link, (n + 1) * 3, move |i| {
                let max = [None, Some(1), Some(7)][i % 3];
                (s2[..i / 3].to_vec(), Env { max, ..Env::default() })
            }));
            // One byte changed, lost, added.
            let s2 = s.clone();
            let values = if light { 16 } else { 256 };
            out.push(bytes_job(format!("{link:?}: stream {k}, every byte changed to each of {values} values"), link, n * values, move |i| {
                let mut v = s2.clone();
                v[i / values] = if values == 256 { (i % 256) as u8 } else { b"\r\n :0:{}\"x,\0\xff\x80\xf0C"[i % 16] };
                (v, Env::default())
            }));
            let s2 = s.clone();
            out.push(bytes_job(format!("{link:?}: stream {k}, every byte lost"), link, n, move |i| {
                let mut v = s2.clone();
                v.remove(i);
                (v, Env::default())
            }));
            let s2 = s.clone();
            const ADD: &[u8] = b"\r\n :0:{}\"x,\0\xff\x80\xf0C1-+.eE[]tfnul\\/\t";
            out.push(bytes_job(format!("{link:?}: stream {k}, a byte added anywhere"), link, (n + 1) * ADD.len(), move |i| {
                let mut v = s2.clone();
                v.insert(i / ADD.len(), ADD[i % ADD.len()]);
                (v, Env::default())
            }));
            if !light {
                let s2 = s.clone();
                out.push(bytes_job(format!("{link:?}: stream {k}, a run of bytes lost"), link, n * 40, move |i| {
                    let (a, b) = (i / 40, i % 40 + 2);
                    let mut v = s2.clone();
                    v.drain(a..(a + b).min(n));
                    (v, Env::default())
                }));
            }
            let s2 = s.clone();
            let pairs = if deep { n * n } else { n };
            out.push(bytes_job(format!("{link:?}: stream {k}, reads cut {}", if deep { "twice" } else { "once" }), link, pairs, move |i| {
                let (a, b) = (i / n, i % n);
                (s2.clone(), Env { cuts: vec![a.min(b), a.max(b)], ..Env::default() })
            }));
        }
        // Announced lengths nobody sends.
        let sizes = ["10000000", "100000000", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"];
        out.push(bytes_job(format!("{link:?}: huge lengths"), link, sizes.len() * 4, move |i| {
            let mut v = frames(&["req"]);
            v.extend(format!("Content-Length: {}\r\n\r\n", sizes[i / 4]).bytes());
            v.extend(&b"{\"method\":\"x\"}"[..[0, 1, 7, 14][i % 4]]);
            (v, Env::default())
        }));
        // Sizes of bodies.
        let top = if deep { 20_000 } else { 2_200 };
        out.push(bytes_job(format!("{link:?}: bodies of all sizes up to {top}, and of 65 to 70 kB"), link, top + 5000, move |i| {
            let n = if i < top { i } else { 65_000 + i - top };
            let mut b = "{\"method\":\"x/".to_string();
            b.push_str(&"y".repeat(n));
            b.push_str("\"}");
            ([frame_text(&b), frames(&["n1"])].concat(), Env::default())
        }));
        let large: Vec<usize> = (17..=23).flat_map(|p| [(1 << p) - 1, 1 << p, (1 << p) + 1]).chain([100_000, 1_000_000, 10_000_000, 17_000_000]).collect();
        let l2 = large.clone();
        out.push(Job::many(
            format!("{link:?}: large bodies, large headers, many headers"),
            large.len() * 5,
            move |i| {
                let n = large[i / 5];
                let body = on_wire(&incoming("note")).to_string();
                let head = match i % 5 {
                    0 => String::new(),
                    1 => format!("X: {}\r\n", "y".repeat(n.min(1 << 22))),
                    2 => format!("{}: y\r\n", "X".repeat(n.min(1 << 22))),
                    3 => "X: y\r\n".repeat(n.min(1 << 20) / 6),
                    _ => format!("Content-Type: {}\r\n", "\u{20ac}".repeat(n.min(1 << 20) / 3)),
                };
                let mut s = if i % 5 == 0 {
                    frame_text(&format!("{{\"method\":\"x/{}\"}}", "y".repeat(n - 15)))
                } else {
                    format!("{head}Content-Length: {}\r\n\r\n{body}", body.len()).into_bytes()
                };
                s.extend(frames(&["n1"]));
                alloc::reset();
                setup(&stream(link, &s, Env::default()), judged(&s))
            },
            move |i| format!("{} {}", ["a body of", "a value of", "a name of", "headers of", "a content type of"][i % 5], l2[i / 5]),
        ));
        // An error is no reason to lose what came before or what goes out.
        for k in [0, 4, 9] {
            let mut sc = Scenario::new(link)
                .preload(&["req", "note"], false)
                .bytes(&bad(k), false)
                .app(vec![A::RecvAll, A::Send("ok", How::Block), A::DropConn, A::Join])
                .app(vec![A::Send("m1", How::Block)]);
            sc.in_end = InEnd::Error;
            let ok = all(vec![no_panic, all_done, app_done, inbound, outbound, joined_means_written, join_tells]);
            out.push(sched(format!("{link:?}: invalid frame {k} while messages go out"), Config::default(), sc, ok));
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------

pub fn p24(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let ok = || all(vec![no_panic, all_done, app_done, outbound]);
    let b = How::Block;
    use A::*;
    let link = Link::Stdio;
    let mut out = vec![];
    // Anything in, something out.
    const WORDS: [&str; 9] = ["req", "note", "resp", "exit", "init", "initialized", "shutdown", "custominit", "err"];
    let depth = if deep { 4 } else { 3 };
    let n = seq_count(WORDS.len(), depth);
    let outs: [&[&'static str]; 4] = [&[], &["ok"], &["note", "ok"], &["exit", "err", "big9000"]];
    let per = (BAD + 2) * outs.len();
    out.push(sweep(
        format!("all sequences of up to {depth} messages, every ending, several outputs"),
        n * per,
        move |i| {
            let (w, r) = (i / per, i % per);
            let (e, o) = (r / outs.len(), r % outs.len());
            let names = seq(&WORDS, w);
            let mut a: Vec<A> = outs[o].iter().map(|n| Send(n, b)).collect();
            a.extend([RecvAll, DropConn, Join]);
            let sc = Scenario::new(link).preload(&names, false);
            let mut sc = match e {
                0 => sc.bytes(&[], true),
                1 => sc.bytes(&incoming_frame("exit"), false),
                e => sc.bytes(&bad(e - 2), true),
            };
            sc.in_end = InEnd::Error;
            sc.app(a)
        },
        move |i| format!("{:?}, ending and output {}", seq(&WORDS, i / per), i % per),
        ok(),
    ));
    // Headers, odd bodies, odd messages.
    let lines: Vec<usize> = (0..LINES).collect();
    let heads = seq_count(LINES, if deep { 3 } else { 2 });
    let tails = BODIES * 3;
    let talk = |b: Vec<u8>, out: &[&'static str]| {
        let mut a: Vec<A> = out.iter().map(|n| Send(n, How::Block)).collect();
        a.extend([RecvAll, DropConn, Join]);
        Scenario::new(Link::Stdio).bytes(&b, true).app(a)
    };
    let some: [&[&'static str]; 2] = [&["ok"], &["note", "ok"]];
    out.push(sweep(
        format!("all headers of up to {} lines, every body", if deep { 3 } else { 2 }),
        heads * tails,
        move |i| {
            let (h, t) = (i / tails, i % tails);
            let body = body(t % BODIES).0;
            let mut s: String = seq(&lines, h).into_iter().map(|l| line(l, body.len())).collect();
            s.push_str(["\r\n", "\n", ""][t / BODIES]);
            let mut v = s.into_bytes();
            v.extend(&body);
            v.extend(incoming_frame("n1"));
            talk(v, some[i % 2])
        },
        |i| format!("{i}"),
        ok(),
    ));
    let n = wide_greetings().end;
    out.push(sweep(
        "a wide range of messages".to_string(),
        n * 2,
        move |i| {
            let w = wide_name(i / 2);
            if i % 2 == 0 {
                talk(frames(&["req", w]), &["ok"])
            } else {
                let out = if i / 2 < wide_values().end { w } else { "ok" };
                talk([frames(&[w]), incoming_frame("exit")].concat(), &["m1", out])
            }
        },
        |i| incoming(wide_name(i / 2)).to_string(),
        ok(),
    ));
    for (k, s) in samples().into_iter().enumerate() {
        let n = s.len();
        let values = if deep { 256 } else { 16 };
        let s2 = s.clone();
        out.push(sweep(
            format!("stream {k}, cut off anywhere"),
            n + 1,
            move |i| talk(s2[..i].to_vec(), some[i % 2]),
            |i| format!("after {i} bytes"),
            ok(),
        ));
        out.push(sweep(
            format!("stream {k}, every byte changed to each of {values} values"),
            n * values,
            move |i| {
                let mut s = s.clone();
                s[i / values] = if deep { (i % values) as u8 } else { b"\0\n\r\x1b\" +-09:AZ{}\xff"[i % values] };
                talk(s, some[i % 2])
            },
            move |i| format!("byte {} changed", i / values),
            ok(),
        ));
    }
    // Faults.
    let kinds = [ErrorKind::BrokenPipe, ErrorKind::Interrupted, ErrorKind::Other, ErrorKind::WouldBlock];
    let calls = 40;
    out.push(sweep(
        "a read and a write fail, every two calls".to_string(),
        calls * calls * kinds.len() * 2,
        move |i| {
            let (i, k) = (i / kinds.len(), i % kinds.len());
            let (i, zero) = (i / 2, i % 2);
            let (r, w) = (i / calls, i % calls);
            let mut sc = Scenario::new(link)
                .preload(&["req", "note", "exit"], false)
                .app(vec![Recv, Send("ok", b), Recv, Send("note", b), Send("err", b), RecvAll, Send("null", b), DropConn, Join])
                .renv(Env { max: Some(9), ..Env::default() })
                .wenv(Env { max: Some(9), ..Env::default() });
            sc.renv.at = vec![(r, Quirk::Fail(kinds[k]))];
            sc.wenv.at = vec![(w, if zero == 1 { Quirk::Zero } else { Quirk::Fail(kinds[k]) })];
            sc
        },
        move |i| format!("{i}"),
        ok(),
    ));
    for k in [0, 4, 9, 14, 16] {
        let mut sc = Scenario::new(link)
            .preload(&["req"], false)
            .bytes(&bad(k), true)
            .app(vec![RecvAll, Send("ok", b), DropConn, Join])
            .app(vec![Send("m1", b)]);
        sc.in_end = InEnd::Error;
        out.push(sched(format!("invalid frame {k}"), Config::default(), sc, ok()));
    }
    for (r, w) in [(0, 0), (1, 1), (9, 0), (9, 2)] {
        let mut sc = Scenario::new(link)
            .preload(&["req", "note"], true)
            .renv(Env { max: Some(70), ..Env::default() })
            .app(vec![Recv, Send("ok", b), RecvAll, DropConn, Join])
            .app(vec![Send("m1", b)]);
        sc.renv.at = vec![(r, Quirk::Fail(ErrorKind::Other))];
        sc.wenv.at = vec![(w, Quirk::Fail(ErrorKind::Other))];
        out.push(sched(format!("read {r} and write {w} fail"), Config::default(), sc, ok()));
    }
    // A library thread dies with an unread panic message in sight: nothing of that goes to stdout either.
    let sc = Scenario::new(link)
        .preload(&["req", "note", "exit"], false)
        .app(vec![Recv, DropReceiver, Send("ok", b), DropConn, Join]);
    out.push(sched("dropped receiver".to_string(), Config::default(), sc, ok()));
    out
}
