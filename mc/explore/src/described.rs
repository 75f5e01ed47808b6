//! Everything the library can be asked to write about a message.

use crate::job::Job;
use crate::msgs::*;
use bsp_server::{ExtractError, Message, Notification, Request};
use serde_json::Value;

/// Takes so many bytes and then no more.
struct Narrow {
    left: usize,
    took: usize,
}
impl std::fmt::Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.took += s.len();
        Ok(())
    }
}

fn formatted(what: &dyn std::fmt::Debug, bad: &mut Vec<String>) {
    use std::fmt::Write;
    let into = |left: usize, how: usize| {
        let mut w = Narrow { left, took: 0 };
        let r = match how {
            0 => write!(w, "{what:?}"),
            1 => write!(w, "{what:#?}"),
            2 => write!(w, "{what:3?}"),
            3 => write!(w, "{what:<40?}"),
            4 => write!(w, "{what:+#08.2?}"),
            _ => write!(w, "{what:x?}"),
        };
        (r.is_ok(), w.took)
    };
    for how in 0..6 {
        let (ok, len) = into(usize::MAX, how);
        if !ok {
            bad.push(format!("cannot be formatted (way {how})"));
        }
        // Where it has to stop: nowhere, early, in the middle, and just before the end.
        for left in (0..len.min(if how < 2 { 40 } else { 3 })).chain([len / 2, len.saturating_sub(1)]) {
            if left < len && into(left, how).0 {
                bad.push(format!("was formatted (way {how}) although only {left} of {len} bytes were taken"));
            }
        }
    }
}

/// Formatting what there is to log, in every way it can be asked for: it comes to an end, and changes nothing.
pub fn described() -> Job {
    const NAMED: &[&str] = &[
        "req", "req2", "targets", "sources", "init", "initb", "cancel", "initialized", "initializedp", "initreq", "shutdown", "exit", "note",
        "note2", "task", "resp", "err", "empty", "exitreq", "lspexit", "exitparams", "downnote", "compile", "log", "big70", "big5000", "r1", "n1",
    ];
    const OUT: &[&str] = &[
        "ok", "null", "err", "ask", "shutdown", "exit", "task", "note", "targets", "init", "initialized", "reqnull", "notenull", "size0",
        "size300", "chars0", "chars1", "chars2", "chars3", "chars128", "chars1025", "big70", "m1",
    ];
    let wide = wide_greetings().end;
    let message = move |case: usize| -> Option<Message> {
        if case < wide {
            serde_json::from_value(on_wire(&incoming(wide_name(case)))).ok()
        } else if case < 2 * wide {
            let v = incoming(wide_name(case - wide));
            let plain = |i: Option<&Value>| i.map_or(true, |i| i.is_string() || i.as_i64().map_or(false, |i| i32::try_from(i).is_ok()));
            let error = v.get("error").map_or(true, |e| e["code"].is_i64() && e["message"].is_string());
            (case - wide < wide_values().end && plain(v.get("id")) && error).then(|| outgoing(wide_name(case - wide)).0)
        } else if case < 2 * wide + NAMED.len() {
            serde_json::from_value(on_wire(&incoming(NAMED[case - 2 * wide]))).ok()
        } else {
            Some(outgoing(OUT[case - 2 * wide - NAMED.len()]).0)
        }
    };
    Job::many(
        "formatting any message, id and error, to a place that takes any number of bytes",
        2 * wide + NAMED.len() + OUT.len(),
        move |case| {
            let bad = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
            let found = bad.clone();
            (
                Box::new(move || {
                    let Some(m) = message(case) else { return };
                    let before = (describe(&m), serde_json::to_value(&m).ok());
                    let mut bad = vec![];
                    formatted(&m, &mut bad);
                    let again = format!("{m:?}");
                    let id = match &m {
                        Message::Request(r) => Some(r.id().clone()),
                        Message::Response(r) => Some(r.id.clone()),
                        Message::Notification(_) => None,
                    };
                    if let Some(id) = id {
                        formatted(&id, &mut bad);
                        for t in [format!("{id}"), format!("{id:5}"), format!("{id:>3.1}"), format!("{id:#}")] {
                            drop(t);
                        }
                    }
                    match m.clone() {
                        Message::Request(r) => {
                            let e = ExtractError::MethodMismatch(r);
                            drop(format!("{e} {e:?} {e:#?}"));
                            let (method, error) = ("x".to_string(), serde_json::from_str::<Value>("").unwrap_err());
                            let e = ExtractError::<Request>::JsonError { method, error };
                            drop(format!("{e} {e:?} {e:#?}"));
                        }
                        Message::Notification(n) => {
                            let e = ExtractError::MethodMismatch(n);
                            drop(format!("{e} {e:?} {e:#?}"));
                            let (method, error) = ("x".to_string(), serde_json::from_str::<Value>("").unwrap_err());
                            let e = ExtractError::<Notification>::JsonError { method, error };
                            drop(format!("{e} {e:?} {e:#?}"));
                        }
                        Message::Response(r) => {
                            if let Some(e) = &r.error {
                                formatted(e, &mut bad);
                            }
                        }
                    }
                    if format!("{m:?}") != again {
                        bad.push("is formatted differently the second time".into());
                    }
                    if (describe(&m), serde_json::to_value(&m).ok()) != before {
                        bad.push("is another message afterwards".into());
                    }
                    *found.borrow_mut() = bad;
                }),
                Box::new(move |end| {
                    if let Some(p) = end.panics.first() {
                        return Err(format!("formatting panics: {}", p.message));
                    }
                    match bad.borrow().first() {
                        Some(b) => Err(format!("the message {b}")),
                        None => Ok(case as u64),
                    }
                }),
            )
        },
        move |case| format!("message {case}"),
    )
}
