//! Traces for the real system: scenarios it can run, with everything that may be seen of them.

use crate::job::Job;
use crate::script::*;
use mcrt::explore::{explore, Config, Oracle, Report};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

thread_local! {
    static SPEC: RefCell<Option<Spec>> = RefCell::default();
    static SEEN: RefCell<Vec<Value>> = RefCell::default();
}

/// A system is being set up.
pub fn begin(s: Option<Spec>) {
    SPEC.with(|x| *x.borrow_mut() = s);
    SEEN.with(|x| x.borrow_mut().clear());
}
/// Something that can be seen from outside, in order.
pub fn seen(v: Value) {
    SEEN.with(|x| x.borrow_mut().push(v));
}

/// Something explored in the middle of something else, that leaves no trace.
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    let spec = SPEC.with(|x| x.borrow_mut().take());
    let seen = SEEN.with(|x| std::mem::take(&mut *x.borrow_mut()));
    let r = f();
    SPEC.with(|x| *x.borrow_mut() = spec);
    SEEN.with(|x| *x.borrow_mut() = seen);
    r
}

fn timed(s: &Spec) -> bool {
    match s {
        Spec::Session { app, .. } => app.iter().flatten().any(|a| {
            matches!(a, A::RecvTimeout(_) | A::Send(_, How::Timeout(_) | How::Deadline(_) | How::Past))
        }),
        _ => false,
    }
}

/// Up to `per` cases of every job.
pub fn traces(jobs: &[Job], per: usize, max_states: u64, shard: (usize, usize)) {
    let mut known = BTreeSet::new();
    let mut count = 0;
    for job in jobs {
        drop((job.setup)(0));
        let first = SPEC.with(|s| s.borrow_mut().take());
        let n = job.cases.min(match first {
            Some(Spec::Session { .. }) => per,
            _ => per * 20,
        });
        for k in 0..n {
            count += 1;
            if count % shard.1 != shard.0 {
                continue;
            }
            // From both ends and evenly in between.
            let case = if n == 1 { 0 } else { (job.cases - 1) * k / (n - 1) };
            drop((job.setup)(case));
            let Some(spec) = SPEC.with(|s| s.borrow_mut().take()) else { continue };
            let text = json!(spec);
            if !known.insert(text.to_string()) {
                continue;
            }
            if slow(&spec) {
                continue;
            }
            let sessions = matches!(spec, Spec::Session { .. });
            let mut cfg = Config {
                schedules: sessions,
                eager_timeouts: sessions && timed(&spec),
                preemptions: None,
                max_states,
                ..Config::default()
            };
            let began = std::time::Instant::now();
            let mut done = all_seen(job, case, &cfg);
            for bound in [1, 0] {
                if done.as_ref().is_some_and(|d| d.1.capped) {
                    cfg.preemptions = Some(bound);
                    done = all_seen(job, case, &cfg);
                }
            }
            if std::env::var_os("MC_VERBOSE").is_some() {
                let what = done.as_ref().map_or("failed".to_string(), |(_, r)| format!("{} executions, {} states, capped {}", r.executions, r.states, r.capped));
                eprintln!("{:?} {} {case}: {what}, bound {:?}", began.elapsed(), job.name, cfg.preemptions);
            }
            let Some((all, r)) = done else { continue };
            if r.capped || all.contains("stuck") {
                continue;
            }
            let complete = cfg.preemptions.is_none();
            let seen: Vec<Value> = all.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
            println!("{}", json!({"job": job.name, "case": case, "spec": text, "seen": seen, "complete": complete, "executions": r.executions}));
        }
    }
}

/// Too many system calls to explore here.
fn slow(s: &Spec) -> bool {
    match s {
        Spec::Session { preload, reads, writes, .. } => preload.len() > 100_000 || preload.windows(4).filter(|w| w == b"\r\n\r\n").count() > 40 || (reads.max > 0 && preload.len() / reads.max > 30) || (1..30).contains(&writes.max),
        _ => json!(s).to_string().len() > 100_000,
    }
}

fn all_seen(job: &Job, case: usize, cfg: &Config) -> Option<(BTreeSet<String>, Report)> {
    let all: Rc<RefCell<BTreeSet<String>>> = Rc::default();
    let r = explore(cfg, &|| {
        let (main, oracle) = (job.setup)(case);
        let all = all.clone();
        let o: Oracle = Box::new(move |end| {
            let _ = oracle(end);
            if end.blocked.iter().any(|b| !b.0.starts_with("peer") && !b.1) || end.livelock {
                all.borrow_mut().insert("stuck".into());
            }
            let v = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
            all.borrow_mut().insert(json!(v).to_string());
            Ok(0)
        });
        (main, o)
    });
    let all = all.borrow().clone();
    r.ok().map(|r| (all, r))
}
