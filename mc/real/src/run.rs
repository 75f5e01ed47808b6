//! Exhaustive enumerations, cut into jobs and spread over the cores.

use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Counts what was looked at; a check adds to it as it goes.
#[derive(Default)]
pub struct Tally {
    pub states: AtomicU64,
    pub transitions: AtomicU64,
}

pub type Check = Box<dyn Fn(usize, &Tally) -> Result<u64, String> + Sync + Send>;

pub struct Job {
    pub name: String,
    pub cases: usize,
    /// Judges one case and names its outcome.
    pub check: Check,
    pub show: Box<dyn Fn(usize) -> String + Sync + Send>,
}

impl Job {
    /// A transition is a call of an encoder or decoder, a state what was observed.
    pub fn each(
        name: impl Into<String>,
        cases: usize,
        check: impl Fn(usize) -> Result<u64, String> + Sync + Send + 'static,
        show: impl Fn(usize) -> String + Sync + Send + 'static,
    ) -> Job {
        Job {
            name: name.into(),
            cases,
            check: Box::new(move |i, t| {
                let before = crate::js::CALLS.get();
                let r = check(i);
                t.transitions.fetch_add((crate::js::CALLS.get() - before).max(1), Relaxed);
                r
            }),
            show: Box::new(show),
        }
    }
}

pub fn outcome<T: Hash>(t: T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(format!("panic: {}", m.unwrap_or_default()))
        }
    }
}

const ENDLESS: i32 = 97;
const CPU_PATIENCE: u64 = 120;

fn cpu_seconds() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)
}

/// Runs all jobs in this process; the result is JSON.
pub fn work(jobs: &[Job]) -> Value {
    if std::env::var_os("REAL_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let n = threads();
    let progress = AtomicU64::new(0);
    let finished = AtomicBool::new(false);
    let failed: Mutex<Option<(usize, usize, String)>> = Mutex::new(None);
    let tallies: Vec<Tally> = jobs.iter().map(|_| Tally::default()).collect();
    let outcomes: Vec<Mutex<HashSet<u64>>> = jobs.iter().map(|_| Mutex::default()).collect();
    let times: Vec<AtomicU64> = jobs.iter().map(|_| AtomicU64::new(0)).collect();
    let mut chunks = vec![];
    for (j, job) in jobs.iter().enumerate() {
        let size = (job.cases / (4 * n)).clamp(1, 50_000);
        let mut at = 0;
        while at < job.cases {
            chunks.push((j, at, (at + size).min(job.cases)));
            at += size;
        }
    }
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        s.spawn(|| {
            let (mut seen, mut since) = (0, cpu_seconds());
            while !finished.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                let (p, t) = (progress.load(Relaxed) + tallies.iter().map(|t| t.transitions.load(Relaxed)).sum::<u64>(), cpu_seconds());
                if p != seen {
                    (seen, since) = (p, t);
                } else if t > since + CPU_PATIENCE {
                    std::process::exit(ENDLESS);
                }
            }
        });
        let workers: Vec<_> = (0..n)
            .map(|_| {
                s.spawn(|| loop {
                    let c = next.fetch_add(1, Relaxed);
                    let Some(&(j, a, b)) = chunks.get(c) else { break };
                    if failed.lock().unwrap().as_ref().is_some_and(|f| f.0 <= j) {
                        continue;
                    }
                    let t = Instant::now();
                    let mut mine = HashSet::new();
                    for i in a..b {
                        match guarded(|| (jobs[j].check)(i, &tallies[j])) {
                            Ok(o) => {
                                if mine.len() < 200_000 {
                                    mine.insert(o);
                                }
                            }
                            Err(e) => {
                                let mut f = failed.lock().unwrap();
                                if !f.as_ref().is_some_and(|f| (f.0, f.1) <= (j, i)) {
                                    *f = Some((j, i, e));
                                }
                                break;
                            }
                        }
                        progress.fetch_add(1, Relaxed);
                    }
                    outcomes[j].lock().unwrap().extend(mine);
                    times[j].fetch_add(t.elapsed().as_micros() as u64, Relaxed);
                })
            })
            .collect();
        for w in workers {
            let _ = w.join();
        }
        finished.store(true, Relaxed);
    });
    let per_job: Vec<Value> = jobs
        .iter()
        .enumerate()
        .map(|(j, job)| {
            json!({
                "job": job.name, "cases": job.cases,
                "states": match tallies[j].states.load(Relaxed) { 0 => outcomes[j].lock().unwrap().len() as u64, n => n },
                "transitions": tallies[j].transitions.load(Relaxed), "outcomes": outcomes[j].lock().unwrap().len(),
                "seconds": times[j].load(Relaxed) as f64 / 1e6, "sample": (job.show)(job.cases / 2),
            })
        })
        .collect();
    let failure = failed.into_inner().unwrap().map(|(j, i, e)| {
        let e2 = guarded(|| (jobs[j].check)(i, &Tally::default())).err();
        json!({
            "job": jobs[j].name, "case": i, "input": (jobs[j].show)(i), "message": e,
            "reproduced": e2.as_deref() == Some(e.as_str()),
        })
    });
    let sum = |k: &str| per_job.iter().map(|j| j[k].as_u64().unwrap()).sum::<u64>();
    json!({
        "jobs": jobs.len(), "cases": sum("cases"), "executions": sum("cases"), "states": sum("states"), "transitions": sum("transitions"),
        "outcomes": sum("outcomes"), "max_depth": 0, "pruned": 0, "capped": false, "per_job": per_job,
        "failure": failure, "error": null,
    })
}

/// Has a process of its own do the work: its death is a result too.
pub fn check(prop: &str, tier: &str) -> (Value, i32) {
    let mut deaths = vec![];
    for _ in 0..2 {
        let out = Command::new(std::env::current_exe().unwrap()).args(["worker", prop, tier]).output().expect("worker");
        let last = out.stdout.split(|b| *b == b'\n').rfind(|l| !l.is_empty()).unwrap_or(&[]);
        if let (true, Ok(v)) = (out.status.success(), serde_json::from_slice::<Value>(last)) {
            let code = if v["failure"].is_null() { 0 } else { 1 };
            return (v, code);
        }
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        let telling = out.status.code() == Some(ENDLESS) || out.status.signal().is_some_and(|s| [4, 6, 7, 8, 11].contains(&s));
        deaths.push((telling, format!("{} {}", out.status, &err[err.len().saturating_sub(2000)..])));
    }
    let (telling, what) = &deaths[1];
    if *telling && deaths[0].0 {
        let f = json!({"job": "all", "case": 0, "input": "the whole enumeration", "message": format!("the process dies or does not end: {what}")});
        return (json!({"failure": f, "error": null, "per_job": [], "jobs": 0, "cases": 0, "executions": 0, "states": 0, "transitions": 0, "outcomes": 0, "max_depth": 0, "pruned": 0, "capped": true}), 1);
    }
    (json!({"failure": null, "error": what}), 3)
}
