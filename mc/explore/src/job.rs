//! Work units, and running them on all cores in processes of their own.

use mcrt::explore::{explore, Config, Report};
use mcrt::explore::Oracle;
use serde_json::{json, Value};
use std::collections::{HashSet, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, ExitStatus, Stdio};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

pub type SetupFn = Box<dyn Fn(usize) -> (Box<dyn FnOnce()>, Oracle)>;

/// A family of closed systems, each explored completely within `cfg`.
pub struct Job {
    pub name: String,
    pub cfg: Config,
    pub cases: usize,
    pub setup: SetupFn,
    /// How to show a case.
    pub show: Box<dyn Fn(usize) -> String>,
}

impl Job {
    pub fn one(name: impl Into<String>, cfg: Config, setup: impl Fn() -> (Box<dyn FnOnce()>, Oracle) + 'static) -> Job {
        let name = name.into();
        let n2 = name.clone();
        Job {
            name,
            cfg,
            cases: 1,
            setup: Box::new(move |_| setup()),
            show: Box::new(move |_| n2.clone()),
        }
    }
    /// Many cases that differ in their input and have one schedule each.
    pub fn many(
        name: impl Into<String>,
        cases: usize,
        setup: impl Fn(usize) -> (Box<dyn FnOnce()>, Oracle) + 'static,
        show: impl Fn(usize) -> String + 'static,
    ) -> Job {
        Job {
            name: name.into(),
            cfg: sequential(),
            cases,
            setup: Box::new(setup),
            show: Box::new(show),
        }
    }
}

pub fn sequential() -> Config {
    Config { schedules: false, ..Config::default() }
}

pub struct Outcome {
    pub report: Report,
    pub cases: u64,
    pub jobs: usize,
    pub failure: Option<Value>,
    pub error: Option<String>,
    pub per_job: Vec<Value>,
}

fn run_chunk(job: &Job, from: usize, to: usize) -> Value {
    let mut total = Report::default();
    for case in from..to {
        match explore(&job.cfg, &|| (job.setup)(case)) {
            Ok(r) => total.add(&r),
            Err((r, f)) => {
                total.add(&r);
                return json!({
                    "report": report_json(&total),
                    "failure": {
                        "job": job.name, "case": case, "input": (job.show)(case).chars().take(5000).collect::<String>(), "message": f.message,
                        "choices": f.choices, "trace": f.trace,
                    }
                });
            }
        }
    }
    json!({"report": report_json(&total)})
}

fn report_json(r: &Report) -> Value {
    json!({
        "executions": r.executions, "states": r.states, "transitions": r.transitions, "pruned": r.pruned,
        "capped": r.capped, "max_depth": r.max_depth,
        "outcomes": r.outcomes.iter().take(200_000).map(|x| x.to_string()).collect::<Vec<_>>(),
    })
}

/// Exit codes of a worker that says something about the code it ran.
const NONDETERMINISTIC: i32 = 4;
const ENDLESS: i32 = 97;
/// Processor seconds one execution may take; they take well under a millisecond.
const PATIENCE: u64 = 40;

fn cpu_seconds() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

/// The loop of a worker process: `job from to` lines in, JSON lines out.
pub fn worker(jobs: &[Job], confirming: bool) {
    use mcrt::explore::{CONFIRMING, DIVERGED, EXECUTIONS};
    use std::sync::atomic::Ordering::Relaxed;
    mcrt::install_panic_hook();
    CONFIRMING.store(confirming, Relaxed);
    std::thread::spawn(|| {
        let (mut seen, mut since) = (0, cpu_seconds());
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let (n, t) = (EXECUTIONS.load(Relaxed), cpu_seconds());
            if n != seen {
                (seen, since) = (n, t);
            } else if t > since + PATIENCE {
                std::process::exit(ENDLESS);
            }
        }
    });
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let n: Vec<usize> = line.split(' ').map(|x| x.parse().unwrap()).collect();
        let v = run_chunk(&jobs[n[0]], n[1], n[2]);
        if DIVERGED.load(Relaxed) && v.get("failure").is_none() {
            std::process::exit(NONDETERMINISTIC);
        }
        let mut out = std::io::stdout().lock();
        writeln!(out, "{v}").unwrap();
        out.flush().unwrap();
    }
}

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Worker {
    fn start(prop: &str, tier: Tier, confirming: bool) -> Worker {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args([if confirming { "confirm" } else { "worker" }, prop, tier.name()])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("worker");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Worker { child, to, from }
    }
    fn ask(&mut self, j: usize, a: usize, b: usize) -> Result<Value, ExitStatus> {
        let _ = writeln!(self.to, "{j} {a} {b}");
        let mut line = String::new();
        match self.from.read_line(&mut line) {
            Ok(n) if n > 0 => Ok(serde_json::from_str(&line).expect("a worker's answer")),
            _ => Err(self.child.wait().expect("worker")),
        }
    }
    fn end(mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// A worker ended in the middle of its work: find out which case does that, in fresh processes.
fn investigate(prop: &str, tier: Tier, job: &Named, j: usize, a: usize, b: usize, first: ExitStatus) -> Result<Value, String> {
    let telling = |s: &ExitStatus| {
        s.code().is_some_and(|c| c == NONDETERMINISTIC || c == ENDLESS) || s.signal().is_some_and(|s| [4, 6, 7, 8, 11].contains(&s))
    };
    if !telling(&first) {
        return Err(format!("worker died on {} cases {a}..{b}: {first}", job.name));
    }
    let mut w = Worker::start(prop, tier, true);
    for c in a..b {
        match w.ask(j, c, c + 1) {
            Ok(v) if v.get("failure").is_some() => {
                w.end();
                return Ok(v["failure"].clone());
            }
            Ok(_) => {}
            Err(s) if !telling(&s) => return Err(format!("worker died on {} case {c}: {s}", job.name)),
            Err(_) => {
                w = Worker::start(prop, tier, true);
                match w.ask(j, c, c + 1) {
                    Ok(v) if v.get("failure").is_some() => {
                        w.end();
                        return Ok(v["failure"].clone());
                    }
                    Err(s) if telling(&s) && s.code() != Some(NONDETERMINISTIC) => {
                        let what = match s.code() {
                            Some(_) => format!("an execution takes more than {PATIENCE} s of processor time"),
                            None => format!("the process dies: {s}"),
                        };
                        return Ok(json!({"job": job.name, "case": c, "input": job.name, "message": what, "choices": [], "trace": []}));
                    }
                    Err(s) => return Err(format!("worker died on {} case {c}: {s}", job.name)),
                    Ok(_) => {}
                }
            }
        }
    }
    w.end();
    Err(format!("worker died on {} cases {a}..{b}, which does not happen again: {first}", job.name))
}

struct Named {
    name: String,
}

pub fn run(prop: &str, tier: Tier, jobs: &[Job], seconds: u64) -> Outcome {
    let mut queue: VecDeque<(usize, usize, usize)> = VecDeque::new();
    for (j, job) in jobs.iter().enumerate() {
        let chunk = if job.cfg.schedules { 1 } else { (job.cases / 48).clamp(1, 20_000) };
        let mut at = 0;
        while at < job.cases {
            let to = (at + chunk).min(job.cases);
            queue.push_back((j, at, to));
            at = to;
        }
    }
    let queue = Arc::new(Mutex::new(queue));
    let out = Arc::new(Mutex::new((vec![Report::default(); jobs.len()], None::<Value>, None::<String>, vec![0f64; jobs.len()])));
    let began = Instant::now();
    let cores = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let names: Arc<Vec<String>> = Arc::new(jobs.iter().map(|j| j.name.clone()).collect());
    let threads: Vec<_> = (0..cores)
        .map(|_| {
            let (queue, out, names) = (queue.clone(), out.clone(), names.clone());
            let prop = prop.to_string();
            std::thread::spawn(move || {
                let mut w = Worker::start(&prop, tier, false);
                loop {
                    let Some((j, a, b)) = queue.lock().unwrap().pop_front() else { break };
                    {
                        let mut o = out.lock().unwrap();
                        if o.1.is_some() || o.2.is_some() {
                            break;
                        }
                        if began.elapsed().as_secs() > seconds {
                            o.2 = Some(format!("out of time before {} ({a}..{b})", names[j]));
                            break;
                        }
                    }
                    let t = Instant::now();
                    let v = w.ask(j, a, b);
                    let v = match v {
                        Ok(v) => v,
                        Err(s) => {
                            let r = investigate(&prop, tier, &Named { name: names[j].clone() }, j, a, b, s);
                            let mut o = out.lock().unwrap();
                            match r {
                                Ok(f) => o.1 = o.1.take().or(Some(f)),
                                Err(e) => o.2 = o.2.take().or(Some(e)),
                            }
                            return;
                        }
                    };
                    let mut o = out.lock().unwrap();
                    let r = &v["report"];
                    let rep = Report {
                        executions: r["executions"].as_u64().unwrap(),
                        states: r["states"].as_u64().unwrap(),
                        transitions: r["transitions"].as_u64().unwrap(),
                        pruned: r["pruned"].as_u64().unwrap(),
                        capped: r["capped"].as_bool().unwrap(),
                        max_depth: r["max_depth"].as_u64().unwrap(),
                        outcomes: r["outcomes"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|x| x.as_str().unwrap().parse().unwrap())
                            .collect::<HashSet<u64>>(),
                    };
                    o.0[j].add(&rep);
                    o.3[j] += t.elapsed().as_secs_f64();
                    if let (Some(f), None) = (v.get("failure"), &o.1) {
                        o.1 = Some(f.clone());
                    }
                }
                w.end();
            })
        })
        .collect();
    for t in threads {
        let _ = t.join();
    }
    let o = out.lock().unwrap();
    let mut report = Report::default();
    let mut per_job = vec![];
    for (j, r) in o.0.iter().enumerate() {
        report.add(r);
        per_job.push(json!({
            "job": jobs[j].name, "cases": jobs[j].cases, "executions": r.executions, "states": r.states,
            "transitions": r.transitions, "outcomes": r.outcomes.len(), "depth": r.max_depth,
            "capped": r.capped, "preemption_bound": jobs[j].cfg.preemptions, "schedules": jobs[j].cfg.schedules,
            "timeouts_at_any_moment": jobs[j].cfg.eager_timeouts, "seconds": (o.3[j] * 1000.0).round() / 1000.0,
            "sample": (jobs[j].show)(jobs[j].cases / 2),
        }));
    }
    Outcome {
        report,
        cases: jobs.iter().map(|j| j.cases as u64).sum(),
        jobs: jobs.len(),
        failure: o.1.clone(),
        error: o.2.clone(),
        per_job,
    }
}
