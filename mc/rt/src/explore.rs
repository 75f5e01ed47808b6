//! Depth-first search over every order of operations and every answer of the environment.

use crate::*;
use std::collections::hash_map::Entry;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

/// Counts the executions of this process, for a watchdog.
pub static EXECUTIONS: AtomicU64 = AtomicU64::new(0);
/// Set in a fresh process that looks into a failure that a replay did not reproduce.
pub static CONFIRMING: AtomicBool = AtomicBool::new(false);
pub static DIVERGED: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Debug)]
pub struct Config {
    /// Let a timed operation time out at any moment, not only when nothing else can happen.
    pub eager_timeouts: bool,
    /// Explore schedules; otherwise only the environment's choices vary.
    pub schedules: bool,
    /// Limits; reaching one is reported, never passed over in silence.
    pub max_states: u64,
    pub max_steps: u64,
    /// At most this many preemptions per execution.
    pub preemptions: Option<u32>,
}

impl Default for Config {
    fn default() -> Self {
        Config { eager_timeouts: false, schedules: true, max_states: 3_000_000, max_steps: 100_000, preemptions: None }
    }
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub pruned: u64,
    pub capped: bool,
    pub max_depth: u64,
    /// Hashes of the distinct outcomes the oracle saw.
    pub outcomes: HashSet<u64>,
}

impl Report {
    pub fn add(&mut self, o: &Report) {
        self.executions += o.executions;
        self.states += o.states;
        self.transitions += o.transitions;
        self.pruned += o.pruned;
        self.capped |= o.capped;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.outcomes.extend(o.outcomes.iter());
    }
}

#[derive(Debug, Clone)]
pub struct Failure {
    pub message: String,
    pub choices: Vec<u16>,
    pub trace: Vec<String>,
}

/// The oracle looks at the end of one execution and names the outcome it saw.
pub type Oracle = Box<dyn FnOnce(&End) -> Result<u64, String>>;
pub type Setup<'a> = dyn Fn() -> (Box<dyn FnOnce()>, Oracle) + 'a;

pub struct Chooser {
    prefix: Vec<u16>,
    path: Vec<u16>,
    /// Alternatives found on this execution, still to be explored.
    open: Vec<Vec<u16>>,
    /// Cleared when the state has been seen: what follows has been explored before.
    expand: bool,
}

impl Chooser {
    fn next(&mut self, n: usize, branch: bool, diverged: &mut Option<String>) -> usize {
        let pos = self.path.len();
        let c = if pos < self.prefix.len() {
            let c = self.prefix[pos] as usize;
            if c >= n {
                *diverged = Some(format!("replay diverged at choice {pos}: {c} of {n}"));
                0
            } else {
                c
            }
        } else {
            if branch && self.expand {
                for a in (1..n).rev() {
                    let mut p = self.path.clone();
                    p.push(a as u16);
                    self.open.push(p);
                }
            }
            0
        };
        self.path.push(c as u16);
        c
    }
    pub fn data(&mut self, n: usize, diverged: &mut Option<String>) -> usize {
        self.next(n, true, diverged)
    }
    fn replaying(&self) -> bool {
        self.path.len() < self.prefix.len()
    }
}

struct Run {
    end: End,
    pruned: bool,
    result: Option<Result<u64, String>>,
    diverged: Option<String>,
    trace: Vec<String>,
}

fn run_one(
    cfg: &Config,
    setup: &Setup,
    ch: &mut Chooser,
    seen: &mut Option<&mut HashMap<u64, u32>>,
    rep: &mut Report,
    trace: bool,
) -> Run {
    let chooser: *mut Chooser = ch;
    let mut boxed = Rt::new(chooser, trace);
    let rt: *mut Rt = &mut *boxed;
    RT.with(|r| r.set(rt));
    EPOCH.with(|e| e.set(e.get() + 1));
    let (main, oracle) = setup();
    drop(crate::spawn(Some("main".into()), false, main));
    let mut steps = 0u64;
    let mut pruned = false;
    let mut livelock = false;
    let mut last = NONE;
    let mut streak = 0u32;
    let mut preempted = 0u32;
    unsafe {
        loop {
            if (*rt).exit.is_some() || (*rt).diverged.is_some() {
                break;
            }
            // (task, wake) in canonical order: the running task first, then by age.
            let mut enabled: Vec<(usize, Wake)> = Vec::new();
            let n = (*rt).tasks.len();
            let clock = (*rt).clock;
            let mut local = None;
            for i in 0..n {
                if let Some(p) = &(*rt).tasks[i].pending {
                    if p.is_ready() {
                        if p.local {
                            local = Some(i);
                            break;
                        }
                        enabled.push((i, Wake::Ready));
                    } else if p.deadline.is_some_and(|d| d <= clock || cfg.eager_timeouts) {
                        enabled.push((i, Wake::Timeout));
                    }
                }
            }
            if let Some(i) = local {
                let (obj, tag) = {
                    let p = (&(*rt).tasks[i].pending).as_ref().unwrap();
                    (p.obj, p.tag)
                };
                (*rt).record(i, obj, tag, Wake::Ready, true);
                resume(rt, i, Wake::Ready);
                steps += 1;
                if steps >= cfg.max_steps {
                    livelock = true;
                    break;
                }
                continue;
            }
            if enabled.is_empty() {
                // Time passes only when nothing else can happen.
                let next = (0..n)
                    .filter_map(|i| (&(*rt).tasks[i].pending).as_ref().and_then(|p| p.deadline))
                    .min();
                match next {
                    Some(d) => {
                        (*rt).clock = d.max(clock);
                        continue;
                    }
                    None => break,
                }
            }
            if let Some(k) = enabled.iter().position(|e| e.0 == last && e.1 == Wake::Ready) {
                let e = enabled.remove(k);
                if streak > 300 && !enabled.is_empty() {
                    enabled.push(e);
                    streak = 0;
                } else {
                    enabled.insert(0, e);
                }
            }
            if !(*chooser).replaying() && (*chooser).expand {
                rep.max_depth = rep.max_depth.max(steps);
                if let Some(seen) = seen {
                    let mut key = (*rt).state_key();
                    if cfg.preemptions.is_some() {
                        // Only who may go on for free matters, and how much is left.
                        let go = enabled.first().is_some_and(|e| e.0 == last && e.1 == Wake::Ready);
                        key = mix(key, if go { last as u64 } else { u64::MAX });
                    }
                    match seen.entry(key) {
                        Entry::Occupied(mut e) => {
                            if *e.get() <= preempted {
                                pruned = true;
                                break;
                            }
                            e.insert(preempted);
                        }
                        Entry::Vacant(e) => {
                            e.insert(preempted);
                        }
                    }
                    rep.states += 1;
                    if rep.states >= cfg.max_states {
                        rep.capped = true;
                        (*chooser).expand = false;
                    }
                }
            }
            let c = if enabled.len() > 1 && cfg.schedules {
                let running = enabled[0].0 == last && enabled[0].1 == Wake::Ready;
                let free = match cfg.preemptions {
                    Some(b) => !running || preempted < b,
                    None => true,
                };
                let c = (*chooser).next(enabled.len(), free, &mut (*rt).diverged);
                if running && c != 0 {
                    preempted += 1;
                }
                c
            } else {
                0
            };
            let (i, wake) = enabled[c];
            if i == last {
                streak += 1;
            } else {
                streak = 0;
                last = i;
            }
            let (obj, tag, deadline) = {
                let p = (&(*rt).tasks[i].pending).as_ref().unwrap();
                (p.obj, p.tag, p.deadline)
            };
            if wake == Wake::Timeout {
                (*rt).clock = (*rt).clock.max(deadline.unwrap());
            }
            (*rt).record(i, obj, tag, wake, false);
            resume(rt, i, wake);
            steps += 1;
            rep.transitions += 1;
            if steps >= cfg.max_steps {
                livelock = true;
                break;
            }
        }
        let end = End {
            blocked: (&(*rt).tasks)
                .iter()
                .filter(|t| !t.finished && t.pending.is_some())
                .map(|t| {
                    let p = t.pending.as_ref().unwrap();
                    let obj = (*rt).names.get(&p.obj).cloned().unwrap_or_default();
                    (t.name.clone(), t.library, format!("{} {}", p.tag, obj))
                })
                .collect(),
            panics: (*rt).panics.clone(),
            exit: (*rt).exit,
            clock: (*rt).clock,
            steps,
            livelock,
        };
        // Tear down whatever is still suspended.
        (*rt).aborting = true;
        let mut i = 0;
        while i < (*rt).tasks.len() {
            let mut tries = 0;
            while !(*rt).tasks[i].finished {
                resume(rt, i, Wake::Abort);
                tries += 1;
                assert!(tries < 1000, "task {} does not unwind", (*rt).tasks[i].name);
            }
            i += 1;
        }
        let diverged = (*rt).diverged.take();
        let trace = (*rt).trace.take().unwrap_or_default();
        RT.with(|r| r.set(std::ptr::null_mut()));
        let result = if pruned || diverged.is_some() {
            drop(oracle);
            None
        } else {
            Some(oracle(&end))
        };
        drop(boxed);
        Run { end, pruned, result, diverged, trace }
    }
}

fn fail(cfg: &Config, setup: &Setup, choices: &[u16], message: String) -> Failure {
    // The failure must be a function of the choices: replay it.
    let mut trace = Vec::new();
    let mut messages = Vec::new();
    for _ in 0..3 {
        let mut ch = Chooser { prefix: choices.to_vec(), path: vec![], open: vec![], expand: false };
        let mut rep = Report::default();
        let r = run_one(cfg, setup, &mut ch, &mut None, &mut rep, true);
        messages.push(match (r.diverged, r.result) {
            (Some(d), _) => d,
            (_, Some(Err(e))) => {
                trace = r.trace;
                e
            }
            (_, other) => format!("replay did not fail: {other:?}"),
        });
    }
    if trace.is_empty() {
        eprintln!("NONDETERMINISM: {message} / {messages:?}");
        if !CONFIRMING.load(Relaxed) {
            std::process::exit(4);
        }
        return Failure {
            message: format!("{message} [only after the executions that this process ran before: the library keeps process-wide state]"),
            choices: choices.to_vec(),
            trace,
        };
    }
    let message = match messages.iter().find(|m| **m != message) {
        None => message,
        Some(m) => format!("{message} [a replay: {m}]"),
    };
    Failure { message, choices: choices.to_vec(), trace }
}

/// Explores every execution of `setup` within `cfg`.
pub fn explore(cfg: &Config, setup: &Setup) -> Result<Report, (Report, Failure)> {
    let mut rep = Report::default();
    let mut seen: HashMap<u64, u32> = HashMap::new();
    let mut stack: Vec<Vec<u16>> = vec![vec![]];
    while let Some(prefix) = stack.pop() {
        let mut ch = Chooser { prefix, path: vec![], open: vec![], expand: true };
        let mut s = cfg.schedules.then_some(&mut seen);
        let r = run_one(cfg, setup, &mut ch, &mut s, &mut rep, false);
        rep.executions += 1;
        EXECUTIONS.fetch_add(1, Relaxed);
        if let Some(d) = r.diverged {
            eprintln!("NONDETERMINISM: {d}");
            if !CONFIRMING.load(Relaxed) {
                std::process::exit(4);
            }
            DIVERGED.store(true, Relaxed);
            continue;
        }
        if r.pruned {
            rep.pruned += 1;
        }
        match r.result {
            Some(Err(e)) => {
                let f = fail(cfg, setup, &ch.path, e);
                return Err((rep, f));
            }
            Some(Ok(o)) => {
                rep.outcomes.insert(o);
            }
            None => {}
        }
        let _ = r.end;
        stack.extend(ch.open);
    }
    if !cfg.schedules {
        rep.states = rep.executions;
    }
    Ok(rep)
}

/// Runs one recorded execution with a trace.
pub fn replay(cfg: &Config, setup: &Setup, choices: &[u16]) -> (Option<Result<u64, String>>, End, Vec<String>) {
    let mut ch = Chooser { prefix: choices.to_vec(), path: vec![], open: vec![], expand: false };
    let mut rep = Report::default();
    let r = run_one(cfg, setup, &mut ch, &mut None, &mut rep, true);
    (r.result, r.end, r.trace)
}
