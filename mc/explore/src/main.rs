//! Explores the library's real code, compiled against the controlled runtime.
//!
//!     mc check PROPERTY TIER    explore; evidence part on stdout, exit 1 on a violation
//!     mc replay FILE            run one recorded execution and show it
//!     mc list PROPERTY TIER     name the jobs
//!     mc traces PROPERTY TIER CASES STATES SHARD SHARDS
//!                               scenarios the real system can run, with all that may be seen of them

mod alloc;
mod canon;
mod connecting;
mod described;
mod dialogue;
mod framing;
mod job;
mod msgs;
mod script;
mod session;
mod traffic;
#[path = "../../log.rs"]
mod log;
#[path = "../../serve.rs"]
mod serve;
#[path = "../../wide.rs"]
#[allow(dead_code)]
mod wide;

use job::*;
use serde_json::{json, Value};

fn jobs(prop: &str, tier: Tier) -> Vec<Job> {
    match prop {
        "P01" => traffic::p01(tier),
        "P02" => traffic::p02(tier),
        "P03" => framing::p03(tier),
        "P10" => dialogue::p10(tier),
        "P11" => dialogue::p11(tier),
        "P12" => dialogue::p12(tier),
        "P13" => dialogue::p13(tier),
        "P25" => dialogue::p25(tier),
        "P26" => connecting::p26(tier),
        "P19" => traffic::p19(tier),
        "P24" => framing::p24(tier),
        "P04" => traffic::p04(tier),
        "P05" => traffic::p05(tier),
        "P06" => traffic::p06(tier),
        "P07" => traffic::p07(tier),
        "P08" => traffic::p08(tier),
        "P09" => traffic::p09(tier),
        "P27" => observed(tier),
        _ => vec![],
    }
}

/// What others explore, while somebody listens to the log.
fn observed(t: Tier) -> Vec<Job> {
    let mut out = vec![];
    for (prop, parts) in [
        (
            "P01",
            &["a wide range", "every cut", "three messages", "two receivers", "exit", "traffic the other way", "long runs", "far larger", "sizes of buffers", "one at a time"]
                as &[&str],
        ),
        ("P02", &["two senders", "three senders", "all sequences"]),
        ("P03", &["stream 0, every byte", "huge lengths", "invalid frame", "all headers of up to 2"]),
        ("P04", &["a wide range", "one at a time", "Unicode", "every message"]),
        ("P05", &["a read fails", "a write fails", "at any time", "a read and a write"]),
        ("P06", &["all sequences"]),
        ("P11", &["a wide range", "handshake", "live client", "every id"]),
        ("P12", &["a wide range of requests", "handshake", "all sequences of up to 3", "all sequences of up to 2"]),
        ("P13", &["a wide range", "every request", "any message of a wide range", "up to 2 messages", "Connect", "Stdio"]),
        ("P25", &["a wide range", "all "]),
    ] {
        for j in jobs(prop, t) {
            if parts.iter().any(|p| j.name.contains(p)) {
                out.push(at_level(0, prop, j));
            }
        }
    }
    // At the other levels.
    for level in 1..5 {
        for (prop, part) in [
            ("P12", "all sequences of up to 3"),
            ("P12", "many messages before"),
            ("P13", "up to 2"),
            ("P06", "all sequences"),
            ("P25", "Listen: all "),
        ] {
            for j in jobs(prop, Tier::Quick) {
                if j.name.contains(part) {
                    out.push(at_level(level, prop, j));
                }
            }
        }
    }
    out.push(described::described());
    out
}

fn at_level(level: usize, prop: &str, mut j: Job) -> Job {
    let setup = j.setup;
    j.name = format!("{prop}{} {}", ["", ", debug", ", info", ", warnings", ", errors only"][level], j.name);
    j.setup = Box::new(move |case| {
        log::level(level);
        setup(case)
    });
    j
}

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn main() {
    log::install();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&jobs(&a[2], tier(&a[3])), false),
        Some("confirm") => worker(&jobs(&a[2], tier(&a[3])), true),
        Some("list") => {
            for j in jobs(&a[2], tier(&a[3])) {
                println!("{} ({} cases)", j.name, j.cases);
            }
        }
        Some("traces") => {
            mcrt::install_panic_hook();
            let n = |k: usize| a[k].parse().unwrap();
            canon::traces(&jobs(&a[2], tier(&a[3])), n(4), n(5) as u64, (n(6), n(7)));
        }
        Some("check") => check(&a[2], tier(&a[3])),
        // For looking into one: mc job PROPERTY TIER PART-OF-NAME.
        Some("job") => {
            mcrt::install_panic_hook();
            for j in jobs(&a[2], tier(&a[3])).iter().filter(|j| j.name.contains(&a[4])) {
                let t = std::time::Instant::now();
                let mut slowest = (0, 0);
                for case in 0..j.cases {
                    let t = std::time::Instant::now();
                    if let Err((_, f)) = mcrt::explore::explore(&j.cfg, &|| (j.setup)(case)) {
                        println!("{} case {case}: {}", j.name, f.message);
                    }
                    slowest = slowest.max((t.elapsed().as_micros(), case));
                }
                println!("{}: {} cases, {:?}, slowest {} us: {}", j.name, j.cases, t.elapsed(), slowest.0, (j.show)(slowest.1).chars().take(150).collect::<String>());
            }
        }
        Some("replay") => replay(&a[2]),
        _ => {
            eprintln!("usage: mc check|list PROPERTY TIER, mc replay FILE");
            std::process::exit(2);
        }
    }
}

fn check(prop: &str, tier: Tier) {
    let jobs = jobs(prop, tier);
    let limit = if tier == Tier::Quick { 600 } else { 6 * 3600 };
    let o = run(prop, tier, &jobs, limit);
    let slow = std::env::var_os("MC_VERBOSE").is_some();
    if slow {
        for j in &o.per_job {
            eprintln!("{j}");
        }
    }
    let v = json!({
        "jobs": o.jobs, "cases": o.cases, "executions": o.report.executions, "states": o.report.states,
        "transitions": o.report.transitions, "pruned": o.report.pruned, "outcomes": o.report.outcomes.len(),
        "max_depth": o.report.max_depth, "capped": o.report.capped, "per_job": o.per_job,
        "failure": o.failure, "error": o.error,
    });
    println!("{v}");
    std::process::exit(if o.failure.is_some() {
        1
    } else if o.error.is_some() {
        3
    } else {
        0
    });
}

fn replay(file: &str) {
    mcrt::install_panic_hook();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("JSON");
    let prop = v["property"].as_str().unwrap();
    let f = &v["failure"];
    let all = jobs(prop, tier(v["tier"].as_str().unwrap_or("quick")));
    let j = all.iter().find(|j| j.name == f["job"]).expect("job");
    let case = f["case"].as_u64().unwrap() as usize;
    let choices: Vec<u16> = f["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u16).collect();
    println!("{}: {}", j.name, (j.show)(case));
    let (r, end, trace) = mcrt::explore::replay(&j.cfg, &|| (j.setup)(case), &choices);
    for l in trace {
        println!("  {l}");
    }
    println!("{end:#?}");
    println!("{r:?}");
    std::process::exit(if matches!(r, Some(Ok(_))) { 0 } else { 1 });
}
