//! Enumerates what the library's real code makes of messages and payloads, and runs it on the real system.
//!
//!     real check PROPERTY TIER    evidence part on stdout, exit 1 on a violation
//!     real replay FILE            judge one recorded case again
//!     real conform FILE TIMES     run scenarios from `mc traces` on the real system

mod accessors;
mod conform;
mod envelope;
mod js;
mod payloads;
mod run;
mod schema;
#[path = "../../log.rs"]
mod log;
#[path = "../../serve.rs"]
mod serve;
#[path = "../../wide.rs"]
#[allow(dead_code)]
mod wide;

use run::*;
use serde_json::Value;

fn jobs(prop: &str, tier: Tier) -> Vec<Job> {
    match prop {
        "P14" => envelope::p14(tier),
        "P15" => envelope::p15(tier),
        "P16" => envelope::p16(tier),
        "P17" => envelope::p17(tier),
        "P18" => envelope::p18(tier),
        "P19" => envelope::p19(tier),
        "P20" => payloads::p20(tier),
        "P21" => payloads::p21(tier),
        "P22" => accessors::p22(tier),
        "P23" => payloads::p23(tier),
        _ => vec![],
    }
}

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn main() {
    log::install();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let (v, code) = check(&a[2], &a[3]);
            if std::env::var_os("MC_VERBOSE").is_some() {
                for j in v["per_job"].as_array().unwrap_or(&vec![]) {
                    eprintln!("{j}");
                }
            }
            println!("{v}");
            code
        }
        Some("session") => {
            conform::session(a[2].parse().unwrap(), a[3].parse().unwrap());
            0
        }
        Some("conform") => {
            let (v, code) = conform::check(&a[2], a[3].parse().unwrap());
            println!("{v}");
            code
        }
        Some("worker") => {
            println!("{}", work(&jobs(&a[2], tier(&a[3]))));
            0
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("JSON");
            let f = &v["failure"];
            let all = jobs(v["property"].as_str().unwrap(), tier(v["tier"].as_str().unwrap_or("quick")));
            let j = all.iter().find(|j| j.name == f["job"]).expect("job");
            let i = f["case"].as_u64().unwrap() as usize;
            println!("{}: {}", j.name, (j.show)(i));
            let r = guarded(|| (j.check)(i, &Tally::default()));
            println!("{r:?}");
            r.is_err() as i32
        }
        _ => {
            eprintln!("usage: real check PROPERTY TIER, real replay FILE");
            2
        }
    };
    std::process::exit(code);
}
