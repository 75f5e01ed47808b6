//! P20, P21, P23: what is in the payloads.

use crate::ensure;
use crate::js;
use crate::run::*;
use crate::schema::*;
use bsp_server::types::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::sync::Arc;

pub type Codec = fn(&Value) -> Result<Result<Value, String>, String>;

/// Decodes from everything JSON can come from and encodes again; the outer error is a disagreement.
fn codec<X: DeserializeOwned + Serialize>(v: &Value) -> Result<Result<Value, String>, String> {
    let text = v.to_string();
    let all = [
        js::from_value::<X>(v.clone()),
        js::from_str::<X>(&text),
        js::from_slice::<X>(text.as_bytes()),
        js::from_reader::<_, X>(text.as_bytes()),
    ]
    .map(|x| match x {
        Err(e) => Ok(Err(e.to_string())),
        Ok(x) => {
            let e = js::to_value(&x).map_err(|e| format!("does not encode: {e}"))?;
            let t = js::to_string(&x).map_err(|e| format!("does not encode as text: {e}"))?;
            let t: Value = js::from_str(&t).map_err(|e| format!("encodes as {t}: {e}"))?;
            ensure!(t == e, "encodes as {e} and, as text, {t}");
            Ok::<_, String>(Ok(e))
        }
    });
    let mut it = all.into_iter();
    let first = it.next().unwrap()?;
    for other in it {
        let other = other?;
        ensure!(first.as_ref().ok() == other.as_ref().ok(), "decodes to {first:?} from a value and {other:?} from text");
    }
    Ok(first)
}

/// What a text decodes to must be what its value decodes to, and nothing if it is not JSON at all.
fn spelt<X: DeserializeOwned + Serialize>(text: &str) -> Result<u64, String> {
    let valid = js::from_str::<serde::de::IgnoredAny>(text).is_ok();
    let value: Option<Value> = js::from_str(text).ok();
    for x in [js::from_str::<X>(text), js::from_slice(text.as_bytes()), js::from_reader(text.as_bytes())] {
        match (&x, &value) {
            (Ok(_), _) if !valid => return Err(format!("{text} is no JSON and is accepted")),
            (x, Some(v)) => {
                let want = js::from_value::<X>(v.clone());
                ensure!(x.is_ok() == want.is_ok(), "{text} as text: {:?}, as a value: {:?}", x.as_ref().err(), want.as_ref().err());
                if let (Ok(x), Ok(want)) = (x, want) {
                    let (x, want) = (js::to_value(x).map_err(|e| e.to_string())?, js::to_value(&want).map_err(|e| e.to_string())?);
                    ensure!(x == want, "{text} decodes to {x} as text and to {want} as a value");
                }
            }
            _ => {}
        }
    }
    Ok(outcome((valid, value.map(|v| v.to_string()))))
}

pub struct Payload {
    pub name: &'static str,
    pub schema: &'static str,
    pub codec: Codec,
    pub spelt: fn(&str) -> Result<u64, String>,
}

macro_rules! payloads {
    ($($name:literal $t:ty = $s:expr;)*) => { vec![$(Payload { name: $name, schema: $s, codec: codec::<$t>, spelt: spelt::<$t> }),*] };
}

const TARGETS: &str = "{targets:[{uri:url!}]!}";
const DOC: &str = "{textDocument:{uri:url!}!}";
const RUN: &str = "{target:{uri:url!}! originId:str? arguments:str? dataKind:str? data:any?}";
const SHOW: &str = "{type:code4! message:str! task:{id:str= parents:[str]=}? originId:str?}";
const STATUS: &str = "{originId:str? statusCode:u64! dataKind:str? data:any?}";

pub fn requests() -> Vec<Payload> {
    payloads! {
        "build/initialize" InitializeBuild =
            "{displayName:str! version:str= bspVersion:str= rootUri:url! capabilities:{languageIds:[str]!}= data:any?}";
        "buildTarget/dependencyModules" BuildTargetDependencyModules = TARGETS;
        "debugSession/start" DebugSessionStart = "{targets:[{uri:url!}]= dataKind:str= data:any=}";
        "buildTarget/sources" BuildTargetSources = TARGETS;
        "buildTarget/inverseSources" TextDocumentInverseSources = DOC;
        "buildTarget/dependencySources" BuildTargetDependencySources = DOC;
        "buildTarget/resources" BuildTargetResources = TARGETS;
        "buildTarget/run" BuildTargetRun = RUN;
        "buildTarget/compile" BuildTargetCompile = "{target:{uri:url!}! originId:str? arguments:str?}";
        "buildTarget/test" BuildTargetTest = RUN;
        "buildTarget/cleanCache" BuildTargetCleanCache = TARGETS;
    }
}

pub fn notifications() -> Vec<Payload> {
    payloads! {
        "build/showMessage" ShowMessage = SHOW;
        "build/logMessage" LogMessage = SHOW;
        "build/publishDiagnostics" PublishDiagnostics =
            "{textDocument:{uri:url!}! buildTarget:{uri:url!}! originId:str? diagnostics:[{range:{start:{line:u32! character:u32!}! end:{line:u32! character:u32!}!}! message:str! source:str?}]! reset:bool!}";
        "build/taskStart" TaskStart =
            "{taskId:{id:str= parents:[str]=}= eventTime:u64? message:str= dataKind:kind= data:any=}";
        "build/taskProgress" TaskProgress =
            "{taskId:{id:str= parents:[str]=}= eventTime:u64? message:str= total:u32? progress:u32? unit:str= dataKind:kind= data:any=}";
        "build/taskFinish" TaskFinish =
            "{taskId:{id:str= parents:[str]=}= eventTime:u64? message:str= status:code3= dataKind:kind= data:any=}";
        "buildTarget/didChange" BuildTargetDidChange = "{changes:[{target:{uri:url!}! kind:code3? data:any?}]!}";
    }
}

pub fn results() -> Vec<Payload> {
    payloads! {
        "build/initialize result" InitializeBuildResult =
            "{displayName:str! version:str! bspVersion:str! capabilities:{
                compileProvider:{languageIds:[str]!}? testProvider:{languageIds:[str]!}? runProvider:{languageIds:[str]!}?
                debugProvider:{languageIds:[str]!}? inverseSourcesProvider:bool? dependencySourcesProvider:bool?
                dependencyModulesProvider:bool? resourcesProvider:bool? canReload:bool? buildTargetChangedProvider:bool?
            }! data:any?}";
        "workspace/buildTargets result" WorkspaceBuildTargetsResult =
            "{targets:[{id:{uri:url!}! displayName:str? baseDirectory:str? tags:[tag]!
                capabilities:{canCompile:bool! canTest:bool! canRun:bool! canDebug:bool!}!
                languageIds:[str]! dependencies:[{uri:url!}]!}]!}";
        "buildTarget/sources result" BuildTargetSourcesResult =
            "{items:[{target:{uri:url!}! sources:[{uri:url! kind:code2! generated:bool!}]!}]!}";
        "buildTarget/inverseSources result" BuildTargetInverseSourcesResult = TARGETS;
        "buildTarget/dependencySources result" BuildTargetDependencySourcesResult = "{items:[{target:{uri:url!}! sources:[str]!}]!}";
        "buildTarget/dependencyModules result" BuildTargetDependencyModulesResult =
            "{items:[{target:{uri:url!}! modules:[{name:str! version:str! dataKind:str? data:any?}]!}]!}";
        "buildTarget/resources result" BuildTargetResourcesResult = "{items:[{target:{uri:url!}! resources:[str]!}]!}";
        "buildTarget/compile result" BuildTargetCompileResult = STATUS;
        "buildTarget/test result" BuildTargetTestResult = STATUS;
        "buildTarget/run result" BuildTargetRunResult = "{originId:str? statusCode:u64!}";
        "buildTarget/cleanCache result" BuildTargetCleanCacheResult = "{message:str? cleaned:bool!}";
        "debugSession/start result" DebugSessionStartResult = "{uri:url!}";
    }
}

/// All values up to `k` deviations from the value with all optional members and from that with none.
pub fn enumerate(t: &T, k: usize) -> Vec<V> {
    let mut seen = std::collections::HashSet::new();
    let mut out = vec![];
    for full in [true, false] {
        for v in t.values(k, full) {
            if seen.insert(v.value.to_string()) {
                out.push(v);
            }
        }
    }
    out
}

/// The most deviations for which there are no more than `limit` values.
pub fn within(t: &T, limit: usize) -> (usize, Vec<V>) {
    let mut k = 1;
    let mut best = enumerate(t, 1);
    while k < 6 {
        LIMIT.set(limit);
        let next = enumerate(t, k + 1);
        LIMIT.set(usize::MAX);
        if OVER.replace(false) || next.len() > limit || next.len() == best.len() {
            break;
        }
        k += 1;
        best = next;
    }
    (k, best)
}

pub fn judge(t: &T, codec: Codec, v: &V) -> Result<u64, String> {
    let got = codec(&v.value)?;
    match (&got, v.good) {
        (Err(e), true) => Err(format!("{} is refused: {e}", v.value)),
        (Ok(e), false) => Err(format!("{} is accepted as {e}", v.value)),
        (Err(_), false) => Ok(0),
        (Ok(e), true) => {
            t.only_known(e)?;
            let (want, have) = (t.normal(&v.value), t.normal(e));
            ensure!(want == have, "{} comes back as {e}", v.value);
            let again = codec(e)?;
            ensure!(again.as_ref() == Ok(e), "{} encodes as {e}, and that as {again:?}", v.value);
            Ok(outcome(have.to_string()))
        }
    }
}

const EDITS: [&str; 16] = ["\\", "\"", "{", "}", "[", "]", ",", ":", "0", "-", "e", "null", "\\u00e9", "\\ud800", "\n", " "];

/// How many texts are one edit away from one of `n` characters, and which.
pub fn edits(n: usize) -> usize {
    n * (EDITS.len() * 2 + 1)
}
pub fn edited(text: &[char], i: usize) -> String {
    let (at, e) = (i / (EDITS.len() * 2 + 1), i % (EDITS.len() * 2 + 1));
    let mut c: Vec<char> = text.to_vec();
    match e {
        0 => drop(c.remove(at)),
        e if e % 2 == 1 => drop(c.splice(at..at, EDITS[e / 2].chars())),
        e => drop(c.splice(at..at + 1, EDITS[e / 2 - 1].chars())),
    }
    c.into_iter().collect()
}

fn payload_jobs(all: Vec<Payload>, limit: usize) -> Vec<Job> {
    all.into_iter()
        .flat_map(|p| {
            let t = Arc::new(schema(p.schema));
            let combinations = Arc::new(t.combinations());
            let (c2, t2, t3, t4) = (combinations.clone(), t.clone(), t.clone(), t.clone());
            let all = Job::each(
                format!("{}: every combination of members", p.name),
                combinations.len(),
                move |i| judge(&t2, p.codec, &V { value: combinations[i].clone(), good: true, cost: 0 }),
                move |i| c2[i].to_string(),
            );
            let (k, vs) = within(&t, limit);
            let vs = Arc::new(vs);
            let v2 = vs.clone();
            let some = Job::each(
                format!("{}: every value up to {k} deviations", p.name),
                vs.len(),
                move |i| judge(&t, p.codec, &vs[i]),
                move |i| v2[i].value.to_string(),
            );
            let wide = Arc::new(t3.wide());
            let w2 = wide.clone();
            let wide = Job::each(
                format!("{}: every value of a wide range in one place", p.name),
                wide.len(),
                move |i| judge(&t3, p.codec, &wide[i]),
                move |i| w2[i].value.to_string(),
            );
            // Texts one edit away from that of the full value.
            let text: Arc<Vec<char>> = Arc::new(t4.plain().to_string().chars().collect());
            let n = text.len();
            let e2 = text.clone();
            let edits = Job::each(
                format!("{}: every text one edit away from a good one", p.name),
                edits(n),
                move |i| (p.spelt)(&edited(&text, i)),
                move |i| edited(&e2, i),
            );
            [some, all, wide, edits]
        })
        .collect()
}

pub fn p20(tier: Tier) -> Vec<Job> {
    let mut all = requests();
    all.extend(notifications());
    payload_jobs(all, if tier == Tier::Quick { 60_000 } else { 600_000 })
}

pub fn p21(tier: Tier) -> Vec<Job> {
    payload_jobs(results(), if tier == Tier::Quick { 60_000 } else { 600_000 })
}

/// All strings over an alphabet up to a length, shortest first.
pub fn strings(alphabet: &'static [&'static str], len: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut from = 0;
    for _ in 0..len {
        let to = out.len();
        for i in from..to {
            for a in alphabet {
                out.push(format!("{}{a}", out[i]));
            }
        }
        from = to;
    }
    out
}

/// Strings one edit away, and re-cased: what might be taken for a known one.
fn near(known: &[&str]) -> Vec<String> {
    let mut out = vec![];
    for k in known {
        let c: Vec<char> = k.chars().collect();
        for i in 0..=c.len() {
            for x in ['a', '-', ' ', 'T', '\u{0}'] {
                let mut d = c.clone();
                d.insert(i, x);
                out.push(d.iter().collect());
                if i < c.len() {
                    let mut d = c.clone();
                    d[i] = x;
                    out.push(d.iter().collect());
                }
            }
            if i < c.len() {
                let mut d = c.clone();
                d.remove(i);
                out.push(d.iter().collect());
                let mut d = c.clone();
                d[i] = d[i].to_ascii_uppercase();
                out.push(d.iter().collect());
            }
            out.push(c[..i].iter().collect());
            out.push(c[i..].iter().collect());
        }
        let camel: String = k.split('-').map(|w| w[..1].to_uppercase() + &w[1..]).collect();
        out.extend([k.to_uppercase(), camel, k.replace('-', "_"), k.replace('-', "")]);
    }
    out.extend(["custom", "Custom", "none", "None", "null", "", "0", "Libary", "libary", "NoIDE", "noIDE"].map(String::from));
    out.sort();
    out.dedup();
    out
}

fn name_of_tag(t: &BuildTargetTag) -> String {
    use BuildTargetTag::*;
    match t {
        Libary => "library",
        Application => "application",
        Test => "test",
        IntegrationTest => "integration-test",
        Benchmark => "benchmark",
        NoIDE => "no-ide",
        Manual => "manual",
        Custom(x) => return format!("custom {x}"),
    }
    .into()
}

fn name_of_kind(t: &TaskDataKind) -> String {
    use TaskDataKind::*;
    match t {
        CompileTask => "compile-task",
        CompileReport => "compile-report",
        TestTask => "test-task",
        TestReport => "test-report",
        TestStart => "test-start",
        TestFinish => "test-finish",
        Custom(x) => return format!("custom {x}"),
        None => "none",
    }
    .into()
}

fn text_codes<X: DeserializeOwned + Serialize>(s: &str, known: &[&str], name: impl Fn(&X) -> String, own: Vec<X>) -> Result<u64, String> {
    // One made by the application, whatever its text.
    for x in own {
        for back in [js::to_value(&x), js::to_string(&x).map(|t| js::from_str(&t).unwrap_or(json!([t])))] {
            let back = back.map_err(|e| format!("a custom {s:?} does not encode: {e}"))?;
            ensure!(back == json!(s), "a custom {s:?} is encoded as {back}");
        }
        ensure!(known.contains(&s) || name(&x) == format!("custom {s}"), "a custom {s:?} is {:?}", name(&x));
    }
    let want = if known.contains(&s) { s.to_string() } else { format!("custom {s}") };
    let quoted = json!(s).to_string();
    // As text with escapes, as plain text and as a value: a string may be borrowed or owned.
    let escaped: String = format!("\"{}\"", s.encode_utf16().map(|u| format!("\\u{u:04x}")).collect::<String>());
    for (how, x) in [
        ("a value", js::from_value::<X>(json!(s))),
        ("text", js::from_str(&quoted)),
        ("escaped text", js::from_str(&escaped)),
        ("a reader", js::from_reader(quoted.as_bytes())),
    ] {
        let x = x.map_err(|e| format!("{s:?} from {how} is refused: {e}"))?;
        ensure!(name(&x) == want, "{s:?} from {how} is taken for {:?}", name(&x));
        let back = js::to_value(&x).map_err(|e| format!("{s:?} does not encode: {e}"))?;
        ensure!(back == json!(s), "{s:?} comes back as {back}");
    }
    Ok(outcome(want))
}

fn numbers<X: DeserializeOwned + Serialize>(n: i64, last: i64, code: impl Fn(&X) -> i64) -> Result<u64, String> {
    let good = (1..=last).contains(&n);
    for x in [js::from_value::<X>(json!(n)), js::from_str(&n.to_string())].into_iter().flatten() {
        ensure!(good, "{n} is accepted as {}", code(&x));
        ensure!(code(&x) == n, "{n} is taken for {}", code(&x));
        let back = js::to_value(&x).map_err(|e| e.to_string())?;
        ensure!(back == json!(n), "{n} comes back as {back}");
    }
    ensure!(js::from_str::<X>(&format!("{n}.5")).is_err(), "{n}.5 is accepted");
    ensure!(good == js::from_value::<X>(json!(n)).is_ok(), "{n} is refused");
    ensure!(good == js::from_str::<X>(&n.to_string()).is_ok(), "{n} is refused as text");
    Ok(outcome((good, n * good as i64)))
}

pub fn p23(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let mut out = vec![];
    let mut ns: Vec<i64> = (-300..if deep { 1_200_000 } else { 70_000 }).collect();
    for p in 8..63 {
        for k in -3i64..=6 {
            ns.extend([(1i64 << p) + k, -(1i64 << p) + k]);
        }
    }
    ns.sort();
    ns.dedup();
    let ns = Arc::new(ns);
    type Num = fn(i64) -> Result<u64, String>;
    let kinds: [(&str, Num); 4] = [
        ("task status", |n| {
            numbers::<TaskStatus>(n, 3, |x| match x {
                TaskStatus::Ok => 1,
                TaskStatus::Error => 2,
                TaskStatus::Cancelled => 3,
            })
        }),
        ("message type", |n| {
            numbers::<MessageType>(n, 4, |x| match x {
                MessageType::Error => 1,
                MessageType::Warning => 2,
                MessageType::Info => 3,
                MessageType::Log => 4,
            })
        }),
        ("target event kind", |n| {
            numbers::<BuildTargetEventKind>(n, 3, |x| match x {
                BuildTargetEventKind::Created => 1,
                BuildTargetEventKind::Changed => 2,
                BuildTargetEventKind::Deleted => 3,
            })
        }),
        ("source kind", |n| {
            numbers::<SourceKind>(n, 2, |x| match x {
                SourceKind::File => 1,
                SourceKind::Directory => 2,
            })
        }),
    ];
    for (name, f) in kinds {
        let (a, b) = (ns.clone(), ns.clone());
        out.push(Job::each(format!("{name}: all numbers in range and around the powers of two"), ns.len(), move |i| f(a[i]), move |i| b[i].to_string()));
    }
    // The kinds in the program.
    out.push(Job::each(
        "each kind encodes as its code",
        1,
        |_| {
            use TaskDataKind as K;
            use BuildTargetTag as G;
            let e = |v: serde_json::Result<Value>| v.unwrap_or_else(|e| json!(e.to_string()));
            macro_rules! enc { ($x:expr) => { e(js::to_value($x)) } }
            let have = json!([
                enc!(TaskStatus::Ok), enc!(TaskStatus::Error), enc!(TaskStatus::Cancelled),
                enc!(MessageType::Error), enc!(MessageType::Warning), enc!(MessageType::Info), enc!(MessageType::Log),
                enc!(BuildTargetEventKind::Created), enc!(BuildTargetEventKind::Changed), enc!(BuildTargetEventKind::Deleted),
                enc!(SourceKind::File), enc!(SourceKind::Directory),
                enc!(K::CompileTask), enc!(K::CompileReport), enc!(K::TestTask), enc!(K::TestReport), enc!(K::TestStart), enc!(K::TestFinish),
                enc!(K::Custom("own".into())), enc!(K::None),
                enc!(G::Libary), enc!(G::Application), enc!(G::Test), enc!(G::IntegrationTest), enc!(G::Benchmark), enc!(G::NoIDE), enc!(G::Manual),
                enc!(G::custom("own")), enc!(G::Custom("own".to_string())),
            ]);
            let want = json!([
                1, 2, 3, 1, 2, 3, 4, 1, 2, 3, 1, 2, "compile-task", "compile-report", "test-task", "test-report", "test-start", "test-finish",
                "own", null, "library", "application", "test", "integration-test", "benchmark", "no-ide", "manual", "own", "own"
            ]);
            ensure!(have == want, "{have} instead of {want}");
            for (i, s) in [TaskStatus::Ok, TaskStatus::Error, TaskStatus::Cancelled].iter().enumerate() {
                let is = [s.is_ok(), s.is_error(), s.is_cancelled()];
                ensure!((0..3).all(|j| is[j] == (i == j)), "status {s:?} says {is:?}");
            }
            ensure!(K::None.is_none() && !K::TestTask.is_none() && !K::Custom("none".into()).is_none(), "is_none");
            for k in [json!(null)] {
                let x: K = js::from_value(k).map_err(|e| e.to_string())?;
                ensure!(x.is_none(), "null is taken for {x:?}");
            }
            Ok(1)
        },
        |_| "all kinds".into(),
    ));
    let alpha: &'static [&'static str] = &["t", "e", "s", "-", "T", " ", "\u{e9}"];
    let len = if deep { 6 } else { 4 };
    for (name, tag) in [("tags", true), ("task data kinds", false)] {
        let mut all = near(if tag { &TAGS } else { &KINDS });
        all.extend(strings(alpha, len));
        all.extend(crate::wide::texts());
        let all = Arc::new(all);
        let b = all.clone();
        out.push(Job::each(
            format!("{name}: known strings, all those near them and all short ones"),
            all.len(),
            move |i| {
                if tag {
                    text_codes::<BuildTargetTag>(&all[i], &TAGS, name_of_tag, vec![BuildTargetTag::custom(&all[i]), BuildTargetTag::Custom(all[i].clone())])
                } else {
                    text_codes::<TaskDataKind>(&all[i], &KINDS, name_of_kind, vec![TaskDataKind::Custom(all[i].clone())])
                }
            },
            move |i| format!("{:?}", b[i]),
        ));
    }
    // In their places: every code in every payload that has one.
    for (p, members) in [
        ("build/taskFinish", &["status"][..]),
        ("build/showMessage", &["type"]),
        ("build/logMessage", &["type"]),
        ("buildTarget/didChange", &["changes", "kind"]),
        ("buildTarget/sources result", &["items", "sources", "kind"]),
        ("build/taskStart", &["dataKind"]),
        ("build/taskProgress", &["dataKind"]),
        ("build/taskFinish", &["dataKind"]),
        ("workspace/buildTargets result", &["targets", "tags"]),
    ] {
        let mut all = requests();
        all.extend(notifications());
        all.extend(results());
        let p = all.into_iter().find(|x| x.name == p).unwrap();
        let t = Arc::new(schema(p.schema));
        let plain = t.plain();
        let vs: Vec<V> = {
            let mut ty = &*t;
            for m in members {
                while let T::Arr(x) = ty {
                    ty = &**x;
                }
                let T::Obj(ms) = ty else { panic!() };
                ty = &ms.iter().find(|x| x.name == *m).unwrap().ty;
            }
            let leaf = ty.values(1, true);
            leaf.into_iter()
                .map(|v| {
                    let mut value = plain.clone();
                    let mut at = &mut value;
                    for m in members {
                        if at.is_array() {
                            at = &mut at[0];
                        }
                        at = &mut at[*m];
                    }
                    *at = v.value;
                    V { value, ..v }
                })
                .collect()
        };
        let vs = Arc::new(vs);
        let b = vs.clone();
        out.push(Job::each(
            format!("{}: every code as {}", p.name, members.join(".")),
            vs.len(),
            move |i| judge(&t, p.codec, &vs[i]),
            move |i| b[i].value.to_string(),
        ));
    }
    out
}
