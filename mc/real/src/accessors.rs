//! P22: constructors, setters and getters against a JSON object that holds what was last given.
//!
//! A value's state is what was last given for each member. In each state, reached by each constructor,
//! by decoding and by setters in two orders, every setter is called with every value of its member; what
//! is encoded and what every getter says must then be the state expected, before and after decoding.
//! No setter looks at anything but the value, so this settles every sequence of calls by induction.

use crate::ensure;
use crate::js;
use crate::run::*;
use crate::schema::*;
use bsp_server::types::*;
use lsp_types::TextDocumentIdentifier;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::os::unix::ffi::OsStrExt;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

fn de<X: DeserializeOwned>(v: &Value) -> X {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("{v} is refused: {e}"))
}

type Make<X> = (&'static str, Value, fn(&Value) -> X);
type Set<X> = (&'static str, fn(&mut X, &Value));
/// Its name, the member it is about, what it says and what it should say.
type Get<X> = (&'static str, &'static str, fn(&X) -> Value, fn(&Value) -> Value);

struct Machine<X: 'static> {
    name: &'static str,
    schema: &'static str,
    /// Members and their values; the first one is where setters start from.
    fields: Vec<(&'static str, Vec<Value>)>,
    /// Constructors, with the members they do not take.
    makes: Vec<Make<X>>,
    sets: Vec<Set<X>>,
    gets: Vec<Get<X>>,
}

/// Members by name: `set!(a b)` stands for `("a", |x, v| x.set_a(de(v)))`.
macro_rules! set {
    ($($json:literal $f:ident),* $(,)?) => { vec![$(($json, |x, v| x.$f(de(v)))),*] };
}
macro_rules! get {
    ($($json:literal $f:ident),* $(,)?) => { vec![$((stringify!($f), $json, |x| json!(x.$f()), |m| m[$json].clone())),*] };
}
/// Public members.
macro_rules! member {
    ($($json:literal $f:ident),* $(,)?) => { vec![$(($json, |x, v| x.$f = de(v))),*] };
}
macro_rules! read {
    ($($json:literal $f:ident),* $(,)?) => { vec![$((stringify!($f), $json, |x| json!(x.$f), |m| m[$json].clone())),*] };
}

impl<X: DeserializeOwned + Serialize + 'static> Machine<X> {
    fn states(&self) -> usize {
        self.fields.iter().map(|f| f.1.len()).product()
    }
    fn state(&self, mut i: usize) -> Value {
        let mut v = json!({});
        for (name, vs) in &self.fields {
            v[*name] = vs[i % vs.len()].clone();
            i /= vs.len();
        }
        v
    }
    fn says(&self, t: &T, x: &X, m: &Value, when: &str) -> Result<(), String> {
        for (name, member, get, want) in &self.gets {
            let (have, want) = (get(x), want(m));
            let T::Obj(ms) = t else { unreachable!() };
            let same = match ms.iter().find(|m| m.name == *member) {
                Some(m) => m.ty.normal(&have) == m.ty.normal(&want),
                None => have == want,
            };
            ensure!(same, "{}: {name} gives {have} instead of {want} {when}", self.name);
        }
        Ok(())
    }
    fn agrees(&self, t: &T, x: &X, m: &Value, how: &dyn Fn() -> String) -> Result<(), String> {
        self.says(t, x, m, &how())?;
        let e = js::to_value(x).map_err(|e| format!("{}: does not encode {}: {e}", self.name, how()))?;
        t.only_known(&e)?;
        ensure!(t.normal(&e) == t.normal(m), "{}: encodes as {e} instead of {m} {}", self.name, how());
        let text = js::to_string(x).map_err(|e| e.to_string())?;
        let y: X = js::from_str(&text).map_err(|err| format!("{}: does not decode {text} again {}: {err}", self.name, how()))?;
        self.says(t, &y, m, &format!("after decoding, {}", how()))?;
        let again = js::to_value(&y).map_err(|e| e.to_string())?;
        ensure!(t.normal(&again) == t.normal(&e), "{}: {e} comes back as {again}", self.name);
        Ok(())
    }
    fn judge(&self, t: &T, i: usize, tally: &Tally) -> Result<u64, String> {
        let m = self.state(i);
        let step = || tally.transitions.fetch_add(1, Relaxed);
        tally.states.fetch_add(1, Relaxed);
        for (name, without, make) in &self.makes {
            let mut want = m.clone();
            for (k, v) in without.as_object().unwrap() {
                want[k] = v.clone();
            }
            step();
            self.agrees(t, &make(&m), &want, &|| format!("when made by {name} from {m}"))?;
        }
        let fresh = || match self.makes.first() {
            Some((_, without, make)) if without.as_object().unwrap().is_empty() => make(&m),
            _ => de(&m),
        };
        self.agrees(t, &de(&m), &m, &|| format!("when decoded from {m}"))?;
        // Two ways here from where setters start, with one setter after the other.
        for back in [false, true] {
            let mut at = self.state(0);
            let mut x: X = de(&at);
            let mut order: Vec<usize> = (0..self.sets.len()).collect();
            if back {
                order.reverse();
            }
            for s in order {
                let (name, set) = &self.sets[s];
                set(&mut x, &m[*name]);
                at[*name] = m[*name].clone();
                step();
            }
            self.agrees(t, &x, &at, &|| format!("when set{} one by one", if back { " backwards" } else { "" }))?;
        }
        for (name, set) in &self.sets {
            let values = &self.fields.iter().find(|f| f.0 == *name).unwrap().1;
            for v in values {
                let mut x = fresh();
                set(&mut x, v);
                let mut want = m.clone();
                want[*name] = v.clone();
                step();
                self.agrees(t, &x, &want, &|| format!("when {name} is set to {v} in {m}"))?;
            }
        }
        Ok(outcome(m.to_string()))
    }
    /// A member's value, then another that is near it or anything its type allows, then the first again.
    fn change(&self, t: &T, f: usize, u: &Value, others: &[Value], tally: &Tally) -> Result<u64, String> {
        let name = self.fields[f].0;
        for base in [0, self.states() - 1] {
            let mut m = self.state(base);
            m[name] = u.clone();
            tally.states.fetch_add(1, Relaxed);
            let step = || tally.transitions.fetch_add(1, Relaxed);
            for (by, without, make) in &self.makes {
                let mut want = m.clone();
                for (k, v) in without.as_object().unwrap() {
                    want[k] = v.clone();
                }
                step();
                self.agrees(t, &make(&m), &want, &|| format!("when made by {by} from {m}"))?;
            }
            self.agrees(t, &de(&m), &m, &|| format!("when decoded from {m}"))?;
            for (_, set) in self.sets.iter().filter(|s| s.0 == name) {
                for v in others {
                    let mut x: X = match self.makes.first() {
                        Some((_, without, make)) if without.as_object().unwrap().is_empty() => make(&m),
                        _ => de(&m),
                    };
                    for v in [v, u] {
                        set(&mut x, v);
                        let mut want = m.clone();
                        want[name] = v.clone();
                        step();
                        self.agrees(t, &x, &want, &|| format!("when {name} is set to {v} in {m}"))?;
                    }
                }
            }
        }
        Ok(outcome(u.to_string()))
    }
    /// Values a member takes that are near these, or of some edge of its type.
    fn near(&self, t: &T, f: usize) -> (Vec<Value>, Vec<Value>) {
        let (name, given) = &self.fields[f];
        let T::Obj(ms) = t else { unreachable!() };
        let ty = &ms.iter().find(|m| m.name == *name).unwrap().ty;
        let fits = |v: &Value| {
            let mut m = self.state(0);
            m[*name] = v.clone();
            serde_json::from_value::<X>(m.clone()).ok().and_then(|x| serde_json::to_value(x).ok()).is_some_and(|e| t.normal(&e) == t.normal(&m))
        };
        let mut near = given.clone();
        near.extend(given.iter().flat_map(twists));
        let mut wide: Vec<Value> = ty.values(1, true).into_iter().filter(|v| v.good).map(|v| v.value).collect();
        let mut known = std::collections::HashSet::new();
        for vs in [&mut near, &mut wide] {
            vs.retain(|v| known.insert(v.to_string()) && fits(v));
        }
        (near, wide)
    }
    fn jobs(self) -> Vec<Job> {
        let t = schema(self.schema);
        let a = Arc::new(self);
        let mut out = vec![a.clone().job()];
        // Each value with those it is changed to; all of the wide ones are changed to the first two.
        let mut cases: Vec<(usize, Value, Arc<Vec<Value>>)> = vec![];
        for f in 0..a.fields.len() {
            let (near, wide) = a.near(&t, f);
            let few = Arc::new(near.iter().take(2).cloned().collect::<Vec<_>>());
            let near = Arc::new(near);
            cases.extend(near.iter().map(|v| (f, v.clone(), near.clone())));
            cases.extend(wide.into_iter().map(|v| (f, v, few.clone())));
        }
        let cases = Arc::new(cases);
        let (b, c) = (a.clone(), cases.clone());
        out.push(Job {
            name: format!("{}: every member from any value to any other near it", a.name),
            cases: cases.len(),
            check: Box::new(move |i, tally| {
                let (f, u, others) = &cases[i];
                a.change(&t, *f, u, others, tally)
            }),
            show: Box::new(move |i| format!("{} {}", b.fields[c[i].0].0, c[i].1)),
        });
        out
    }
    fn job(self: Arc<Self>) -> Job {
        let t = schema(self.schema);
        let n = self.states();
        let a = self;
        let b = a.clone();
        Job {
            name: format!("{}: every state, and every setter in it", a.name),
            cases: n,
            check: Box::new(move |i, tally| a.judge(&t, i, tally)),
            show: Box::new(move |i| b.state(i).to_string()),
        }
    }
}

/// Values that differ from this one in some small way.
fn twists(v: &Value) -> Vec<Value> {
    match v {
        Value::Bool(b) => vec![json!(!b)],
        Value::Number(n) => {
            let n = n.as_u64().unwrap_or(0);
            vec![json!(n.wrapping_add(1)), json!(n.saturating_sub(1)), json!(0), json!(n as u32), json!(1u64 << 31), json!(u32::MAX), json!(1u64 << 32), json!(i64::MAX)]
        }
        Value::String(s) => {
            let mut out: Vec<String> = ["/", "//", " ", "\n", "\u{0}", "#", "?", "#a", "?a", ".", "%20", "%2f", "2", "\u{e9}", "e\u{301}", ":", ";", ",", "x"].map(|e| format!("{s}{e}")).to_vec();
            out.extend([
                format!(" {s}"), format!("/{s}"), format!("\u{feff}{s}"), s.to_uppercase(), s.to_lowercase(), s.trim_end_matches('/').into(), s.trim().into(), s.repeat(2),
                s.replace("%20", " "), s.replace("%20", "+"), s.replace(' ', "%20"), s.replace("//", "/"), s.replace("///", "//localhost/"), s.replace('?', "#"), s.replace('\"', "\\\""),
                s.chars().rev().collect(), s.chars().take(s.chars().count().saturating_sub(1)).collect(), String::new(),
                s.char_indices().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
                s.char_indices().map(|(i, c)| if i + 1 == s.len() { c.to_ascii_uppercase() } else { c }).collect(),
            ]);
            out.into_iter().map(|s| json!(s)).collect()
        }
        Value::Array(a) => {
            let mut out = vec![json!([]), json!(a.iter().rev().collect::<Vec<_>>())];
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                out.push(json!(b));
                let mut b = a.clone();
                b.push(a[i].clone());
                out.push(json!(b));
                let twisted = twists(&a[i]);
                for t in twisted.into_iter().take(12) {
                    let mut b = a.clone();
                    b[i] = t;
                    out.push(json!(b));
                }
            }
            for n in [16, 33, 100] {
                out.push(json!(a.iter().cycle().take(n * a.len().min(1)).collect::<Vec<_>>()));
            }
            out
        }
        Value::Object(o) => {
            let mut out = vec![];
            for (k, x) in o {
                for t in twists(x) {
                    let mut p = o.clone();
                    p.insert(k.clone(), t);
                    out.push(Value::Object(p));
                }
                let mut p = o.clone();
                p.remove(k);
                out.push(Value::Object(p));
            }
            out
        }
        Value::Null => vec![],
    }
}

fn st(member: &str) -> Vec<Value> {
    vec![json!(""), json!(format!("{member} 1")), json!(format!("{member} \u{e9}\"2"))]
}
fn ost(member: &str) -> Vec<Value> {
    vec![json!(null), json!(format!("{member} 1")), json!("")]
}
fn any(member: &str) -> Vec<Value> {
    vec![json!(null), json!({ "in": member }), json!([]), json!(false)]
}
fn flag() -> Vec<Value> {
    vec![json!(false), json!(true)]
}
fn oflag() -> Vec<Value> {
    vec![json!(null), json!(true), json!(false)]
}
fn target(n: u32) -> Value {
    json!({ "uri": format!("bsp://target/{n}?id=%20{n}") })
}
fn one_target() -> Vec<Value> {
    vec![target(0), target(1), target(2)]
}
fn targets() -> Vec<Value> {
    vec![json!([]), json!([target(1)]), json!([target(2), target(1), target(2)])]
}
fn url() -> Vec<Value> {
    vec![json!("file:///a"), json!("file:///b/c%20d"), json!("urn:x:y")]
}
fn doc() -> Vec<Value> {
    url().into_iter().map(|u| json!({ "uri": u })).collect()
}
fn list(member: &str) -> Vec<Value> {
    vec![json!([]), json!([format!("{member} 1")]), json!([format!("{member} 2"), "", format!("{member} 1")])]
}
fn num() -> Vec<Value> {
    vec![json!(0), json!(1), json!(u64::MAX)]
}
fn provider(member: &str) -> Vec<Value> {
    vec![json!(null), json!({ "languageIds": [member] }), json!({ "languageIds": [] })]
}

const TARGETS: &str = "{targets:[{uri:url!}]!}";
const RUN: &str = "{target:{uri:url!}! originId:str? arguments:str? dataKind:str? data:any?}";
const STATUS: &str = "{originId:str? statusCode:u64! dataKind:str? data:any?}";
const CAPABILITIES: &str = "{
    compileProvider:{languageIds:[str]!}? testProvider:{languageIds:[str]!}? runProvider:{languageIds:[str]!}?
    debugProvider:{languageIds:[str]!}? inverseSourcesProvider:bool? dependencySourcesProvider:bool?
    dependencyModulesProvider:bool? resourcesProvider:bool? canReload:bool? buildTargetChangedProvider:bool?
}";
const SHOW: &str = "{type:code4! message:str! task:{id:str= parents:[str]=}? originId:str?}";
const TASK: &str = "{taskId:{id:str= parents:[str]=}= eventTime:u64? message:str= dataKind:kind= data:any=}";

fn tasks() -> Vec<Value> {
    vec![json!(null), json!({ "id": "t", "parents": ["p", "q"] }), json!({ "id": "u" })]
}
fn ostr(v: &Value) -> Option<String> {
    de(v)
}

/// Value of a member before it can be compared: what `TaskId` leaves out when empty.
fn task_jobs(out: &mut Vec<Job>) {
    macro_rules! shown {
        ($t:ident, $name:literal) => {
            out.extend(
                Machine::<$t> {
                    name: $name,
                    schema: SHOW,
                    fields: vec![
                        ("type", vec![json!(4), json!(1), json!(2), json!(3)]),
                        ("message", st("message")),
                        ("task", tasks()),
                        ("originId", ost("originId")),
                    ],
                    makes: vec![
                        ("new", json!({}), |m| $t::new(de(&m["type"]), de::<String>(&m["message"]), de(&m["task"]), ostr(&m["originId"]))),
                        ("error", json!({"type": 1}), |m| $t::error(de::<String>(&m["message"]), de(&m["task"]), ostr(&m["originId"]))),
                        ("warn", json!({"type": 2}), |m| $t::warn(de::<String>(&m["message"]), de(&m["task"]), ostr(&m["originId"]))),
                        ("info", json!({"type": 3}), |m| $t::info(de::<String>(&m["message"]), de(&m["task"]), ostr(&m["originId"]))),
                        ("log", json!({"type": 4}), |m| $t::log::<String>(de::<String>(&m["message"]), de(&m["task"]), ostr(&m["originId"]))),
                    ],
                    sets: member!("type" typ, "message" message, "task" task, "originId" origin_id),
                    gets: read!("type" typ, "message" message, "task" task, "originId" origin_id),
                }
                .jobs(),
            );
        };
    }
    shown!(ShowMessage, "ShowMessage");
    shown!(LogMessage, "LogMessage");

    let id = || vec![json!({ "id": "t" }), json!({ "id": "", "parents": ["p"] }), json!({ "id": "u", "parents": ["", "q"] })];
    let kind = || vec![json!(null), json!("test-start"), json!("own")];
    let time = || vec![json!(null), json!(0), json!(1_650_000_000_123u64)];
    out.extend(
        Machine::<TaskStart> {
            name: "TaskStart",
            schema: TASK,
            fields: vec![("taskId", id()), ("eventTime", time()), ("message", st("message")), ("dataKind", kind()), ("data", any("data"))],
            makes: vec![("new", json!({"eventTime": null, "message": "", "dataKind": null, "data": null}), |m| TaskStart::new(de::<TaskId>(&m["taskId"])))],
            sets: member!("taskId" task_id, "eventTime" event_time, "message" message, "dataKind" data_kind, "data" data),
            gets: read!("taskId" task_id, "eventTime" event_time, "message" message, "dataKind" data_kind, "data" data),
        }
        .jobs(),
    );
    out.extend(
        Machine::<TaskFinish> {
            name: "TaskFinish",
            schema: "{taskId:{id:str= parents:[str]=}= eventTime:u64? message:str= status:code3= dataKind:kind= data:any=}",
            fields: vec![
                ("taskId", id()), ("eventTime", time()), ("message", st("message")), ("status", vec![json!(1), json!(2), json!(3)]),
                ("dataKind", kind()), ("data", any("data")),
            ],
            makes: vec![(
                "new",
                json!({"eventTime": null, "message": "", "status": 1, "dataKind": null, "data": null}),
                |m| TaskFinish::new(de::<TaskId>(&m["taskId"])),
            )],
            sets: member!("taskId" task_id, "eventTime" event_time, "message" message, "status" status, "dataKind" data_kind, "data" data),
            gets: read!("taskId" task_id, "eventTime" event_time, "message" message, "status" status, "dataKind" data_kind, "data" data),
        }
        .jobs(),
    );
    out.extend(
        Machine::<TaskProgress> {
            name: "TaskProgress",
            schema: "{taskId:{id:str= parents:[str]=}= eventTime:u64? message:str= total:u32? progress:u32? unit:str= dataKind:kind= data:any=}",
            fields: vec![
                ("taskId", id()), ("eventTime", time()), ("message", st("message")), ("total", vec![json!(null), json!(7), json!(0)]),
                ("progress", vec![json!(null), json!(3), json!(u32::MAX)]), ("unit", st("unit")), ("dataKind", kind()), ("data", vec![json!(null), json!(0)]),
            ],
            makes: vec![],
            sets: member!("taskId" task_id, "eventTime" event_time, "message" message, "total" total, "progress" progress, "unit" unit, "dataKind" data_kind, "data" data),
            gets: read!("taskId" task_id, "eventTime" event_time, "message" message, "total" total, "progress" progress, "unit" unit, "dataKind" data_kind, "data" data),
        }
        .jobs(),
    );
    // Task ids: parents are added at the end, any number of them.
    let names = ["", "p", "q\u{e9}"];
    out.push(Job::each(
        "TaskId: every way to make one, and every sequence of up to four parents added",
        3 * 4 * 121,
        move |i| {
            let (id, way, mut seq) = (names[i % 3], i / 3 % 4, i / 12);
            let (mut x, mut parents) = match way {
                0 => (TaskId::from(id), vec![]),
                1 => (TaskId::from(id.to_string()), vec![]),
                2 => (TaskId::new(id.into(), vec!["first".into(), "second".into()]), vec!["first", "second"]),
                _ => (TaskStart::new(id).task_id, vec![]),
            };
            let mut len = 0;
            while seq >= 3usize.pow(len) {
                seq -= 3usize.pow(len);
                len += 1;
            }
            for _ in 0..len {
                x.add_parent(names[seq % 3].into());
                parents.push(names[seq % 3]);
                seq /= 3;
            }
            let e = js::to_value(&x).map_err(|e| e.to_string())?;
            let mut want = json!({ "id": id });
            if !parents.is_empty() {
                want["parents"] = json!(parents);
            }
            let have = (e["id"].clone(), e.get("parents").cloned().unwrap_or(json!([])));
            ensure!(have == (json!(id), json!(parents)), "a task id encodes as {e} instead of {want}");
            let y: TaskId = js::from_str(&e.to_string()).map_err(|e| e.to_string())?;
            let again = js::to_value(&y).map_err(|e| e.to_string())?;
            ensure!(again == e, "{e} comes back as {again}");
            Ok(outcome(e.to_string()))
        },
        move |i| format!("id {:?}, made in way {}, parents {}", names[i % 3], i / 3 % 4, i / 12),
    ));
}

fn simple_jobs(out: &mut Vec<Job>) {
    macro_rules! push { ($m:expr) => { out.extend($m.jobs()) }; }
    push!(Machine::<BuildTargetCapabilities> {
        name: "BuildTargetCapabilities",
        schema: "{canCompile:bool! canTest:bool! canRun:bool! canDebug:bool!}",
        fields: vec![("canCompile", flag()), ("canTest", flag()), ("canRun", flag()), ("canDebug", flag())],
        makes: vec![
            ("new", json!({}), |m| BuildTargetCapabilities::new(de(&m["canCompile"]), de(&m["canTest"]), de(&m["canRun"]), de(&m["canDebug"]))),
            ("default", json!({"canCompile": false, "canTest": false, "canRun": false, "canDebug": false}), |_| Default::default()),
        ],
        sets: set!("canCompile" set_can_compile, "canTest" set_can_test, "canRun" set_can_run, "canDebug" set_can_debug),
        gets: get!("canCompile" can_compile, "canTest" can_test, "canRun" can_run, "canDebug" can_debug),
    });
    push!(Machine::<BuildTargetCleanCacheResult> {
        name: "BuildTargetCleanCacheResult",
        schema: "{message:str? cleaned:bool!}",
        fields: vec![("message", ost("message")), ("cleaned", flag())],
        makes: vec![
            ("new", json!({}), |m| BuildTargetCleanCacheResult::new(de(&m["message"]), de(&m["cleaned"]))),
            ("new_simple", json!({"message": null}), |m| BuildTargetCleanCacheResult::new_simple(de(&m["cleaned"]))),
        ],
        sets: set!("message" set_message, "cleaned" set_cleaned),
        gets: get!("message" message, "cleaned" cleaned),
    });
    macro_rules! with_targets {
        ($t:ident, $name:literal, [$($make:expr),*], mutable, $($empty:tt)*) => {
            push!(Machine::<$t> {
                name: $name, schema: TARGETS, fields: vec![("targets", targets())], makes: vec![$($make),*],
                sets: vec![
                    ("targets", |x, v| x.set_targets(de(v))),
                    ("targets", |x, v| *x.targets_mut() = de(v)),
                    ("targets", |x, v| {
                        x.targets_mut().clear();
                        x.targets_mut().extend(de::<Vec<BuildTargetIdentifier>>(v));
                    }),
                ],
                gets: { #[allow(unused_mut)] let mut g: Vec<Get<$t>> = get!("targets" targets); $($empty)* (&mut g); g },
            })
        };
    }
    fn nothing<X>(_: &mut Vec<Get<X>>) {}
    macro_rules! empty {
        ($t:ident) => { |g: &mut Vec<Get<$t>>| g.push(("is_empty", "", |x| json!(x.is_empty()), |m| json!(m["targets"].as_array().unwrap().is_empty()))) };
    }
    with_targets!(BuildTargetCleanCache, "BuildTargetCleanCache", [], mutable, (empty!(BuildTargetCleanCache)));
    with_targets!(BuildTargetDependencyModules, "BuildTargetDependencyModules", [], mutable, (empty!(BuildTargetDependencyModules)));
    with_targets!(
        BuildTargetResources, "BuildTargetResources",
        [("new", json!({}), |m| BuildTargetResources::new(de(&m["targets"])))], mutable, nothing
    );
    push!(Machine::<BuildTargetSources> {
        name: "BuildTargetSources",
        schema: TARGETS,
        fields: vec![("targets", targets())],
        makes: vec![
            ("new", json!({}), |m| BuildTargetSources::new(de(&m["targets"]))),
            ("default", json!({"targets": []}), |_| Default::default()),
        ],
        sets: set!("targets" set_targets),
        gets: get!("targets" targets),
    });
    push!(Machine::<BuildTargetCompile> {
        name: "BuildTargetCompile",
        schema: "{target:{uri:url!}! originId:str? arguments:str?}",
        fields: vec![("target", one_target()), ("originId", ost("originId")), ("arguments", ost("arguments"))],
        makes: vec![
            ("new", json!({}), |m| BuildTargetCompile::new(de(&m["target"]), de(&m["originId"]), de(&m["arguments"]))),
            ("new_simple", json!({"originId": null, "arguments": null}), |m| BuildTargetCompile::new_simple(de(&m["target"]))),
        ],
        sets: set!("target" set_target, "originId" set_origin_id, "arguments" set_arguments),
        gets: get!("target" target, "originId" origin_id, "arguments" arguments),
    });
    macro_rules! runs {
        ($t:ident, $name:literal) => {
            push!(Machine::<$t> {
                name: $name,
                schema: RUN,
                fields: vec![
                    ("target", one_target()), ("originId", ost("originId")), ("arguments", ost("arguments")), ("dataKind", ost("dataKind")),
                    ("data", any("data")),
                ],
                makes: vec![
                    ("new", json!({}), |m| $t::new(de(&m["target"]), de(&m["originId"]), de(&m["arguments"]), de(&m["dataKind"]), de(&m["data"]))),
                    ("new_simple", json!({"originId": null, "arguments": null, "dataKind": null, "data": null}), |m| $t::new_simple(de(&m["target"]))),
                ],
                sets: set!("target" set_target, "originId" set_origin_id, "arguments" set_arguments, "dataKind" set_data_kind, "data" set_data),
                gets: get!("target" target, "originId" origin_id, "arguments" arguments, "dataKind" data_kind, "data" data),
            })
        };
    }
    runs!(BuildTargetRun, "BuildTargetRun");
    runs!(BuildTargetTest, "BuildTargetTest");
    macro_rules! status {
        ($t:ident, $name:literal) => {
            push!(Machine::<$t> {
                name: $name,
                schema: STATUS,
                fields: vec![("originId", ost("originId")), ("statusCode", num()), ("dataKind", ost("dataKind")), ("data", any("data"))],
                makes: vec![
                    ("new", json!({}), |m| $t::new(de(&m["originId"]), de(&m["statusCode"]), de(&m["dataKind"]), de(&m["data"]))),
                    ("new_simple", json!({"originId": null, "dataKind": null, "data": null}), |m| $t::new_simple(de(&m["statusCode"]))),
                ],
                sets: set!("originId" set_origin_id, "statusCode" set_status_code, "dataKind" set_data_kind, "data" set_data),
                gets: get!("originId" origin_id, "statusCode" status_code, "dataKind" data_kind, "data" data),
            })
        };
    }
    status!(BuildTargetCompileResult, "BuildTargetCompileResult");
    status!(BuildTargetTestResult, "BuildTargetTestResult");
    push!(Machine::<BuildTargetRunResult> {
        name: "BuildTargetRunResult",
        schema: "{originId:str? statusCode:u64!}",
        fields: vec![("originId", ost("originId")), ("statusCode", num())],
        makes: vec![("new", json!({}), |m| BuildTargetRunResult::new(de(&m["originId"]), de(&m["statusCode"])))],
        sets: set!("originId" set_origin_id, "statusCode" set_status_code),
        gets: get!("originId" origin_id, "statusCode" status_code),
    });
    macro_rules! documents {
        ($t:ident, $name:literal) => {
            push!(Machine::<$t> {
                name: $name,
                schema: "{textDocument:{uri:url!}!}",
                fields: vec![("textDocument", doc())],
                makes: vec![("new", json!({}), |m| $t::new(de::<TextDocumentIdentifier>(&m["textDocument"])))],
                sets: set!("textDocument" set_text_document),
                gets: get!("textDocument" text_document),
            })
        };
    }
    documents!(BuildTargetDependencySources, "BuildTargetDependencySources");
    documents!(TextDocumentInverseSources, "TextDocumentInverseSources");
    push!(Machine::<BuildTargetIdentifier> {
        name: "BuildTargetIdentifier",
        schema: "{uri:url!}",
        fields: vec![("uri", url())],
        makes: vec![("new", json!({}), |m| BuildTargetIdentifier::new(de(&m["uri"])))],
        sets: set!("uri" set_uri),
        gets: get!("uri" uri),
    });
    push!(Machine::<ClientCapabilities> {
        name: "ClientCapabilities",
        schema: "{languageIds:[str]!}",
        fields: vec![("languageIds", list("languageIds"))],
        makes: vec![
            ("new", json!({}), |m| ClientCapabilities::new(de(&m["languageIds"]))),
            ("default", json!({"languageIds": []}), |_| Default::default()),
        ],
        sets: vec![
            ("languageIds", |x, v| x.set_language_ids(de(v))),
            ("languageIds", |x, v| *x.language_ids_mut() = de(v)),
        ],
        gets: get!("languageIds" language_ids),
    });
    push!(Machine::<DebugSessionStart> {
        name: "DebugSessionStart",
        schema: "{targets:[{uri:url!}]= dataKind:str= data:any=}",
        fields: vec![("targets", targets()), ("dataKind", st("dataKind")), ("data", any("data"))],
        makes: vec![
            ("new", json!({}), |m| DebugSessionStart::new(de(&m["targets"]), de(&m["dataKind"]), m["data"].clone())),
            ("default", json!({"targets": [], "dataKind": "", "data": null}), |_| Default::default()),
        ],
        sets: set!("targets" set_targets, "dataKind" set_data_kind, "data" set_data),
        gets: get!("targets" targets, "dataKind" data_kind, "data" data),
    });
    push!(Machine::<DebugSessionStartResult> {
        name: "DebugSessionStartResult",
        schema: "{uri:url!}",
        fields: vec![("uri", url())],
        makes: vec![("new", json!({}), |m| DebugSessionStartResult::new(de(&m["uri"])))],
        sets: vec![],
        gets: vec![],
    });
    push!(Machine::<InitializeBuild> {
        name: "InitializeBuild",
        schema: "{displayName:str! version:str= bspVersion:str= rootUri:url! capabilities:{languageIds:[str]!}= data:any?}",
        fields: vec![
            ("displayName", st("displayName")), ("version", st("version")), ("bspVersion", st("bspVersion")), ("rootUri", url()),
            ("capabilities", list("languageIds").into_iter().map(|l| json!({ "languageIds": l })).collect()), ("data", any("data")),
        ],
        makes: vec![
            ("new_simple", json!({"data": null}), |m| {
                InitializeBuild::new_simple::<String>(de(&m["displayName"]), de(&m["version"]), de(&m["bspVersion"]), de(&m["rootUri"]), de(&m["capabilities"]))
            }),
            ("new", json!({}), |m| {
                InitializeBuild::new::<String>(
                    de(&m["displayName"]), de(&m["version"]), de(&m["bspVersion"]), de(&m["rootUri"]), de(&m["capabilities"]), m["data"].clone(),
                )
            }),
        ],
        sets: set!(
            "displayName" set_display_name, "version" set_version, "bspVersion" set_bsp_version, "rootUri" set_root_uri,
            "capabilities" set_capabilities, "data" set_data
        ),
        gets: get!(
            "displayName" display_name, "version" version, "bspVersion" bsp_version, "rootUri" root_uri, "capabilities" capabilities,
            "data" data
        ),
    });
    push!(Machine::<InitializeBuildResult> {
        name: "InitializeBuildResult",
        schema: "{displayName:str! version:str! bspVersion:str! capabilities:{
            compileProvider:{languageIds:[str]!}? testProvider:{languageIds:[str]!}? runProvider:{languageIds:[str]!}?
            debugProvider:{languageIds:[str]!}? inverseSourcesProvider:bool? dependencySourcesProvider:bool?
            dependencyModulesProvider:bool? resourcesProvider:bool? canReload:bool? buildTargetChangedProvider:bool?
        }! data:any?}",
        fields: vec![
            ("displayName", st("displayName")), ("version", st("version")), ("bspVersion", st("bspVersion")),
            ("capabilities", vec![json!({}), json!({"canReload": true}), json!({"testProvider": {"languageIds": ["t"]}, "resourcesProvider": false})]),
            ("data", any("data")),
        ],
        makes: vec![
            ("new_simple", json!({"data": null}), |m| {
                InitializeBuildResult::new_simple::<String>(de(&m["displayName"]), de(&m["version"]), de(&m["bspVersion"]), de(&m["capabilities"]))
            }),
            ("new", json!({}), |m| {
                InitializeBuildResult::new::<String>(de(&m["displayName"]), de(&m["version"]), de(&m["bspVersion"]), de(&m["capabilities"]), m["data"].clone())
            }),
        ],
        sets: {
            let mut s: Vec<Set<InitializeBuildResult>> = set!(
                "displayName" set_display_name, "version" set_version, "bspVersion" set_bsp_version, "capabilities" set_capabilities, "data" set_data
            );
            s.push(("data", |x, v| *x.data_mut() = de(v)));
            s
        },
        gets: get!("displayName" display_name, "version" version, "bspVersion" bsp_version, "capabilities" capabilities, "data" data),
    });
    push!(Machine::<ServerCapabilities> {
        name: "ServerCapabilities",
        schema: CAPABILITIES,
        fields: vec![
            ("compileProvider", provider("c")), ("testProvider", provider("t")), ("runProvider", provider("r")), ("debugProvider", provider("d")),
            ("inverseSourcesProvider", oflag()), ("dependencySourcesProvider", oflag()), ("dependencyModulesProvider", oflag()),
            ("resourcesProvider", oflag()), ("canReload", oflag()), ("buildTargetChangedProvider", oflag()),
        ],
        makes: vec![],
        sets: set!(
            "compileProvider" set_compile_provider, "testProvider" set_test_provider, "runProvider" set_run_provider,
            "debugProvider" set_debug_provider, "inverseSourcesProvider" set_inverse_sources_provider,
            "dependencySourcesProvider" set_dependency_sources_provider, "dependencyModulesProvider" set_dependency_modules_provider,
            "resourcesProvider" set_resources_provider, "canReload" set_can_reload,
            "buildTargetChangedProvider" set_build_target_changed_provider
        ),
        gets: get!(
            "compileProvider" compile_provider, "testProvider" test_provider, "runProvider" run_provider,
            "debugProvider" debug_provider, "inverseSourcesProvider" inverse_sources_provider,
            "dependencySourcesProvider" dependency_sources_provider, "dependencyModulesProvider" dependency_modules_provider,
            "resourcesProvider" resources_provider, "canReload" can_reload,
            "buildTargetChangedProvider" build_target_changed_provider
        ),
    });
    // Collections.
    let module = |n: u32| json!({ "name": format!("m{n}"), "version": n.to_string(), "dataKind": null, "data": null });
    let modules = || vec![json!([]), json!([module(1)]), json!([module(2), module(1)])];
    let module_items = || {
        vec![json!([]), json!([{"target": target(1), "modules": []}]), json!([{"target": target(2), "modules": [module(1), module(2)]}, {"target": target(1), "modules": []}])]
    };
    push!(Machine::<BuildTargetDependencyModulesResult> {
        name: "BuildTargetDependencyModulesResult",
        schema: "{items:[{target:{uri:url!}! modules:[{name:str! version:str! dataKind:str? data:any?}]!}]!}",
        fields: vec![("items", module_items())],
        makes: vec![
            ("new", json!({}), |m| BuildTargetDependencyModulesResult::new(de(&m["items"]))),
            ("default", json!({"items": []}), |_| Default::default()),
        ],
        sets: vec![("items", |x, v| *x.items_mut() = de(v))],
        gets: get!("items" items),
    });
    push!(Machine::<DependencyModulesItem> {
        name: "DependencyModulesItem",
        schema: "{target:{uri:url!}! modules:[{name:str! version:str! dataKind:str? data:any?}]!}",
        fields: vec![("target", one_target()), ("modules", modules())],
        makes: vec![("new", json!({}), |m| DependencyModulesItem::new(de(&m["target"]), de(&m["modules"])))],
        sets: set!("modules" set_modules),
        gets: get!("target" target, "modules" modules),
    });
    push!(Machine::<DependencyModule> {
        name: "DependencyModule",
        schema: "{name:str! version:str! dataKind:str? data:any?}",
        fields: vec![("name", st("name")), ("version", st("version")), ("dataKind", ost("dataKind")), ("data", any("data"))],
        makes: vec![
            ("new", json!({}), |m| DependencyModule::new(de(&m["name"]), de(&m["version"]), de(&m["dataKind"]), de(&m["data"]))),
            ("new_simple", json!({"dataKind": null, "data": null}), |m| DependencyModule::new_simple(de(&m["name"]), de(&m["version"]))),
        ],
        sets: set!("name" set_name, "version" set_version, "dataKind" set_data_kind),
        gets: get!("name" name, "version" version, "dataKind" data_kind),
    });
    push!(Machine::<DependencySourcesItem> {
        name: "DependencySourcesItem",
        schema: "{target:{uri:url!}! sources:[str]!}",
        fields: vec![("target", one_target()), ("sources", list("sources"))],
        makes: vec![],
        sets: set!("target" set_target, "sources" set_sources),
        gets: get!("target" target, "sources" sources),
    });
    push!(Machine::<BuildTargetResourcesResult> {
        name: "BuildTargetResourcesResult",
        schema: "{items:[{target:{uri:url!}! resources:[str]!}]!}",
        fields: vec![(
            "items",
            vec![json!([]), json!([{"target": target(1), "resources": ["r"]}]), json!([{"target": target(2), "resources": []}, {"target": target(1), "resources": ["a", "b"]}])],
        )],
        makes: vec![
            ("new", json!({}), |m| BuildTargetResourcesResult::new(de(&m["items"]))),
            ("default", json!({"items": []}), |_| Default::default()),
        ],
        sets: vec![("items", |x, v| *x.items_mut() = de(v))],
        gets: get!("items" items),
    });
    push!(Machine::<Resources> {
        name: "Resources",
        schema: "{target:{uri:url!}! resources:[str]!}",
        fields: vec![("target", one_target()), ("resources", list("resources"))],
        makes: vec![("new", json!({}), |m| Resources::new(de(&m["target"]), de(&m["resources"])))],
        sets: set!("target" set_target, "resources" set_resources),
        gets: get!("target" target, "resources" resources),
    });
    let source = |n: u32| json!({ "uri": format!("file:///s{n}"), "kind": 1 + n % 2, "generated": n == 2 });
    let sources = || vec![json!([]), json!([source(1)]), json!([source(2), source(1)])];
    push!(Machine::<BuildTargetSourcesResult> {
        name: "BuildTargetSourcesResult",
        schema: "{items:[{target:{uri:url!}! sources:[{uri:url! kind:code2! generated:bool!}]!}]!}",
        fields: vec![("items", sources().into_iter().map(|s| if s == json!([]) { s } else { json!([{"target": target(1), "sources": s}]) }).collect())],
        makes: vec![
            ("new", json!({}), |m| BuildTargetSourcesResult::new(de(&m["items"]))),
            ("default", json!({"items": []}), |_| Default::default()),
        ],
        sets: set!("items" set_items),
        gets: get!("items" items),
    });
    push!(Machine::<SourcesCollection> {
        name: "SourcesCollection",
        schema: "{target:{uri:url!}! sources:[{uri:url! kind:code2! generated:bool!}]!}",
        fields: vec![("target", one_target()), ("sources", sources())],
        makes: vec![("new", json!({}), |m| SourcesCollection::new(de(&m["target"]), de(&m["sources"])))],
        sets: set!("target" set_target, "sources" set_sources),
        gets: get!("target" target, "sources" sources),
    });
    push!(Machine::<Sources> {
        name: "Sources",
        schema: "{uri:url! kind:code2! generated:bool!}",
        fields: vec![("uri", url()), ("kind", vec![json!(1), json!(2)]), ("generated", flag())],
        makes: vec![("new", json!({}), |m| Sources::new(de(&m["uri"]), de(&m["kind"]), de(&m["generated"])))],
        sets: set!("uri" set_uri, "kind" set_kind, "generated" set_generated),
        gets: get!("uri" uri, "kind" kind, "generated" generated),
    });
    push!(Machine::<BuildTargetEvent> {
        name: "BuildTargetEvent",
        schema: "{target:{uri:url!}! kind:code3? data:any?}",
        fields: vec![("target", one_target()), ("kind", vec![json!(null), json!(1), json!(2), json!(3)]), ("data", any("data"))],
        makes: vec![
            ("new", json!({}), |m| BuildTargetEvent::new(de(&m["target"]), de(&m["kind"]), de(&m["data"]))),
            ("new_simple", json!({"kind": null, "data": null}), |m| BuildTargetEvent::new_simple(de(&m["target"]))),
        ],
        sets: member!("target" target, "kind" kind, "data" data),
        gets: read!("target" target, "kind" kind, "data" data),
    });
    push!(Machine::<BuildTargetDidChange> {
        name: "BuildTargetDidChange",
        schema: "{changes:[{target:{uri:url!}! kind:code3? data:any?}]!}",
        fields: vec![("changes", vec![json!([]), json!([{"target": target(1)}]), json!([{"target": target(2), "kind": 3}, {"target": target(1), "data": 0}])])],
        makes: vec![("default", json!({"changes": []}), |_| Default::default())],
        sets: member!("changes" changes),
        gets: read!("changes" changes),
    });
    let caps = |n: u32| json!({ "canCompile": n == 1, "canTest": n == 2, "canRun": n == 1, "canDebug": false });
    const TARGET: &str = "{id:{uri:url!}! displayName:str? baseDirectory:str? tags:[tag]!
        capabilities:{canCompile:bool! canTest:bool! canRun:bool! canDebug:bool!}! languageIds:[str]! dependencies:[{uri:url!}]!}";
    push!(Machine::<BuildTarget> {
        name: "BuildTarget",
        schema: TARGET,
        fields: vec![
            ("id", one_target()), ("displayName", ost("displayName")), ("baseDirectory", ost("baseDirectory")),
            ("tags", vec![json!([]), json!(["no-ide", "own"]), json!(["library"])]), ("capabilities", vec![caps(0), caps(1), caps(2)]),
            ("languageIds", list("languageIds")), ("dependencies", targets()),
        ],
        makes: vec![
            ("new", json!({}), |m| {
                BuildTarget::new(
                    de(&m["id"]), de(&m["displayName"]), de(&m["baseDirectory"]), de(&m["tags"]), de(&m["capabilities"]), de(&m["languageIds"]),
                    de(&m["dependencies"]),
                )
            }),
            ("new_simple", json!({"displayName": null, "baseDirectory": null}), |m| {
                BuildTarget::new_simple(de(&m["id"]), de(&m["tags"]), de(&m["capabilities"]), de(&m["languageIds"]), de(&m["dependencies"]))
            }),
        ],
        sets: member!(
            "id" id, "displayName" display_name, "baseDirectory" base_directory, "tags" tags, "capabilities" capabilities,
            "languageIds" language_ids, "dependencies" dependencies
        ),
        gets: read!(
            "id" id, "displayName" display_name, "baseDirectory" base_directory, "tags" tags, "capabilities" capabilities,
            "languageIds" language_ids, "dependencies" dependencies
        ),
    });
    let bt = |n: u32| json!({ "id": target(n), "tags": ["test"], "capabilities": caps(n), "languageIds": ["l"], "dependencies": [] });
    push!(Machine::<WorkspaceBuildTargetsResult> {
        name: "WorkspaceBuildTargetsResult",
        schema: "{targets:[{id:{uri:url!}! displayName:str? baseDirectory:str? tags:[tag]!
            capabilities:{canCompile:bool! canTest:bool! canRun:bool! canDebug:bool!}! languageIds:[str]! dependencies:[{uri:url!}]!}]!}",
        fields: vec![("targets", vec![json!([bt(0)]), json!([]), json!([bt(2), bt(1)])])],
        makes: vec![
            ("new", json!({}), |m| WorkspaceBuildTargetsResult::new(de(&m["targets"]))),
            ("default", json!({"targets": []}), |_| Default::default()),
            ("from", json!({"targets": [bt(1)]}), |_| {
                let t = json!({ "id": target(1), "tags": ["test"], "capabilities": {"canCompile": true, "canTest": false, "canRun": true, "canDebug": false}, "languageIds": ["l"], "dependencies": [] });
                de::<BuildTarget>(&t).into()
            }),
        ],
        sets: member!("targets" targets),
        gets: read!("targets" targets),
    });
}

/// A path and the URIs that denote it: nothing escaped that need not be, everything escaped, and with small hex digits.
fn spellings(path: &[u8]) -> Vec<String> {
    let plain = |b: u8| b.is_ascii_alphanumeric() || b"-_.~!$&'()*+,;=:@/".contains(&b);
    let esc = |all: bool, small: bool| -> String {
        path.iter()
            .map(|&b| match b {
                b'/' => "/".to_string(),
                b if !all && plain(b) => (b as char).to_string(),
                b if small => format!("%{b:02x}"),
                b => format!("%{b:02X}"),
            })
            .collect()
    };
    let mut out = vec![format!("file://{}", esc(false, false)), format!("file://{}", esc(true, false)), format!("file://{}", esc(true, true)), format!("file://localhost{}", esc(false, false))];
    out.dedup();
    out
}

fn root_path(path: &[u8]) -> Result<u64, String> {
    for uri in spellings(path) {
        let root: Url = uri.parse().map_err(|e| format!("{uri}: {e}"))?;
        let mut a = InitializeBuild::new_simple("", "", "", root.clone(), Default::default());
        let b: InitializeBuild = de(&json!({ "displayName": "x", "rootUri": uri }));
        for x in [&a, &b] {
            let p = x.root_path();
            ensure!(p.as_os_str().as_bytes() == path, "the root path of {uri} is {p:?}");
        }
        a.set_root_uri("file:///elsewhere".parse().unwrap());
        ensure!(a.root_path().as_os_str().as_bytes() == b"/elsewhere", "the root path of file:///elsewhere is {:?}", a.root_path());
    }
    Ok(outcome(path))
}

pub fn p22(tier: Tier) -> Vec<Job> {
    let mut out = vec![];
    simple_jobs(&mut out);
    task_jobs(&mut out);
    let pieces: [&[u8]; 14] = [b"a", b"/", b" ", b"%", b"%20", b"\xc3\xa9", b"#", b"?", b"+", b"\xff", b":", b"\"", b"~", b"\xf0\x9f\x98\x80"];
    let len = if tier == Tier::Quick { 4 } else { 6 };
    let mut paths: Vec<Vec<u8>> = vec![b"/".to_vec()];
    let mut from = 0;
    for _ in 0..len {
        let to = paths.len();
        for i in from..to {
            for p in pieces {
                let mut x = paths[i].clone();
                x.extend(p);
                paths.push(x);
            }
        }
        from = to;
    }
    // What looks like a drive letter, and an empty component, mean something else in the URL standard.
    paths.retain(|p| {
        let drive = p.windows(2).any(|w| w[0].is_ascii_alphabetic() && w[1] == b':');
        !drive && (p.len() == 1 || p[1..].split(|b| *b == b'/').all(|c| !c.is_empty()))
    });
    let paths = Arc::new(paths);
    let b = paths.clone();
    out.push(Job::each(
        format!("root path: every path of up to {len} pieces in every spelling"),
        paths.len(),
        move |i| root_path(&paths[i]),
        move |i| format!("{:?}", String::from_utf8_lossy(&b[i])),
    ));
    out
}
