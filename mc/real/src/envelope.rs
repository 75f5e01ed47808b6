//! P14 to P19: what is around the payloads.

use crate::ensure;
use crate::js;
use crate::payloads::*;
use crate::run::*;
use crate::schema::*;
use bsp_server::types::*;
use bsp_server::{ErrorCode, Message, Notification, Request, RequestId, Response, ResponseError};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

/// A message in words that do not depend on how it is encoded.
#[derive(Debug, Clone, PartialEq)]
pub struct Seen {
    pub kind: &'static str,
    /// The name of the variant.
    pub variant: &'static str,
    pub id: Value,
    pub method: String,
    /// Params of a request or notification; result and error of a response.
    pub params: Value,
}

fn request_variant(r: &Request) -> &'static str {
    use Request::*;
    match r {
        InitializeBuild(..) => "InitializeBuild",
        Shutdown(..) => "Shutdown",
        WorkspaceBuildTargets(..) => "WorkspaceBuildTargets",
        WorkspaceReload(..) => "WorkspaceReload",
        BuildTargetDependencyModules(..) => "BuildTargetDependencyModules",
        DebugSessionStart(..) => "DebugSessionStart",
        BuildTargetSources(..) => "BuildTargetSources",
        TextDocumentInverseSources(..) => "TextDocumentInverseSources",
        BuildTargetDependencySources(..) => "BuildTargetDependencySources",
        BuildTargetResources(..) => "BuildTargetResources",
        BuildTargetRun(..) => "BuildTargetRun",
        BuildTargetCompile(..) => "BuildTargetCompile",
        BuildTargetTest(..) => "BuildTargetTest",
        BuildTargetCleanCache(..) => "BuildTargetCleanCache",
        Custom(..) => "Custom",
    }
}

const REQUESTS: [(&str, &str); 14] = [
    ("build/initialize", "InitializeBuild"),
    ("build/shutdown", "Shutdown"),
    ("workspace/buildTargets", "WorkspaceBuildTargets"),
    ("workspace/reload", "WorkspaceReload"),
    ("buildTarget/dependencyModules", "BuildTargetDependencyModules"),
    ("debugSession/start", "DebugSessionStart"),
    ("buildTarget/sources", "BuildTargetSources"),
    ("buildTarget/inverseSources", "TextDocumentInverseSources"),
    ("buildTarget/dependencySources", "BuildTargetDependencySources"),
    ("buildTarget/resources", "BuildTargetResources"),
    ("buildTarget/run", "BuildTargetRun"),
    ("buildTarget/compile", "BuildTargetCompile"),
    ("buildTarget/test", "BuildTargetTest"),
    ("buildTarget/cleanCache", "BuildTargetCleanCache"),
];

fn notification_variant(n: &Notification) -> &'static str {
    use Notification::*;
    match n {
        Exit => "Exit",
        Initialized => "Initialized",
        ShowMessage(_) => "ShowMessage",
        LogMessage(_) => "LogMessage",
        PublishDiagnostics(_) => "PublishDiagnostics",
        TaskStart(_) => "TaskStart",
        TaskFinish(_) => "TaskFinish",
        TaskProgress(_) => "TaskProgress",
        BuildTargetDidChange(_) => "BuildTargetDidChange",
        Custom(..) => "Custom",
    }
}

const NOTIFICATIONS: [(&str, &str); 9] = [
    ("build/exit", "Exit"),
    ("build/initialized", "Initialized"),
    ("build/showMessage", "ShowMessage"),
    ("build/logMessage", "LogMessage"),
    ("build/publishDiagnostics", "PublishDiagnostics"),
    ("build/taskStart", "TaskStart"),
    ("build/taskFinish", "TaskFinish"),
    ("build/taskProgress", "TaskProgress"),
    ("buildTarget/didChange", "BuildTargetDidChange"),
];

fn variant_of(method: &str, table: &[(&'static str, &'static str)]) -> &'static str {
    table.iter().find(|x| x.0 == method).map_or("Custom", |x| x.1)
}

fn payload_of(method: &str) -> Option<T> {
    requests().into_iter().chain(notifications()).find(|p| p.name == method).map(|p| schema(p.schema))
}

/// The params of a notification, for which there is no accessor.
fn notification_params(n: &Notification) -> Value {
    use Notification::*;
    match n {
        Exit | Initialized => Ok(Value::Null),
        ShowMessage(p) => js::to_value(p),
        LogMessage(p) => js::to_value(p),
        PublishDiagnostics(p) => js::to_value(p),
        TaskStart(p) => js::to_value(p),
        TaskFinish(p) => js::to_value(p),
        TaskProgress(p) => js::to_value(p),
        BuildTargetDidChange(p) => js::to_value(p),
        Custom(_, p) => Ok(p.clone()),
    }
    .unwrap_or_else(|e| json!(e.to_string()))
}

fn id_value(id: &RequestId) -> Value {
    js::to_value(id).unwrap_or_else(|e| json!(["does not encode", e.to_string()]))
}

fn settle(method: &str, variant: &str, params: Value) -> Value {
    match payload_of(method) {
        Some(t) if variant != "Custom" => t.normal(&params),
        _ => params,
    }
}

fn see_request(r: &Request) -> Result<Seen, String> {
    let variant = request_variant(r);
    let params = r.params().map_err(|e| format!("params(): {e}"))?;
    Ok(Seen { kind: "request", variant, id: id_value(r.id()), method: r.method().into(), params: settle(r.method(), variant, params) })
}

fn see_notification(n: &Notification) -> Seen {
    let variant = notification_variant(n);
    Seen { kind: "notification", variant, id: Value::Null, method: n.method().into(), params: settle(n.method(), variant, notification_params(n)) }
}

fn see_response(r: &Response) -> Seen {
    let mut p = json!({});
    if let Some(v) = &r.result {
        p["result"] = v.clone();
    }
    if let Some(e) = &r.error {
        p["error"] = json!({"code": e.code, "message": e.message});
        if let Some(d) = &e.data {
            p["error"]["data"] = d.clone();
        }
    }
    Seen { kind: "response", variant: "", id: id_value(&r.id), method: String::new(), params: p }
}

pub fn see(m: &Message) -> Result<Seen, String> {
    match m {
        Message::Request(r) => see_request(r),
        Message::Notification(n) => Ok(see_notification(n)),
        Message::Response(r) => Ok(see_response(r)),
    }
}

fn is_id(v: &Value) -> bool {
    v.is_string() || v.as_i64().is_some_and(|i| i32::try_from(i).is_ok())
}

/// What decoding an object as a message must give; `None` for a refusal, and the outer `None` where
/// nothing says.
fn expected(o: &Value, params_fit: bool) -> Option<Option<Seen>> {
    let get = |k: &str| o.get(k).cloned();
    let params = get("params").unwrap_or(Value::Null);
    let seen = |kind, variant, id, method: &str| Seen { kind, variant, id, method: method.into(), params: settle(method, variant, params.clone()) };
    let id = get("id");
    if id.as_ref().is_some_and(|i| i.is_null()) {
        return None;
    }
    Some(match (get("method"), id) {
        (Some(Value::String(m)), Some(id)) => {
            if !is_id(&id) {
                None
            } else {
                let v = variant_of(&m, &REQUESTS);
                if ["Shutdown", "WorkspaceBuildTargets", "WorkspaceReload"].contains(&v) && !params.is_null() {
                    return Option::None;
                }
                Some(seen("request", if params_fit { v } else { "Custom" }, id, &m))
            }
        }
        (Some(Value::String(m)), None) => {
            let v = variant_of(&m, &NOTIFICATIONS);
            if v == "Exit" || v == "Initialized" {
                return Some(Some(Seen { params: Value::Null, ..seen("notification", v, Value::Null, &m) }));
            }
            (params_fit || v == "Custom").then(|| seen("notification", v, Value::Null, &m))
        }
        (Some(_), _) => None,
        (None, None) => None,
        (None, Some(id)) => {
            if !is_id(&id) {
                None
            } else {
                let mut p = json!({});
                if let Some(v) = get("result") {
                    p["result"] = v;
                }
                match get("error") {
                    None | Some(Value::Null) => {}
                    Some(e) => {
                        let (c, m) = (e.get("code").and_then(|c| c.as_i64()), e.get("message").and_then(|m| m.as_str()));
                        let (Some(c), Some(m)) = (c, m) else { return Option::None };
                        p["error"] = json!({"code": c, "message": m});
                        if let Some(d) = e.get("data") {
                            if !d.is_null() {
                                p["error"]["data"] = d.clone();
                            }
                        }
                    }
                }
                Some(Seen { kind: "response", variant: "", id, method: String::new(), params: p })
            }
        }
    })
}

fn compare(o: &Value, want: &Option<Seen>, got: serde_json::Result<Message>) -> Result<u64, String> {
    match (want, got) {
        (None, Err(_)) => Ok(0),
        (None, Ok(m)) => Err(format!("{o} is delivered as {:?}", see(&m)?)),
        (Some(w), Err(e)) => Err(format!("{o} is refused instead of delivered as {w:?}: {e}")),
        (Some(w), Ok(m)) => {
            let s = see(&m)?;
            ensure!(s == *w, "{o} is delivered as {s:?} instead of {w:?}");
            Ok(outcome((s.kind, s.variant, s.id.to_string())))
        }
    }
}

fn ids() -> Vec<Option<Value>> {
    let mut v: Vec<Option<Value>> = vec![None];
    v.extend(
        [
            json!(0), json!(1), json!(-1), json!(i32::MAX), json!(i32::MIN), json!(""), json!("1"), json!("id"), json!("null"), json!("\u{e9}\"\n"),
            json!(i32::MAX as i64 + 1), json!(i32::MIN as i64 - 1), json!(1u64 << 32), json!((1u64 << 32) + 1), json!(u64::MAX), json!(i64::MIN),
            json!(1.5), json!(1e300), json!(true), json!(false), json!([]), json!([1]), json!({}), json!({"id": 1}),
        ]
        .map(Some),
    );
    v
}

/// Absent or given params for a method, and whether they fit it.
fn params_for(method: &str) -> Vec<(Option<Value>, bool)> {
    let mut out = vec![];
    let any = variant_of(method, &REQUESTS) == "Custom" && variant_of(method, &NOTIFICATIONS) == "Custom";
    match payload_of(method) {
        Some(t) => {
            let T::Obj(ms) = &t else { panic!() };
            let empty_fits = ms.iter().all(|m| m.need != Need::Required);
            out.push((None, false));
            out.push((Some(Value::Null), false));
            out.push((Some(json!({})), empty_fits));
            for v in [json!(0), json!("s"), json!(true)] {
                out.push((Some(v), false));
            }
            out.extend(enumerate(&t, 1).into_iter().filter(|v| v.value.is_object()).map(|v| (Some(v.value), v.good)));
        }
        None => {
            let fits = any || variant_of(method, &REQUESTS) != "Custom" || variant_of(method, &NOTIFICATIONS) != "Custom";
            out.push((None, fits));
            for v in [Value::Null, json!({}), json!([]), json!([1, "a"]), json!(0), json!("s"), json!(false), json!({"targets": 1, "id": {}, "method": []})] {
                out.push((Some(v), fits));
            }
        }
    }
    out
}

fn methods() -> Vec<Value> {
    let mut v: Vec<String> = REQUESTS.iter().map(|r| r.0.to_string()).chain(NOTIFICATIONS.iter().map(|r| r.0.to_string())).collect();
    v.extend(["own/method", "", "build/", "Build/Exit", "build/exit ", "$/cancelRequest", "exit", "buildTarget/jvmRunEnvironment", "method", "null"].map(String::from));
    v.into_iter().map(|m| json!(m)).collect()
}

pub fn p14(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let mut out = vec![];
    let extra: Vec<Value> = {
        let results = [None, Some(json!(null)), Some(json!({"a": 1}))];
        let errors = [None, Some(json!(null)), Some(json!({"code": -32601, "message": "m"})), Some(json!({"code": 1, "message": "", "data": [1]}))];
        let rpc = [None, Some(json!("2.0"))];
        let mut v = vec![];
        for r in &results {
            for e in &errors {
                for j in &rpc {
                    let mut o = json!({});
                    for (k, x) in [("result", r), ("error", e), ("jsonrpc", j)] {
                        if let Some(x) = x {
                            o[k] = x.clone();
                        }
                    }
                    v.push(o);
                }
            }
        }
        v
    };
    let extra = Arc::new(extra);
    let ids = Arc::new(ids());
    for m in methods() {
        let name = m.as_str().unwrap().to_string();
        let mut ps = params_for(&name);
        if !deep && ps.len() > 40 {
            // The plain shapes and every kind of misfit; all deviations are for the thorough tier.
            let step = ps.len() / 34;
            ps = ps.iter().enumerate().filter(|(i, _)| *i < 6 || i % step.max(1) == 0).map(|x| x.1.clone()).collect();
        }
        let ps = Arc::new(ps);
        let (e, i, p) = (extra.clone(), ids.clone(), ps.clone());
        let build = move |n: usize| {
            let mut o = e[n % e.len()].clone();
            o["method"] = m.clone();
            if let Some(id) = &i[n / e.len() % i.len()] {
                o["id"] = id.clone();
            }
            let (params, fit) = &p[n / e.len() / i.len()];
            if let Some(v) = params {
                o["params"] = v.clone();
            }
            (o, *fit)
        };
        let build = Arc::new(build);
        let b2 = build.clone();
        let is_note = variant_of(&name, &NOTIFICATIONS) != "Custom";
        let is_req = variant_of(&name, &REQUESTS) != "Custom";
        out.push(Job::each(
            format!("method {name:?}: every envelope"),
            extra.len() * ids.len() * ps.len(),
            move |n| {
                let (o, fit) = build(n);
                let has_id = o.get("id").is_some();
                // Params only have to fit where the method is known for that kind.
                let fit = fit || (has_id && !is_req) || (!has_id && !is_note);
                match expected(&o, fit) {
                    None => js::from_str::<Message>(&o.to_string()).map(|m| see(&m)).map_or(Ok(1), |s| s.map(|_| 2)),
                    Some(w) => compare(&o, &w, js::from_str(&o.to_string())),
                }
            },
            move |n| b2(n).0.to_string(),
        ));
    }
    // Without a method, or with one that is no string.
    let odd: Vec<Option<Value>> = vec![None, Some(json!(0)), Some(json!(true)), Some(json!([])), Some(json!(["build/exit"])), Some(json!({})), Some(json!(1.5))];
    let ps = [None, Some(json!(null)), Some(json!({})), Some(json!({"targets": []})), Some(json!([]))];
    let (e, i) = (extra.clone(), ids.clone());
    let build = move |n: usize| {
        let mut o = e[n % e.len()].clone();
        let n = n / e.len();
        if let Some(id) = &i[n % i.len()] {
            o["id"] = id.clone();
        }
        let n = n / i.len();
        if let Some(m) = &odd[n % odd.len()] {
            o["method"] = m.clone();
        }
        if let Some(p) = &ps[n / odd.len()] {
            o["params"] = p.clone();
        }
        o
    };
    let build = Arc::new(build);
    let b2 = build.clone();
    out.push(Job::each(
        "no method or none that is a string: every envelope",
        extra.len() * ids.len() * 7 * 5,
        move |n| {
            let o = build(n);
            match expected(&o, true) {
                None => Ok(1),
                Some(w) => compare(&o, &w, js::from_str(&o.to_string())),
            }
        },
        move |n| b2(n).to_string(),
    ));
    // What is no object.
    let mut no: Vec<String> = ["null", "true", "0", "-1.5", "\"\"", "\"build/exit\"", "[]", "[1]", "[[]]", "[{}]", "{}", "", " ", "{", "}", "[", "nul", "{\"id\":1", "{}{}", "\u{feff}{}"].map(String::from).to_vec();
    for o in [
        json!({"jsonrpc": "2.0", "id": 1, "method": "build/shutdown"}),
        json!({"method": "build/exit"}),
        json!({"id": 1, "result": 5}),
    ] {
        no.push(json!([o]).to_string());
        no.push(json!([o, o]).to_string());
        no.push(json!(o.to_string()).to_string());
        no.push(json!(o.as_object().unwrap().values().collect::<Vec<_>>()).to_string());
        let t = o.to_string();
        for cut in 0..t.len() {
            no.push(t[..cut].to_string());
        }
        for tail in ["x", "{}", ",", "]", "}", "\u{0}"] {
            no.push(format!("{t}{tail}"));
        }
    }
    no.push(json!([1, {"a": 1}, null]).to_string());
    no.push(json!(["build/exit", null]).to_string());
    no.push(json!([1, "build/shutdown", null]).to_string());
    no.push("[".repeat(100_000));
    no.push("{\"a\":".repeat(100_000));
    no.push(format!("{{\"id\":1,\"method\":\"x\",\"params\":{}", "[".repeat(100_000)));
    let no = Arc::new(no);
    let n2 = no.clone();
    out.push(Job::each(
        "what is no object, or no JSON",
        no.len(),
        move |i| match js::from_str::<Message>(&no[i]) {
            Ok(m) => Err(format!("{} is delivered as {:?}", &no[i][..no[i].len().min(200)], see(&m)?)),
            Err(_) => Ok(1),
        },
        move |i| n2[i].chars().take(200).collect(),
    ));
    out
}

macro_rules! converted {
    ($id:expr, $v:expr, $variant:expr; $($t:ident)*) => {
        match $variant {
            $(stringify!($t) => {
                let a: $t = js::from_value($v.clone()).map_err(|e| e.to_string())?;
                let b: $t = js::from_value($v.clone()).map_err(|e| e.to_string())?;
                (Some(Request::from(($id.clone(), a))), Some(Message::from(($id.clone(), b))))
            })*
            _ => (None, None),
        }
    };
}

fn near_methods() -> Vec<String> {
    let mut out = vec![];
    for (m, _) in REQUESTS.iter().chain(&NOTIFICATIONS) {
        let c: Vec<char> = m.chars().collect();
        for i in 0..=c.len() {
            let mut d = c.clone();
            d.insert(i, 's');
            out.push(d.iter().collect());
            if i < c.len() {
                let mut d = c.clone();
                d.remove(i);
                out.push(d.iter().collect());
                let mut d = c.clone();
                d[i] = if d[i].is_uppercase() { d[i].to_ascii_lowercase() } else { d[i].to_ascii_uppercase() };
                out.push(d.iter().collect());
                let mut d = c.clone();
                d[i] = '_';
                out.push(d.iter().collect());
            }
            out.push(c[..i].iter().collect());
            out.push(c[i..].iter().collect());
        }
        out.push(format!(" {m}"));
        out.push(format!("{m}\u{0}"));
        out.push(format!("{m}/{m}"));
        for c in (0..128u8).map(|c| c as char).chain(['\u{a0}', '\u{2028}', '\u{feff}', '\u{2044}', '\u{ff0f}']) {
            out.extend([format!("{m}{c}"), format!("{c}{m}"), format!("{m}{c}2"), format!("{m}{c}x"), format!("x{c}{m}"), m.replace('/', &c.to_string()), m.replace('/', &format!("/{c}")), m.replace('/', &format!("{c}/"))]);
        }
    }
    let known = |m: &String| REQUESTS.iter().chain(&NOTIFICATIONS).any(|k| k.0 == m);
    out.retain(|m| !known(m));
    out.extend(["\u{e9}\u{1f600}\"\\/\n", "buildTarget/outputPaths", "workspace/buildTargets/", "textDocument/inverseSources", "buildTarget/taskProgress"].map(String::from));
    out.extend(strings(&["b", "/", "\"", "\\"], 3));
    out.sort();
    out.dedup();
    out
}

/// Methods other protocols have and this one's under other names, each with params that fit some known message.
fn neighbours(known: &'static [(&'static str, &'static str)]) -> (Vec<String>, Vec<Option<Value>>) {
    let ms = foreign_methods().into_iter().chain(METHODS.map(String::from)).filter(|m| variant_of(m, known) == "Custom").collect();
    let mut ps: Vec<Option<Value>> = [None].into_iter().chain([json!(null), json!({}), json!([1]), json!({"id": 3})].map(Some)).collect();
    for (m, _) in REQUESTS.iter().chain(&NOTIFICATIONS) {
        let Some(t) = payload_of(m) else { continue };
        let mut v: Vec<Value> = within(&t, 500).1.into_iter().filter(|v| v.good && v.value.is_object()).map(|v| v.value).collect();
        v.sort_by_key(|v| v.to_string().len());
        ps.extend([v.first().cloned(), v.pop()].into_iter().filter(|p| p.is_some()));
    }
    (ms, ps)
}

fn some_ids() -> [Value; 6] {
    [json!(1), json!("1"), json!(i32::MIN), json!(i32::MAX), json!(""), json!("\u{e9}\"\\")]
}

/// Encodes the message and its parts; the encoding must have exactly the given members.
fn encodes(v: Value, t: String, want: &Value, method: &str, variant: &str) -> Result<(), String> {
    let text: Value = js::from_str(&t).map_err(|e| format!("encodes as {t}: {e}"))?;
    ensure!(text == v, "encodes as {v} and, as text, {t}");
    let mut have = v.clone();
    let o = have.as_object_mut().ok_or("does not encode as an object")?;
    if let Some(p) = o.get("params").cloned() {
        if let (Some(t), true) = (payload_of(method), variant != "Custom") {
            t.only_known(&p)?;
        }
        o.insert("params".into(), settle(method, variant, p));
    }
    if have.get("params").is_some_and(|p| p.is_null()) && want.get("params").is_none() {
        have.as_object_mut().unwrap().remove("params");
    }
    ensure!(have == *want, "encodes as {v}, expected {want}");
    Ok(())
}

fn request_round(id: &Value, method: &str, params: Option<&Value>) -> Result<u64, String> {
    let variant = variant_of(method, &REQUESTS);
    let mut o = json!({"jsonrpc": "2.0", "id": id, "method": method});
    if let Some(p) = params {
        o["params"] = p.clone();
    }
    let p = settle(method, variant, params.cloned().unwrap_or(Value::Null));
    let want = Seen { kind: "request", variant, id: id.clone(), method: method.into(), params: p.clone() };
    let mut wire = json!({"id": id, "method": method});
    if !p.is_null() {
        wire["params"] = p;
    }
    let text = o.to_string();
    let m: Message = js::from_str(&text).map_err(|e| format!("{o} is refused: {e}"))?;
    let r: Request = js::from_str(&text).map_err(|e| format!("{o} is refused as a request: {e}"))?;
    let rid: RequestId = js::from_value(id.clone()).map_err(|e| e.to_string())?;
    let v = params.cloned().unwrap_or(Value::Null);
    let leaked: &'static str = Box::leak(method.to_string().into_boxed_str());
    let (cr, cm) = if variant == "Custom" {
        (Some(Request::from((rid.clone(), leaked, v.clone()))), Some(Message::from((rid.clone(), leaked, v.clone()))))
    } else {
        converted!(rid, v, variant; BuildTargetCleanCache BuildTargetCompile BuildTargetDependencyModules BuildTargetDependencySources
            BuildTargetResources BuildTargetRun BuildTargetSources BuildTargetTest DebugSessionStart InitializeBuild TextDocumentInverseSources)
    };
    ensure!(variant == "Custom" || payload_of(method).is_none() == cr.is_none(), "no conversion for {variant}");
    let cm2 = cr.clone().map(Message::from);
    for (how, m) in [("read", Some(m.clone())), ("read as a request", Some(Message::Request(r))), ("converted", cr.map(Message::Request)), ("converted to a message", cm), ("converted twice", cm2), ("cloned", Some(m.clone()))] {
        let Some(m) = m else { continue };
        let s = see(&m)?;
        ensure!(s == want, "{o}, {how}, is {s:?} instead of {want:?}");
        encodes(
            js::to_value(&m).map_err(|e| e.to_string())?,
            js::to_string(&m).map_err(|e| e.to_string())?,
            &wire,
            method,
            variant,
        )
        .map_err(|e| format!("{o}, {how}: {e}"))?;
        let Message::Request(r) = &m else { unreachable!() };
        let (a, b) = (js::to_value(r).map_err(|e| e.to_string())?, js::to_value(&m).map_err(|e| e.to_string())?);
        ensure!(a == b, "{o}, {how}: the request encodes as {a}, the message as {b}");
        let back: Message = js::from_value(b.clone()).map_err(|e| format!("{o}, {how}, encodes as {b}, which is refused: {e}"))?;
        let s = see(&back)?;
        ensure!(s == want, "{o}, {how}, comes back as {s:?}");
        ensure!(!format!("{m:?}").is_empty(), "no debug form");
    }
    Ok(outcome((variant, method, id.to_string())))
}

pub fn p15(tier: Tier) -> Vec<Job> {
    let limit = if tier == Tier::Thorough { 40_000 } else { 1_500 };
    let mut out = vec![];
    for (method, _) in REQUESTS {
        let ps: Vec<Option<Value>> = match payload_of(method) {
            Some(t) => {
                let mut v: Vec<_> = within(&t, limit).1.into_iter().filter(|v| v.good && v.value.is_object()).map(|v| Some(v.value)).collect();
                v.truncate(limit);
                v.extend(t.wide().into_iter().filter(|v| v.good).map(|v| Some(v.value)));
                v
            }
            None => vec![None, Some(Value::Null)],
        };
        let ids = some_ids();
        let n = ps.len() * ids.len();
        let ps = Arc::new(ps);
        let (p2, i2) = (ps.clone(), ids.clone());
        out.push(Job::each(
            format!("{method}: params and ids"),
            n,
            move |i| request_round(&ids[i % ids.len()], method, ps[i / ids.len()].as_ref()),
            move |i| format!("{} {:?}", i2[i % i2.len()], p2[i / i2.len()]),
        ));
    }
    let any: Arc<Vec<Value>> = Arc::new(anything());
    let a2 = any.clone();
    out.push(Job::each(
        "custom ones with every small value and a wide range of others",
        any.len() * 2,
        move |i| request_round(&json!("q"), ["own/ask", "$/ask"][i % 2], Some(&any[i / 2])),
        move |i| a2[i / 2].to_string(),
    ));
    let custom: Vec<Option<Value>> = [None].into_iter().chain([json!(null), json!({}), json!([1]), json!(0), json!("s"), json!({"targets": [null], "id": 3, "method": "build/exit"})].map(Some)).collect();
    let ms: Vec<String> = near_methods().into_iter().chain(NOTIFICATIONS.iter().map(|n| n.0.to_string())).filter(|m| variant_of(m, &REQUESTS) == "Custom").collect();
    let n = ms.len() * custom.len() * 2;
    let (ms, custom) = (Arc::new(ms), Arc::new(custom));
    let (m2, c2) = (ms.clone(), custom.clone());
    let pick = |i: usize| if i % 2 == 0 { json!(7) } else { json!("7") };
    out.push(Job::each(
        "methods near the known ones and all others",
        n,
        move |i| request_round(&pick(i), &ms[i / 2 / custom.len()], custom[i / 2 % custom.len()].as_ref()),
        move |i| format!("{:?} {:?}", m2[i / 2 / c2.len()], c2[i / 2 % c2.len()]),
    ));
    let (ms, ps) = neighbours(&REQUESTS);
    let n = ms.len() * ps.len();
    let (ms, ps) = (Arc::new(ms), Arc::new(ps));
    let (m2, p2) = (ms.clone(), ps.clone());
    out.push(Job::each(
        "methods of neighbouring protocols, with params that fit known ones",
        n,
        move |i| request_round(&json!(7), &ms[i / ps.len()], ps[i % ps.len()].as_ref()),
        move |i| format!("{:?} {:?}", m2[i / p2.len()], p2[i % p2.len()]),
    ));
    out
}

fn notification_round(method: &str, params: Option<&Value>) -> Result<u64, String> {
    let variant = variant_of(method, &NOTIFICATIONS);
    let mut o = json!({"jsonrpc": "2.0", "method": method});
    if let Some(p) = params {
        o["params"] = p.clone();
    }
    let none = variant == "Exit" || variant == "Initialized";
    let given = if none { Value::Null } else { params.cloned().unwrap_or(Value::Null) };
    let p = settle(method, variant, given.clone());
    let want = Seen { kind: "notification", variant, id: Value::Null, method: method.into(), params: p.clone() };
    let mut wire = json!({"method": method});
    if !p.is_null() {
        wire["params"] = p;
    }
    let text = o.to_string();
    let m: Message = js::from_str(&text).map_err(|e| format!("{o} is refused: {e}"))?;
    let n: Notification = js::from_str(&text).map_err(|e| format!("{o} is refused as a notification: {e}"))?;
    let leaked: &'static str = Box::leak(method.to_string().into_boxed_str());
    macro_rules! typed {
        ($($t:ident)*) => {
            match variant {
                "Exit" | "Initialized" => (Notification::from(method), None),
                "Custom" => (Notification::from((leaked, given.clone())), Some(Message::from((leaked, given.clone())))),
                $(stringify!($t) => {
                    let a: $t = js::from_value(given.clone()).map_err(|e| e.to_string())?;
                    let b: $t = js::from_value(given.clone()).map_err(|e| e.to_string())?;
                    (Notification::from(a), Some(Message::from(b)))
                })*
                v => return Err(format!("no conversion for {v}")),
            }
        };
    }
    let (cn, cm) = typed!(ShowMessage LogMessage PublishDiagnostics TaskStart TaskFinish TaskProgress BuildTargetDidChange);
    for (how, m) in [("read", Some(m.clone())), ("read as a notification", Some(Message::Notification(n))), ("converted", Some(Message::Notification(cn.clone()))), ("converted to a message", cm), ("converted twice", Some(Message::from(cn)))] {
        let Some(m) = m else { continue };
        let s = see(&m)?;
        ensure!(s == want, "{o}, {how}, is {s:?} instead of {want:?}");
        encodes(
            js::to_value(&m).map_err(|e| e.to_string())?,
            js::to_string(&m).map_err(|e| e.to_string())?,
            &wire,
            method,
            variant,
        )
        .map_err(|e| format!("{o}, {how}: {e}"))?;
        let Message::Notification(n) = &m else { unreachable!() };
        let (a, b) = (js::to_value(n).map_err(|e| e.to_string())?, js::to_value(&m).map_err(|e| e.to_string())?);
        ensure!(a == b, "{o}, {how}: the notification encodes as {a}, the message as {b}");
        let back: Message = js::from_value(b.clone()).map_err(|e| format!("{o}, {how}, encodes as {b}, which is refused: {e}"))?;
        let s = see(&back)?;
        ensure!(s == want, "{o}, {how}, comes back as {s:?}");
        ensure!(!format!("{m:?}").is_empty(), "no debug form");
    }
    Ok(outcome((variant, method)))
}

pub fn p16(tier: Tier) -> Vec<Job> {
    let limit = if tier == Tier::Thorough { 100_000 } else { 8_000 };
    let mut out = vec![];
    let custom: Vec<Option<Value>> = [None].into_iter().chain([json!(null), json!({}), json!([1]), json!(0), json!("s"), json!({"targets": [null], "method": "build/exit"})].map(Some)).collect();
    for (method, _) in NOTIFICATIONS {
        let ps: Vec<Option<Value>> = match payload_of(method) {
            Some(t) => {
                let mut v: Vec<_> = within(&t, limit).1.into_iter().filter(|v| v.good && v.value.is_object()).map(|v| Some(v.value)).collect();
                v.truncate(limit);
                v.extend(t.wide().into_iter().filter(|v| v.good).map(|v| Some(v.value)));
                v
            }
            None => custom.clone(),
        };
        let n = ps.len();
        let ps = Arc::new(ps);
        let p2 = ps.clone();
        out.push(Job::each(format!("{method}: params"), n, move |i| notification_round(method, ps[i].as_ref()), move |i| format!("{:?}", p2[i])));
    }
    let ms: Vec<String> = near_methods().into_iter().chain(REQUESTS.iter().map(|n| n.0.to_string())).filter(|m| variant_of(m, &NOTIFICATIONS) == "Custom").collect();
    let n = ms.len() * custom.len();
    let (ms, custom) = (Arc::new(ms), Arc::new(custom));
    let (m2, c2) = (ms.clone(), custom.clone());
    out.push(Job::each(
        "methods near the known ones and all others",
        n,
        move |i| notification_round(&ms[i / custom.len()], custom[i % custom.len()].as_ref()),
        move |i| format!("{:?} {:?}", m2[i / c2.len()], c2[i % c2.len()]),
    ));
    let (ms, ps) = neighbours(&NOTIFICATIONS);
    let n = ms.len() * ps.len();
    let (ms, ps) = (Arc::new(ms), Arc::new(ps));
    let (m2, p2) = (ms.clone(), ps.clone());
    out.push(Job::each(
        "methods of neighbouring protocols, with params that fit known ones",
        n,
        move |i| notification_round(&ms[i / ps.len()], ps[i % ps.len()].as_ref()),
        move |i| format!("{:?} {:?}", m2[i / p2.len()], p2[i % p2.len()]),
    ));
    let any: Arc<Vec<Value>> = Arc::new(anything());
    let a2 = any.clone();
    out.push(Job::each(
        "custom ones with every small value and a wide range of others",
        any.len() * 2,
        move |i| notification_round(["own/note", "$/note"][i % 2], Some(&any[i / 2])),
        move |i| a2[i / 2].to_string(),
    ));
    out.push(Job::each(
        "the method constant",
        1,
        |_| {
            ensure!(BuildTargetDidChange::METHOD == "buildTarget/didChange", "{}", BuildTargetDidChange::METHOD);
            Ok(1)
        },
        |_| "METHOD".into(),
    ));
    out
}

/// The response as the wire has it, from a value and from text, and back.
fn response_round(m: Message, id: &Value, body: &Value) -> Result<u64, String> {
    let want = Seen { kind: "response", variant: "", id: id.clone(), method: String::new(), params: body.clone() };
    let s = see(&m)?;
    ensure!(s == want, "is {s:?} instead of {want:?}");
    let mut wire = body.clone();
    wire["id"] = id.clone();
    let v = js::to_value(&m).map_err(|e| e.to_string())?;
    let t = js::to_string(&m).map_err(|e| e.to_string())?;
    ensure!(v == wire, "encodes as {v} instead of {wire}");
    ensure!(js::from_str::<Value>(&t).ok() == Some(wire.clone()), "encodes as text {t} instead of {wire}");
    let Message::Response(r) = &m else { unreachable!() };
    let direct = js::to_value(r).map_err(|e| e.to_string())?;
    ensure!(direct == wire, "encodes as {direct} as a response, as {v} as a message");
    for back in [js::from_value::<Message>(v.clone()), js::from_str(&t), js::from_str::<Response>(&t).map(Message::Response)] {
        let s = see(&back.map_err(|e| format!("encodes as {t}, which is refused: {e}"))?)?;
        ensure!(s == want, "comes back as {s:?} instead of {want:?}");
    }
    let c = see(&m.clone())?;
    ensure!(c == want, "is cloned as {c:?}");
    Ok(outcome((id.to_string(), body.to_string())))
}

pub fn p17(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let mut out = vec![];
    let any: Vec<Value> = anything();
    let ids = [some_ids().to_vec(), vec![json!(0), json!(-1), json!("null"), json!("a".repeat(100))]].concat();
    // Success.
    let (a, i) = (any.clone(), ids.clone());
    out.push(Job::each(
        "success: every id and value",
        a.len() * i.len(),
        {
            let (a, i) = (a.clone(), i.clone());
            move |n| {
                let (v, id) = (&a[n / i.len()], &i[n % i.len()]);
                let rid: RequestId = js::from_value(id.clone()).map_err(|e| e.to_string())?;
                let want = json!({"result": v});
                response_round(Response::ok(rid.clone(), v.clone()).into(), id, &want)?;
                response_round(Response::ok(rid.clone(), v).into(), id, &want)?;
                response_round(Message::from((rid.clone(), v.clone())), id, &want)?;
                if let Some(s) = v.as_str() {
                    response_round(Message::from((rid.clone(), s.to_string())), id, &want)?;
                    response_round(Response::ok(rid.clone(), s).into(), id, &want)?;
                }
                if v.is_null() {
                    response_round(Response::ok(rid.clone(), ()).into(), id, &want)?;
                    response_round(Response::ok(rid.clone(), None::<i32>).into(), id, &want)?;
                }
                response_round(Message::Response(Response { id: rid, result: Some(v.clone()), error: None }), id, &want)
            }
        },
        move |n| format!("{} {}", i[n % i.len()], a[n / i.len()]),
    ));
    // Errors by name.
    type Make = fn(RequestId, String) -> Response;
    let named: [(&str, Make, i32); 11] = [
        ("parse_error", Response::parse_error, -32700),
        ("invalid_request", Response::invalid_request, -32600),
        ("method_not_found", Response::method_not_found, -32601),
        ("invalid_params", Response::invalid_params, -32602),
        ("internal_error", Response::internal_error, -32603),
        ("server_error_start", Response::server_error_start, -32099),
        ("server_error_end", Response::server_error_end, -32000),
        ("server_not_initialized", Response::server_not_initialized, -32002),
        ("request_canceled", Response::request_canceled, -32800),
        ("content_modified", Response::content_modified, -32801),
        ("server_canceled", Response::server_canceled, -32802),
    ];
    let texts: Vec<String> = texts();
    let (i, t) = (ids.clone(), texts.clone());
    out.push(Job::each(
        "errors by name: every id and message",
        named.len() * ids.len() * texts.len(),
        move |n| {
            let (_, f, code) = named[n / i.len() / t.len()];
            let (id, text) = (&i[n % i.len()], &t[n / i.len() % t.len()]);
            let rid: RequestId = js::from_value(id.clone()).map_err(|e| e.to_string())?;
            response_round(f(rid, text.clone()).into(), id, &json!({"error": {"code": code, "message": text}}))
        },
        move |n| named[n / ids.len() / texts.len()].0.to_string(),
    ));
    out.push(Job::each(
        "error codes",
        1,
        |_| {
            use ErrorCode::*;
            let have = [ParseError, InvalidRequest, MethodNotFound, InvalidParams, InternalError, ServerErrorStart, ServerErrorEnd, ServerNotInitialized, RequestCanceled, ContentModified, ServerCancelled].map(|c| c as i32);
            let want = [-32700, -32600, -32601, -32602, -32603, -32099, -32000, -32002, -32800, -32801, -32802];
            ensure!(have == want, "{have:?} instead of {want:?}");
            Ok(1)
        },
        |_| "all".into(),
    ));
    // Errors by number.
    let mut codes: Vec<i32> = (-33000..-31990).collect();
    codes.extend(-2000..2000);
    if deep {
        codes.extend((-2_000_000..2_000_000).step_by(7));
    }
    for p in 8..31 {
        for k in -1..=1 {
            codes.extend([(1 << p) + k, -(1 << p) + k]);
        }
    }
    codes.extend([i32::MIN, i32::MAX]);
    codes.sort();
    codes.dedup();
    let c2 = codes.clone();
    out.push(Job::each(
        "errors by number",
        codes.len(),
        move |n| {
            let code = codes[n];
            let rid = RequestId::from(code);
            response_round(Response::err(rid, code, format!("m{n}")).into(), &json!(code), &json!({"error": {"code": code, "message": format!("m{n}")}}))
        },
        move |n| c2[n].to_string(),
    ));
    // Error data, and responses as the peer may write them.
    let a = any.clone();
    out.push(Job::each(
        "error data and results from the wire",
        any.len() * 12,
        move |n| {
            let v = &a[n / 12];
            let with = |x: &Value| if v.is_null() { json!({"code": 1, "message": "m"}) } else { x.clone() };
            let e = json!({"code": 1, "message": "m", "data": v});
            let rid = RequestId::from(5);
            match n % 12 {
                0 => {
                    let m = Message::Response(Response { id: rid, result: None, error: Some(ResponseError { code: 1, message: "m".into(), data: (!v.is_null()).then(|| v.clone()) }) });
                    response_round(m, &json!(5), &json!({"error": with(&e)}))
                }
                k => {
                    // Members in several orders, with and without the other's null, with unknown ones.
                    let (text, body) = match k {
                        1 => (format!(r#"{{"jsonrpc":"2.0","id":5,"result":{v}}}"#), json!({"result": v})),
                        2 => (format!(r#"{{"result":{v},"id":5}}"#), json!({"result": v})),
                        3 => (format!(r#"{{"error":null,"result":{v},"id":5}}"#), json!({"result": v})),
                        4 => (format!(r#"{{"id":5,"params":{{}},"result":{v},"x":[{{}}]}}"#), json!({"result": v})),
                        5 => (format!(r#"{{"id":5,"error":{e}}}"#), json!({"error": with(&e)})),
                        6 => (format!(r#"{{"error":{e},"jsonrpc":"2.0","id":5}}"#), json!({"error": with(&e)})),
                        7 => (format!(r#"{{"id":5,"x":{v},"error":{{"data":{v},"y":0,"message":"m","code":1}}}}"#), json!({"error": with(&e)})),
                        8 => (format!(r#"{{"id":5,"result":null,"error":{e}}}"#), json!({"result": null, "error": with(&e)})),
                        9 => (format!(r#"{{"id":"5","result":{v}}}"#), json!({"result": v})),
                        10 => (format!(r#"{{"id":-5,"result":{v}}}"#), json!({"result": v})),
                        _ => (format!("\t{{ \"id\" : 5 ,\r\n \"result\" :\t{v} }} \n"), json!({"result": v})),
                    };
                    let id = match k {
                        9 => json!("5"),
                        10 => json!(-5),
                        _ => json!(5),
                    };
                    let m: Message = js::from_str(&text).map_err(|e| format!("{text} is refused: {e}"))?;
                    if k == 8 {
                        // Both: the peer is at fault; the error must not be lost.
                        let s = see(&m)?;
                        ensure!(s.params["error"] == body["error"], "{text} is read as {s:?}");
                        return Ok(8);
                    }
                    response_round(m, &id, &body).map_err(|e| format!("{text}: {e}"))
                }
            }
        },
        move |n| format!("{} way {}", any[n / 12], n % 12),
    ));
    // Typed results.
    for p in results() {
        let t = Arc::new(schema(p.schema));
        let vs: Vec<Value> = within(&t, if deep { 30_000 } else { 2_000 }).1.into_iter().filter(|v| v.good).map(|v| v.value).collect();
        let vs = Arc::new(vs);
        let v2 = vs.clone();
        let name = p.name;
        out.push(Job::each(
            format!("{name} in a response"),
            vs.len() * 2,
            move |n| {
                let (v, id) = (&vs[n / 2], [json!(3), json!("3")][n % 2].clone());
                let rid: RequestId = js::from_value(id.clone()).map_err(|e| e.to_string())?;
                macro_rules! go {
                    ($($n:literal $t:ty;)*) => {
                        match name {
                            $($n => {
                                let x: $t = js::from_value(v.clone()).map_err(|e| format!("{v} is refused: {e}"))?;
                                let body = js::to_value(&x).map_err(|e| e.to_string())?;
                                ensure!(t.normal(&body) == t.normal(v), "{v} encodes as {body}");
                                response_round(Response::ok(rid.clone(), &x).into(), &id, &json!({"result": body}))?;
                                response_round(Message::from((rid, x)), &id, &json!({"result": body}))
                            })*
                            _ => unreachable!(),
                        }
                    };
                }
                go! {
                    "build/initialize result" InitializeBuildResult;
                    "workspace/buildTargets result" WorkspaceBuildTargetsResult;
                    "buildTarget/sources result" BuildTargetSourcesResult;
                    "buildTarget/inverseSources result" BuildTargetInverseSourcesResult;
                    "buildTarget/dependencySources result" BuildTargetDependencySourcesResult;
                    "buildTarget/dependencyModules result" BuildTargetDependencyModulesResult;
                    "buildTarget/resources result" BuildTargetResourcesResult;
                    "buildTarget/compile result" BuildTargetCompileResult;
                    "buildTarget/test result" BuildTargetTestResult;
                    "buildTarget/run result" BuildTargetRunResult;
                    "buildTarget/cleanCache result" BuildTargetCleanCacheResult;
                    "debugSession/start result" DebugSessionStartResult;
                }
            },
            move |n| v2[n / 2].to_string(),
        ));
    }
    out
}

fn one_int(n: i32) -> Result<u64, String> {
    let id = RequestId::from(n);
    let v = json!(n);
    let text = n.to_string();
    ensure!(js::to_value(&id).ok() == Some(v.clone()), "{n} encodes as {:?}", js::to_value(&id));
    ensure!(js::to_string(&id).ok().as_ref() == Some(&text), "{n} encodes as text {:?}", js::to_string(&id));
    for back in [js::from_value::<RequestId>(v), js::from_str(&text)] {
        let back = back.map_err(|e| format!("{n} is refused: {e}"))?;
        ensure!(back == id, "{n} comes back as {back}");
    }
    ensure!(id.to_string() == text, "{n} shows as {id}");
    Ok(n as u64 % 64)
}

pub fn p18(tier: Tier) -> Vec<Job> {
    let mut out = vec![];
    // In the thorough tier every integer there is.
    const STEP: i64 = 1 << 16;
    let blocks: Vec<i64> = if tier == Tier::Thorough {
        (i32::MIN as i64 / STEP..=i32::MAX as i64 / STEP).collect()
    } else {
        let near: Vec<i64> = (8..31).flat_map(|p| [(1i64 << p) / STEP, -(1i64 << p) / STEP]).collect();
        let mut v = [(-8..8).collect(), near, vec![i32::MIN as i64 / STEP, i32::MAX as i64 / STEP]].concat();
        v.sort();
        v.dedup();
        v
    };
    let b2 = blocks.clone();
    let n_blocks = blocks.len();
    out.push(Job {
        name: if tier == Tier::Thorough { "every integer".into() } else { "integers near zero, the powers of two and the ends".into() },
        cases: n_blocks,
        check: Box::new(move |i, t| {
            let from = (blocks[i] * STEP).max(i32::MIN as i64);
            let to = (blocks[i] * STEP + STEP).min(i32::MAX as i64 + 1);
            for n in from..to {
                one_int(n as i32)?;
            }
            t.states.fetch_add((to - from) as u64, std::sync::atomic::Ordering::Relaxed);
            t.transitions.fetch_add((to - from) as u64, std::sync::atomic::Ordering::Relaxed);
            Ok(i as u64)
        }),
        show: Box::new(move |i| format!("from {}", b2[i] * STEP)),
    });
    let mut all: Vec<String> = strings(&["1", "-", "a", "\"", "\\", " ", "\u{0}", "\u{e9}", "\u{1f600}"], if tier == Tier::Thorough { 5 } else { 4 });
    all.extend(["null", "true", "2147483648", "-2147483648", "1.0", "1e3", "+1", "01", "\u{202e}", "\r\n"].map(String::from));
    all.push("x".repeat(100_000));
    let all = Arc::new(all);
    let a2 = all.clone();
    out.push(Job::each(
        "all short strings",
        all.len(),
        {
            let all = all.clone();
            move |i| {
                let s = &all[i];
                let id = RequestId::from(s.clone());
                let quoted = json!(s).to_string();
                let escaped: String = format!("\"{}\"", s.encode_utf16().map(|u| format!("\\u{u:04x}")).collect::<String>());
                ensure!(js::to_value(&id).ok() == Some(json!(s)), "{s:?} encodes as {:?}", js::to_value(&id));
                for back in [js::from_value::<RequestId>(json!(s)), js::from_str(&quoted), js::from_str(&escaped), js::from_reader(quoted.as_bytes())] {
                    let back = back.map_err(|e| format!("{s:?} is refused: {e}"))?;
                    ensure!(back == id, "{s:?} comes back as {back}");
                }
                let shown = id.to_string();
                ensure!(shown.parse::<i32>().is_err(), "{s:?} shows as {shown}, like an integer");
                Ok(outcome(shown))
            }
        },
        move |i| format!("{:?}", a2[i].chars().take(100).collect::<String>()),
    ));
    // How ids compare: every pair.
    let mut some: Vec<Value> = [0, 1, -1, 2, 9, 10, 11, 12, 99, 100, -10, 255, 256, 65536, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1].map(|n| json!(n)).to_vec();
    let texts: Vec<Value> = some.iter().map(|v| json!(v.to_string())).collect();
    some.extend(texts);
    some.extend(strings(&["1", "a", "\"", "\u{0}"], 3).into_iter().map(|s| json!(s)));
    some.extend(["a ", " a", "A", "null", "\u{e9}", "e\u{301}", "\"1\"", "'1'"].map(|s| json!(s)));
    let mut seen = HashSet::new();
    some.retain(|v| seen.insert(v.to_string()));
    let some = Arc::new(some);
    let s2 = some.clone();
    let n = some.len();
    out.push(Job::each(
        "every pair: equality, hash, order and text",
        n * n,
        move |i| {
            let (a, b) = (&some[i / n], &some[i % n]);
            let make = |v: &Value| js::from_value::<RequestId>(v.clone()).map_err(|e| format!("{v} is refused: {e}"));
            let direct = |v: &Value| match v.as_i64() {
                Some(n) => RequestId::from(n as i32),
                None => RequestId::from(v.as_str().unwrap().to_string()),
            };
            let (x, y) = (make(a)?, direct(b));
            let same = a == b;
            let hash = |i: &RequestId| {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                i.hash(&mut h);
                h.finish()
            };
            ensure!((x == y) == same && (x != y) != same, "{a} and {b} compare as equal: {}", x == y);
            ensure!(!same || hash(&x) == hash(&y), "{a} and {b} hash differently");
            ensure!((x.cmp(&y) == std::cmp::Ordering::Equal) == same, "{a} and {b} order as {:?}", x.cmp(&y));
            ensure!(x.cmp(&y) == y.cmp(&x).reverse() && x.partial_cmp(&y) == Some(x.cmp(&y)), "{a} and {b} have no one order");
            ensure!((x.to_string() == y.to_string()) == same, "{a} and {b} both show as {x}");
            ensure!(x.clone() == x && x.clone().to_string() == x.to_string(), "{a} is cloned as {}", x.clone());
            let mut set = HashSet::from([x.clone()]);
            ensure!(set.insert(y.clone()) != same, "{a} and {b} in a set");
            let tree = std::collections::BTreeSet::from([x, y]);
            ensure!(tree.len() == 2 - same as usize, "{a} and {b} in an ordered set");
            Ok(same as u64)
        },
        move |i| format!("{} and {}", s2[i / n], s2[i % n]),
    ));
    // The order is one: every three of some.
    let three: Vec<Value> = [json!(0), json!(1), json!(-1), json!(10), json!(9), json!(i32::MIN), json!(""), json!("0"), json!("1"), json!("10"), json!("9"), json!("-1"), json!("a"), json!("b")].to_vec();
    let k = three.len();
    let t2 = three.clone();
    out.push(Job::each(
        "every three: order",
        k * k * k,
        move |i| {
            let v = [&three[i / k / k], &three[i / k % k], &three[i % k]];
            let [a, b, c] = v.map(|v| js::from_value::<RequestId>(v.clone()).unwrap());
            ensure!(!(a <= b && b <= c) || a <= c, "{v:?} are in no order");
            Ok(1)
        },
        move |i| format!("{} {} {}", t2[i / k / k], t2[i / k % k], t2[i % k]),
    ));
    // What is no id.
    let mut no: Vec<Value> = vec![json!(null), json!(true), json!(false), json!([]), json!([1]), json!(["a"]), json!({}), json!({"I32": 1}), json!({"String": "a"}), json!(1.5), json!(-0.5), json!(1e10), json!(u64::MAX), json!(i64::MIN), json!(1e300)];
    for p in 31..64 {
        for k in [0u64, 1, 5] {
            no.push(json!((1u64 << p) + k));
            if p < 63 {
                no.push(json!(-(1i64 << p) - 1 - k as i64));
            }
        }
    }
    let no = Arc::new(no);
    let n2 = no.clone();
    out.push(Job::each(
        "what is no id",
        no.len(),
        move |i| {
            let v = &no[i];
            for r in [js::from_value::<RequestId>(v.clone()), js::from_str(&v.to_string())] {
                if let Ok(id) = r {
                    return Err(format!("{v} is taken for the id {id}"));
                }
            }
            for o in [json!({"id": v, "method": "build/shutdown"}), json!({"id": v, "method": "own"}), json!({"id": v, "result": 1})] {
                if let (false, Ok(m)) = (v.is_null(), js::from_str::<Message>(&o.to_string())) {
                    return Err(format!("{o} is delivered as {:?}", see(&m)?));
                }
            }
            Ok(1)
        },
        move |i| n2[i].to_string(),
    ));
    // Numbers not written as integers, whole or not, and what is no JSON at all.
    let mut spelled: Vec<String> = "-0 -0.0 0.0 0e0 0E0 -0e0 0.0e0 01 007 -01 +1 1. .5 -.5 - 0x1 1_000 1e 1e+ NaN Infinity -Infinity nul tru 'a' a \"a -- 1,2 1;".split(' ').map(String::from).collect();
    for n in [1i64, -1, 2, 10, 12, 100, 255, 65536, 2147483647, -2147483648, 2147483648, 9007199254740993] {
        for end in [".0", ".00", "e0", "E0", "e+0", "e-0", ".0e0", ".0E+00", "e1", "e2", ".5", "0e-1", "000e-3", ".000000001", ".", "e"] {
            spelled.push(format!("{n}{end}"));
        }
    }
    let s2 = Arc::new(spelled);
    let spelled = s2.clone();
    let kinds = ["{\"id\":#,\"method\":\"build/shutdown\"}", "{\"method\":\"own\",\"params\":{},\"id\":#}", "{\"id\":#,\"method\":\"workspace/reload\",\"params\":null}", "{\"id\":#,\"result\":1}", "{\"error\":{\"code\":1,\"message\":\"m\"},\"id\":#}", "{\"jsonrpc\":\"2.0\",\"id\":#,\"result\":null}"];
    out.push(Job::each(
        "numbers in other spellings",
        spelled.len(),
        move |i| {
            let n = &spelled[i];
            for id in [js::from_str::<RequestId>(n), js::from_slice(n.as_bytes()), js::from_reader(n.as_bytes())].into_iter().flatten() {
                return Err(format!("{n} is taken for the id {id}"));
            }
            if let Ok(v) = js::from_str::<Value>(n) {
                if let Ok(id) = js::from_value::<RequestId>(v) {
                    return Err(format!("{n}, as a value, is taken for the id {id}"));
                }
            }
            for k in kinds {
                let o = k.replace('#', n);
                for m in [js::from_str::<Message>(&o), js::from_slice(o.as_bytes()), js::from_reader(o.as_bytes())].into_iter().flatten() {
                    return Err(format!("{o} is delivered as {:?}", see(&m)?));
                }
                ensure!(js::from_str::<Request>(&o).is_err(), "{o} is a request");
                ensure!(js::from_str::<Response>(&o).is_err(), "{o} is a response");
            }
            Ok(1)
        },
        move |i| s2[i].clone(),
    ));
    // Through requests and replies.
    let ids: Vec<Value> = [some_ids().to_vec(), vec![json!(0), json!(-1), json!(" 1"), json!("0"), json!("null")]].concat();
    let per = REQUESTS.len() + 1;
    let i2 = ids.clone();
    out.push(Job::each(
        "ids through every request and both replies",
        ids.len() * per,
        move |n| {
            let (id, k) = (&ids[n / per], n % per);
            let method = REQUESTS.get(k).map_or("own", |r| r.0);
            let mut o = json!({"id": id, "method": method});
            if let Some(t) = payload_of(method) {
                o["params"] = t.plain();
            }
            let m: Message = js::from_str(&o.to_string()).map_err(|e| format!("{o} is refused: {e}"))?;
            let Message::Request(r) = &m else { return Err(format!("{o} is no request")) };
            let rid = r.id().clone();
            ensure!(id_value(&rid) == *id, "{o} has the id {rid}");
            for m in [m.clone(), Response::ok(rid.clone(), 1).into(), Response::internal_error(rid.clone(), "m".into()).into(), Message::from((rid.clone(), json!(1))), Message::Request(r.clone())] {
                let v = js::to_value(&m).map_err(|e| e.to_string())?;
                ensure!(v["id"] == *id, "{id} goes out as {v}");
                let back = see(&js::from_value(v).map_err(|e| e.to_string())?)?;
                ensure!(back.id == *id, "{id} comes back as {back:?}");
            }
            Ok(outcome(id.to_string()))
        },
        move |n| format!("{} with request {}", i2[n / per], n % per),
    ));
    out
}

/// JSON text of a value, its members in a given order and spelled in a given style.
struct Style {
    space: &'static str,
    escape: u8,
    reverse: bool,
    unknown: bool,
}

fn spell(s: &str, escape: u8) -> String {
    match escape {
        0 => json!(s).to_string(),
        1 => format!("\"{}\"", s.encode_utf16().map(|u| format!("\\u{u:04x}")).collect::<String>()),
        _ => format!(
            "\"{}\"",
            s.chars()
                .map(|c| match c {
                    '/' => "\\/".to_string(),
                    c if c == '"' || c == '\\' || (c as u32) < 32 || !c.is_ascii() => c.encode_utf16(&mut [0; 2]).iter().map(|u| format!("\\u{u:04X}")).collect(),
                    c => c.to_string(),
                })
                .collect::<String>()
        ),
    }
}

impl Style {
    fn write(&self, v: &Value, top: Option<(&[usize], Option<(usize, &str)>)>) -> String {
        let s = self.space;
        match v {
            Value::String(x) => spell(x, self.escape),
            Value::Array(a) => format!("[{s}{}{s}]", a.iter().map(|v| self.write(v, None)).collect::<Vec<_>>().join(&format!("{s},{s}"))),
            Value::Object(o) => {
                let mut ms: Vec<String> = o.iter().map(|(k, v)| format!("{}{s}:{s}{}", spell(k, self.escape), self.write(v, None))).collect();
                match top {
                    Some((order, extra)) => {
                        ms = order.iter().map(|i| ms[*i].clone()).collect();
                        if let Some((at, x)) = extra {
                            ms.insert(at, x.to_string());
                        }
                    }
                    None => {
                        if self.reverse {
                            ms.reverse();
                        }
                    }
                }
                format!("{{{s}{}{s}}}", ms.join(&format!("{s},{s}")))
            }
            _ => v.to_string(),
        }
    }
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for o in orders(n - 1) {
        for at in 0..n {
            let mut o = o.clone();
            o.insert(at, n - 1);
            out.push(o);
        }
    }
    out
}

/// Has unknown members in every object of a payload.
fn with_unknown(t: &T, v: &Value) -> Value {
    match (t, v) {
        (T::Arr(t), Value::Array(a)) => a.iter().map(|v| with_unknown(t, v)).collect(),
        (T::Obj(ms), Value::Object(o)) => {
            let mut out: serde_json::Map<String, Value> = o.iter().map(|(k, v)| (k.clone(), ms.iter().find(|m| m.name == *k).map_or(v.clone(), |m| with_unknown(&m.ty, v)))).collect();
            out.insert("aUnknown".into(), json!({"x": [1, {"y": null}], "id": 1}));
            out.insert("zUnknown".into(), json!("s"));
            Value::Object(out)
        }
        _ => v.clone(),
    }
}

pub fn p19(tier: Tier) -> Vec<Job> {
    let deep = tier == Tier::Thorough;
    let mut out = vec![];
    // Envelopes: one plain one for every method, misfits, responses, and what is refused.
    let mut corpus: Vec<(Value, Option<T>)> = vec![];
    for (m, _) in REQUESTS.iter().chain(&NOTIFICATIONS).chain(&[("own/method", ""), ("\u{e9}/\"\\", "")]) {
        let t = payload_of(m);
        let mut ps: Vec<Option<Value>> = vec![None];
        match &t {
            Some(t) => {
                let all = enumerate(t, 1);
                ps.extend(all.iter().take(1).map(|v| Some(v.value.clone())));
                ps.extend(all.iter().find(|v| !v.good && v.value.is_object()).map(|v| Some(v.value.clone())));
                ps.extend(all.iter().rev().find(|v| v.good && v.value.is_object()).map(|v| Some(v.value.clone())));
                if deep {
                    ps.extend(all.iter().filter(|v| v.value.is_object()).map(|v| Some(v.value.clone())));
                }
            }
            None => ps.extend([Some(Value::Null), Some(json!({"b": [{"d": 1, "c": "\u{e9}"}], "a": null}))]),
        }
        for p in ps {
            for id in [None, Some(json!(5)), Some(json!("\u{e9}5")), Some(json!(1.5))] {
                let mut o = json!({"jsonrpc": "2.0", "method": m});
                if let Some(p) = &p {
                    o["params"] = p.clone();
                }
                if let Some(id) = id {
                    o["id"] = id;
                }
                corpus.push((o, t.clone()));
            }
        }
    }
    for r in [json!({"result": null}), json!({"result": {"b": [], "a": "\u{e9}"}}), json!({"error": {"code": -1, "message": "\u{e9}", "data": {"x": 1}}}), json!({"error": {"code": -1, "message": "m"}}), json!({"error": null, "result": 1}), json!({})] {
        for id in [None, Some(json!(5)), Some(json!("5")), Some(json!([]))] {
            let mut o = r.clone();
            o["jsonrpc"] = json!("2.0");
            if let Some(id) = id {
                o["id"] = id;
            }
            corpus.push((o, None));
        }
    }
    let unknown = ["\"x\":1", "\"x\":\"id\"", "\"\":null", "\"x\":{\"id\":7,\"method\":\"build/exit\",\"params\":{}}", "\"x\":[[[{\"a\":{}}]],-1.5e-7,true]", "\"Method\":\"build/exit\"", "\"\\u0069D\":9", "\"paramss\":{}", "\"x\":18446744073709551616"];
    let corpus = Arc::new(corpus);
    let c2 = corpus.clone();
    let all_orders: Arc<Vec<Vec<Vec<usize>>>> = Arc::new((0..6).map(orders).collect());
    out.push(Job {
        name: "every order, unknown member, spelling and entry point of every envelope".into(),
        cases: corpus.len(),
        check: Box::new(move |i, t| {
            let (o, ty) = &corpus[i];
            let what = |r: serde_json::Result<Message>| r.ok().map(|m| see(&m)).transpose();
            let want = what(js::from_value(o.clone()))?;
            let mut k = 0u64;
            let mut look = |text: &str, v: bool| -> Result<(), String> {
                let mut seen = vec![("text", what(js::from_str(text))?), ("bytes", what(js::from_slice(text.as_bytes()))?), ("a reader", what(js::from_reader(text.as_bytes()))?)];
                if v {
                    let v: Value = js::from_str(text).map_err(|e| format!("{text}: {e}"))?;
                    seen.push(("a value", what(js::from_value(v))?));
                }
                // And each kind on its own.
                let id = o.get("id").is_some();
                match (o.get("method").is_some(), id) {
                    (true, true) => {
                        let good = want.as_ref().filter(|w| w.variant != "Custom" || payload_of(&w.method).is_none());
                        let have = js::from_str::<Request>(text).ok().map(|r| see_request(&r)).transpose()?;
                        ensure!(have.as_ref() == good || good.is_none(), "{text} as a request is {have:?}, expected {good:?}");
                        let have = js::from_slice::<Request>(text.as_bytes()).ok().map(|r| see_request(&r)).transpose()?;
                        ensure!(have.as_ref() == good || good.is_none(), "{text}, from bytes, as a request is {have:?}, expected {good:?}");
                        let have = js::from_reader::<_, Request>(text.as_bytes()).ok().map(|r| see_request(&r)).transpose()?;
                        ensure!(have.as_ref() == good || good.is_none(), "{text}, from a reader, as a request is {have:?}, expected {good:?}");
                    }
                    (true, false) => {
                        for n in [js::from_str::<Notification>(text), js::from_slice(text.as_bytes()), js::from_reader(text.as_bytes())] {
                            let have = n.ok().map(|n| see_notification(&n));
                            ensure!(have == want, "{text} as a notification is {have:?}, expected {want:?}");
                        }
                    }
                    _ => {
                        for r in [js::from_str::<Response>(text), js::from_slice(text.as_bytes()), js::from_reader(text.as_bytes())] {
                            let have = r.ok().map(|r| see_response(&r));
                            ensure!(have == want, "{text} as a response is {have:?}, expected {want:?}");
                        }
                    }
                }
                for (how, s) in seen {
                    ensure!(s == want, "{text}, from {how}, is {s:?} instead of {want:?}");
                    k += 1;
                }
                Ok(())
            };
            let n = o.as_object().unwrap().len();
            let plain = Style { space: "", escape: 0, reverse: false, unknown: false };
            // Inside the error as well.
            if let Some(e) = o.get("error").and_then(Value::as_object) {
                let rest: Vec<String> = o.as_object().unwrap().iter().filter(|m| m.0 != "error").map(|(k, v)| format!("{}:{v}", json!(k))).collect();
                let members: Vec<String> = e.iter().map(|(k, v)| format!("{}:{v}", json!(k))).collect();
                for order in all_orders[members.len()].iter() {
                    for at in 0..=members.len() {
                        for (u, x) in unknown.iter().enumerate() {
                            for also in ["", ",\"y\":{}"] {
                                let mut ms: Vec<&str> = order.iter().map(|k| members[*k].as_str()).collect();
                                ms.insert(at, x);
                                let error = format!("\"error\":{{{}}}", ms.join(","));
                                look(&format!("{{{error},{}{also}}}", rest.join(",")), u != 8)?;
                                look(&format!("{{{},{error}{also}}}", rest.join(",")), u != 8)?;
                            }
                        }
                    }
                }
            }
            for (j, order) in all_orders[n].iter().enumerate() {
                look(&plain.write(o, Some((order, None))), true)?;
                for at in 0..=n {
                    for (u, x) in unknown.iter().enumerate() {
                        // Every order with two of them, the first with all.
                        if deep || j == 0 || (j + at) % unknown.len() == u {
                            look(&plain.write(o, Some((order, Some((at, x))))), u != 8)?;
                        }
                    }
                }
                for escape in 0..3 {
                    for space in ["", " ", "\r\n\t "] {
                        let st = Style { space, escape, reverse: j % 2 == 1, unknown: false };
                        if deep || j < 4 || (j + escape as usize) % 4 == 0 {
                            let text = st.write(o, Some((order, None)));
                            look(&format!("{space}{text}{space}"), true)?;
                        }
                    }
                }
            }
            // Inside the payload.
            if let (Some(ty), Some(p)) = (ty, o.get("params").filter(|p| p.is_object())) {
                for escape in 0..3 {
                    for reverse in [false, true] {
                        for unknown in [false, true] {
                            for space in ["", "\n "] {
                                let mut o = o.clone();
                                if unknown {
                                    o["params"] = with_unknown(ty, p);
                                }
                                // A misfit is kept as it came, unknown members and all.
                                if unknown && want.as_ref().is_some_and(|w| w.variant == "Custom") {
                                    continue;
                                }
                                let st = Style { space, escape, reverse, unknown };
                                ensure!(st.unknown == unknown, "");
                                let order: Vec<usize> = (0..n).collect();
                                look(&st.write(&o, Some((&order, None))), true)?;
                            }
                        }
                    }
                }
            }
            t.states.fetch_add(k, std::sync::atomic::Ordering::Relaxed);
            t.transitions.fetch_add(k, std::sync::atomic::Ordering::Relaxed);
            Ok(outcome(want.map(|w| (w.kind, w.variant))))
        }),
        show: Box::new(move |i| c2[i].0.to_string()),
    });
    // Texts one edit away from good ones.
    let mut texts: Vec<Vec<char>> = vec![];
    for (m, _) in REQUESTS.iter().chain(&NOTIFICATIONS).chain(&[("own", "Custom")]) {
        let p = payload_of(m).map(|t| t.plain());
        let v = match (&p, REQUESTS.iter().any(|r| r.0 == *m)) {
            (Some(p), true) => json!({"jsonrpc": "2.0", "id": 5, "method": m, "params": p}),
            (Some(p), false) => json!({"jsonrpc": "2.0", "method": m, "params": p}),
            (None, true) => json!({"jsonrpc": "2.0", "id": "\u{e9}", "method": m}),
            (None, false) => json!({"jsonrpc": "2.0", "method": m}),
        };
        texts.push(v.to_string().chars().collect());
    }
    for v in [json!({"id": 5, "result": {"a": [null]}}), json!({"jsonrpc": "2.0", "id": "5", "error": {"code": -1, "message": "m", "data": {"x": 1}}}), json!({"id": 1, "method": "own", "params": [{"a": "\u{e9}"}, 1.5]})] {
        texts.push(v.to_string().chars().collect());
    }
    let at: Vec<usize> = texts.iter().scan(0, |n, t| {
        let x = *n;
        *n += edits(t.len());
        Some(x)
    }).collect();
    let total = texts.iter().map(|t| edits(t.len())).sum();
    let texts = Arc::new((texts, at));
    let pick = move |i: usize| {
        let k = texts.1.partition_point(|a| *a <= i) - 1;
        edited(&texts.0[k], i - texts.1[k])
    };
    let pick = Arc::new(pick);
    let p2 = pick.clone();
    out.push(Job::each(
        "every text one edit away from a message",
        total,
        move |i| {
            let text = pick(i);
            let valid = js::from_str::<serde::de::IgnoredAny>(&text).is_ok();
            let value: Option<Value> = js::from_str(&text).ok();
            let mut sum = vec![];
            macro_rules! same {
                ($t:ty, $see:expr) => {
                    for x in [js::from_str::<$t>(&text), js::from_slice(text.as_bytes()), js::from_reader(text.as_bytes())] {
                        let have = x.ok().map(|x| $see(&x)).transpose()?;
                        ensure!(valid || have.is_none(), "{text} is no JSON and is taken for {have:?}");
                        if let Some(v) = &value {
                            let want = js::from_value::<$t>(v.clone()).ok().map(|x| $see(&x)).transpose()?;
                            ensure!(have == want, "{text} is {have:?} as text and {want:?} as a value");
                        }
                        sum.push(have.map(|h| (h.kind, h.variant)));
                    }
                };
            }
            same!(Message, see);
            same!(Request, see_request);
            same!(Notification, |n: &Notification| Ok::<_, String>(see_notification(n)));
            same!(Response, |r: &Response| Ok::<_, String>(see_response(r)));
            Ok(outcome(sum))
        },
        move |i| p2(i),
    ));
    // Results have no envelope of their own.
    for p in results() {
        let t = Arc::new(schema(p.schema));
        let vs = Arc::new(within(&t, if deep { 20_000 } else { 1_000 }).1);
        let v2 = vs.clone();
        out.push(Job::each(
            format!("{}: order, unknown members and spelling", p.name),
            vs.len(),
            move |i| {
                let v = &vs[i];
                let want = (p.codec)(&v.value)?.ok();
                for (escape, reverse, space) in [(0, true, ""), (1, false, ""), (2, true, "\t"), (0, false, " \n")] {
                    for unknown in [false, true] {
                        let u = if unknown { with_unknown(&t, &v.value) } else { v.value.clone() };
                        let st = Style { space, escape, reverse, unknown };
                        let text = st.write(&u, None);
                        let have = text_codec(p.name, &text);
                        ensure!(have == want, "{text} is {have:?} instead of {want:?}");
                    }
                }
                Ok(outcome(want.map(|w| w.to_string())))
            },
            move |i| v2[i].value.to_string(),
        ));
    }
    out
}

fn text_codec(name: &str, text: &str) -> Option<Value> {
    macro_rules! go {
        ($($n:literal $t:ty;)*) => {
            match name {
                $($n => {
                    let a = js::from_str::<$t>(text).ok().and_then(|x| js::to_value(x).ok());
                    let b = js::from_reader::<_, $t>(text.as_bytes()).ok().and_then(|x| js::to_value(x).ok());
                    if a == b { a } else { Some(json!(["differ", a, b])) }
                })*
                _ => unreachable!(),
            }
        };
    }
    go! {
        "build/initialize result" InitializeBuildResult;
        "workspace/buildTargets result" WorkspaceBuildTargetsResult;
        "buildTarget/sources result" BuildTargetSourcesResult;
        "buildTarget/inverseSources result" BuildTargetInverseSourcesResult;
        "buildTarget/dependencySources result" BuildTargetDependencySourcesResult;
        "buildTarget/dependencyModules result" BuildTargetDependencyModulesResult;
        "buildTarget/resources result" BuildTargetResourcesResult;
        "buildTarget/compile result" BuildTargetCompileResult;
        "buildTarget/test result" BuildTargetTestResult;
        "buildTarget/run result" BuildTargetRunResult;
        "buildTarget/cleanCache result" BuildTargetCleanCacheResult;
        "debugSession/start result" DebugSessionStartResult;
    }
}
