//! The messages scenarios are made of, as the peer writes them and as the application builds them.

use bsp_server::types::*;
use bsp_server::{Message, Notification, Request, RequestId, Response};
use crate::wide;
use serde_json::{json, Value};
use std::ops::Range;

/// A frame as the protocol defines it.
pub fn frame_text(body: &str) -> Vec<u8> {
    let mut v = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
    v.extend(body.as_bytes());
    v
}
pub fn frame(body: &Value) -> Vec<u8> {
    frame_text(&body.to_string())
}

pub fn is_exit(name: &str) -> bool {
    let v = incoming(name);
    v.get("id").is_none() && v["method"] == "build/exit"
}

/// Null members mean as much as absent ones in the params of typed messages.
fn lean(method: &str, v: Value) -> Value {
    fn strip(v: Value) -> Value {
        match v {
            Value::Object(o) => Value::Object(o.into_iter().filter(|x| !x.1.is_null()).map(|(k, x)| (k, strip(x))).collect()),
            Value::Array(a) => Value::Array(a.into_iter().map(strip).collect()),
            v => v,
        }
    }
    if method == "build/exit" || method == "build/initialized" {
        Value::Null
    } else if method.starts_with("x/") {
        v
    } else {
        strip(v)
    }
}

/// What a message is, in terms that do not depend on how the library encodes it.
pub fn describe(m: &Message) -> Value {
    match m {
        Message::Request(r) => json!({
            "kind": "request",
            "id": id_value(r.id()),
            "method": r.method(),
            "params": lean(r.method(), r.params().map_err(|e| e.to_string()).unwrap_or_else(Value::String)),
        }),
        Message::Notification(n) => {
            let p = match n {
                Notification::Exit | Notification::Initialized => Value::Null,
                Notification::Custom(_, v) => v.clone(),
                n => serde_json::to_value(n).map(|v| v["params"].clone()).unwrap_or_default(),
            };
            json!({"kind": "notification", "method": n.method(), "params": lean(n.method(), p)})
        }
        Message::Response(r) => {
            let mut v = json!({"kind": "response", "id": id_value(&r.id)});
            if let Some(x) = &r.result {
                v["result"] = x.clone();
            }
            if let Some(e) = &r.error {
                v["error"] = json!({"code": e.code, "message": e.message});
                if let Some(d) = &e.data {
                    v["error"]["data"] = d.clone();
                }
            }
            v
        }
    }
}

fn id_value(id: &RequestId) -> Value {
    serde_json::to_value(id).unwrap()
}

/// The description of a message given as its JSON members.
pub fn describe_json(v: &Value) -> Value {
    let params = || lean(v["method"].as_str().unwrap_or(""), v.get("params").cloned().unwrap_or_default());
    match (v.get("method"), v.get("id")) {
        (Some(m), Some(id)) => json!({
            "kind": "request", "id": id, "method": m, "params": params()
        }),
        (Some(m), None) => json!({
            "kind": "notification", "method": m, "params": params()
        }),
        (None, _) => {
            let mut o = json!({"kind": "response", "id": v["id"]});
            for k in ["result", "error"] {
                if let Some(x) = v.get(k) {
                    o[k] = x.clone();
                }
            }
            o
        }
    }
}

/// Members every message on the wire has.
pub fn on_wire(v: &Value) -> Value {
    let mut v = v.clone();
    v["jsonrpc"] = json!("2.0");
    v
}

/// Messages of a wide range; their names are "w" and a number.
fn wide_all<T>(f: impl FnOnce(&(Vec<Value>, [usize; 4])) -> T) -> T {
    thread_local!(static W: (Vec<Value>, [usize; 4]) = {
        let mut all = wide::text_messages();
        let a = all.len();
        all.extend(wide::value_messages());
        let b = all.len();
        all.extend(wide::greetings());
        let c = all.len();
        all.extend(wide::known());
        let d = all.len();
        (all, [a, b, c, d])
    });
    W.with(f)
}
/// With a text in one place.
pub fn wide_texts() -> Range<usize> {
    wide_all(|w| 0..w.1[0])
}
/// With any value in one place.
pub fn wide_values() -> Range<usize> {
    wide_all(|w| w.1[0]..w.1[1])
}
/// Requests to initialize.
pub fn wide_greetings() -> Range<usize> {
    wide_all(|w| w.1[1]..w.1[2])
}
/// Of every kind, two by two: alike but for what they say.
pub fn wide_known() -> Range<usize> {
    wide_all(|w| w.1[2]..w.1[3])
}
pub fn wide_name(k: usize) -> &'static str {
    leaked(&format!("w{k}"))
}
fn wide_at(name: &str) -> Option<Value> {
    let k: usize = name.strip_prefix('w')?.parse().ok()?;
    Some(wide_all(|w| w.0[k].clone()))
}

/// The ways a message is written that mean the same. The name of one so written is "v", the way, a colon and its plain name.
pub const WAYS_TO_WRITE: usize = 12;
fn written(way: usize, v: &Value) -> String {
    let (space, reverse) = ([" ", "\r\n\t "].get(way.wrapping_sub(1)).copied().unwrap_or(if way == 7 { "\n" } else { "" }), [3, 7, 10].contains(&way));
    fn inner(c: char) -> String {
        let t = json!(c.to_string()).to_string();
        t[1..t.len() - 1].to_string()
    }
    fn text(s: &str, way: usize, key: bool) -> String {
        let all = way == 5 && !key || way == 6 || way == 7 || way == 4 && key;
        let each = |u: u16| if way == 6 { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") };
        match (all, way) {
            (true, _) => format!("\"{}\"", s.encode_utf16().map(each).collect::<String>()),
            (_, 8) => json!(s).to_string().replace('/', "\\/"),
            // The first or the last character of every name.
            (_, 9 | 10) if key && !s.is_empty() => {
                let c: Vec<char> = s.chars().collect();
                let at = if way == 9 { 0 } else { c.len() - 1 };
                let t: String = c.iter().enumerate().map(|(i, x)| if i == at { x.encode_utf16(&mut [0; 2]).iter().map(|u| each(*u)).collect() } else { inner(*x) }).collect();
                format!("\"{t}\"")
            }
            _ => json!(s).to_string(),
        }
    }
    fn put(v: &Value, way: usize, space: &str, reverse: bool, out: &mut String) {
        match v {
            Value::Object(o) => {
                let mut ms: Vec<(&String, &Value)> = o.iter().collect();
                if reverse {
                    ms.reverse();
                }
                *out += "{";
                for (i, (k, x)) in ms.into_iter().enumerate() {
                    *out += &format!("{}{space}{}{space}:{space}", if i > 0 { "," } else { "" }, text(k, way, true));
                    put(x, way, space, reverse, out);
                    *out += space;
                }
                *out += space;
                *out += "}";
            }
            Value::Array(a) => {
                *out += "[";
                for (i, x) in a.iter().enumerate() {
                    *out += &format!("{}{space}", if i > 0 { "," } else { "" });
                    put(x, way, space, reverse, out);
                    *out += space;
                }
                *out += space;
                *out += "]";
            }
            Value::String(s) => *out += &text(s, way, false),
            v => *out += &v.to_string(),
        }
    }
    let mut out = String::new();
    put(v, way, space, reverse, &mut out);
    match way {
        // Members nobody knows, before and after.
        0 => format!("{{\"trace\":{{\"id\":7,\"method\":\"build/exit\",\"params\":[]}},{}", &out[1..]),
        11 => format!("{},\"meta\":[\"Content-Length: 3\\r\\n\\r\\n\",{{\"id\":null,\"result\":1,\"error\":{{}}}}],\"\":0}}", &out[..out.len() - 1]),
        _ => format!("{space}{out}{space}{space}"),
    }
}
fn way_of(name: &str) -> Option<(usize, &str)> {
    let (way, n) = name.strip_prefix('v')?.split_once(':')?;
    Some((way.parse().ok()?, n))
}

/// Incoming messages by name.
pub fn incoming(name: &str) -> Value {
    if let Some((_, n)) = way_of(name) {
        return incoming(n);
    }
    match name {
        n if n.starts_with('w') => wide_at(n).unwrap(),
        "req" => json!({"id": 1, "method": "x/ask", "params": {"k": "v"}}),
        "req2" => json!({"id": "two", "method": "x/ask", "params": [1, 2]}),
        "targets" => json!({"id": 3, "method": "workspace/buildTargets"}),
        "sources" => json!({"id": 4, "method": "buildTarget/sources", "params": {"targets": [{"uri": "file:///t"}]}}),
        "init" => json!({"id": 0, "method": "build/initialize", "params": {
            "displayName": "c", "version": "1", "bspVersion": "2.0", "rootUri": "file:///r",
            "capabilities": {"languageIds": ["rust"]}, "data": null}}),
        "initb" => json!({"id": "b", "method": "build/initialize", "params": {
            "displayName": "d", "rootUri": "file:///s/%20x", "capabilities": {"languageIds": []}, "data": {"k": [null]}}}),
        "badsources" => json!({"id": 13, "method": "buildTarget/sources", "params": {"targets": 5}}),
        "cancel" => json!({"method": "$/cancelRequest", "params": {"id": 1}}),
        "initialized" => json!({"method": "build/initialized"}),
        "initializedp" => json!({"method": "build/initialized", "params": {}}),
        "initreq" => json!({"id": 14, "method": "build/initialized", "params": null}),
        "shutdown" => json!({"id": 9, "method": "build/shutdown"}),
        "exit" => json!({"method": "build/exit"}),
        "note" => json!({"method": "x/note", "params": {"t": "héllo \u{1F980} \"q\"\n"}}),
        "note2" => json!({"method": "x/other", "params": null}),
        "task" => json!({"method": "build/taskStart", "params": {"taskId": {"id": "t1"}}}),
        "resp" => json!({"id": 7, "result": {"ok": true}}),
        "err" => json!({"id": 8, "error": {"code": -32600, "message": "bad"}}),
        "empty" => json!({"method": "", "params": null}),
        // Not exit notifications, whatever they look like.
        "exitreq" => json!({"id": 10, "method": "build/exit", "params": null}),
        "lspexit" => json!({"method": "exit", "params": null}),
        "exitparams" => json!({"method": "build/exit", "params": {"a": 1}}),
        "downnote" => json!({"method": "build/shutdown", "params": null}),
        "custominit" => json!({"id": 11, "method": "build/initialize", "params": {"x": 1}}),
        "compile" => json!({"id": 12, "method": "buildTarget/compile", "params": {"target": [{"uri": "file:///t"}]}}),
        "log" => json!({"method": "build/logMessage", "params": {"type": 1, "message": "m"}}),
        n if n.starts_with("big") => {
            let k: usize = n[3..].parse().unwrap();
            json!({"method": "x/big", "params": {"d": "0123456789abcdé".repeat(k / 16 + 1)}})
        }
        n if n.starts_with('r') => {
            let k: i32 = n[1..].parse().unwrap();
            json!({"id": k, "method": "x/n", "params": k})
        }
        n if n.starts_with('n') => {
            let k: i32 = n[1..].parse().unwrap();
            json!({"method": "x/m", "params": k})
        }
        _ => panic!("no message {name}"),
    }
}

pub fn incoming_frame(name: &str) -> Vec<u8> {
    if let Some((way, n)) = way_of(name) {
        return frame_text(&written(way, &on_wire(&incoming(n))));
    }
    frame(&on_wire(&incoming(name)))
}

/// The message with these members, as an application builds it.
fn built(v: &Value) -> Message {
    let id = || match &v["id"] {
        Value::String(s) => RequestId::from(s.clone()),
        n => RequestId::from(n.as_i64().unwrap() as i32),
    };
    let params = || v.get("params").cloned().unwrap_or_default();
    match v.get("method").and_then(|m| m.as_str()) {
        Some("build/logMessage") => LogMessage::error(v["params"]["message"].as_str().unwrap(), None, None).into(),
        Some("workspace/buildTargets") => Request::WorkspaceBuildTargets(id()).into(),
        Some("workspace/reload") => Request::WorkspaceReload(id()).into(),
        Some("build/shutdown") => Request::Shutdown(id()).into(),
        Some("build/exit") => Notification::Exit.into(),
        Some("build/initialized") => Notification::Initialized.into(),
        Some(m) => {
            let m = leaked(m);
            if v.get("id").is_some() {
                Request::Custom(id(), m, params()).into()
            } else {
                Notification::Custom(m, params()).into()
            }
        }
        None => match v.get("error") {
            Some(e) => {
                let mut r = Response::err(id(), e["code"].as_i64().unwrap() as i32, e["message"].as_str().unwrap().to_string());
                r.error.as_mut().unwrap().data = e.get("data").cloned();
                r.into()
            }
            None => Response::ok(id(), v["result"].clone()).into(),
        },
    }
}

fn leaked(s: &str) -> &'static str {
    thread_local!(static N: std::cell::RefCell<std::collections::HashSet<&'static str>> = Default::default());
    N.with(|n| {
        let mut n = n.borrow_mut();
        if let Some(x) = n.get(s) {
            return *x;
        }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        n.insert(x);
        x
    })
}

/// Outgoing messages: the value the application sends and the members the peer must find.
pub fn outgoing(name: &str) -> (Message, Value) {
    match name {
        n if n.starts_with('w') => {
            let v = wide_at(n).unwrap();
            let typed = v["method"].as_str().is_some_and(|m| wide::METHODS.contains(&m));
            let plain = v.get("params").is_none() || v["params"].as_object().is_some_and(|p| p.len() == 2 && p.contains_key("type"));
            let m = if typed && !plain { serde_json::from_value(on_wire(&v)).unwrap() } else { built(&v) };
            (m, v)
        }
        "ok" => (Response::ok(RequestId::from(1), json!({"a": "b"})).into(), json!({"id": 1, "result": {"a": "b"}})),
        "null" => (Response::ok(RequestId::from("n".to_string()), ()).into(), json!({"id": "n", "result": null})),
        "err" => (
            Response::method_not_found(RequestId::from(2), "no é".into()).into(),
            json!({"id": 2, "error": {"code": -32601, "message": "no é"}}),
        ),
        "ask" => (
            Request::Custom(RequestId::from(5), "x/ask", json!([1, "\u{1F980}\r\n\r\nContent-Length: 3"])).into(),
            json!({"id": 5, "method": "x/ask", "params": [1, "\u{1F980}\r\n\r\nContent-Length: 3"]}),
        ),
        "shutdown" => (Request::Shutdown(RequestId::from(6)).into(), json!({"id": 6, "method": "build/shutdown"})),
        "exit" => (Notification::Exit.into(), json!({"method": "build/exit"})),
        "task" => (
            TaskStart::new("some_id").into(),
            json!({"method": "build/taskStart", "params": {"taskId": {"id": "some_id"}}}),
        ),
        "note" => (
            Notification::Custom("x/note", json!({"t": "日本語 \"\\"})).into(),
            json!({"method": "x/note", "params": {"t": "日本語 \"\\"}}),
        ),
        "targets" => (
            (RequestId::from(3), WorkspaceBuildTargetsResult::default()).into(),
            json!({"id": 3, "result": {"targets": []}}),
        ),
        "init" => (
            Request::InitializeBuild(
                RequestId::from(-4),
                InitializeBuild::new("c", "1", "2.0", Url::parse("file:///r").unwrap(), ClientCapabilities::default(), json!({"z": null})),
            )
            .into(),
            json!({"id": -4, "method": "build/initialize", "params": {"displayName": "c", "version": "1",
                "bspVersion": "2.0", "rootUri": "file:///r", "capabilities": {"languageIds": []}, "data": {"z": null}}}),
        ),
        "initialized" => (Notification::Initialized.into(), json!({"method": "build/initialized"})),
        "reqnull" => (
            Request::Custom(RequestId::from("\"\\".to_string()), "x/é", Value::Null).into(),
            json!({"id": "\"\\", "method": "x/é"}),
        ),
        "notenull" => (Notification::Custom("x/nul\0", Value::Null).into(), json!({"method": "x/nul\0", "params": null})),
        n if n.starts_with("size") => {
            // A body of exactly that many bytes, if it can be that short.
            let k: usize = n[4..].parse().unwrap();
            let d = "x".repeat(k.saturating_sub(37));
            (Notification::Custom("", json!(d)).into(), json!({"method": "", "params": d}))
        }
        n if n.starts_with("chars") => {
            let k: u32 = n[5..].parse().unwrap();
            let d: String = (k * 64..k * 64 + 64).filter_map(char::from_u32).collect();
            match k % 4 {
                0 => (Notification::Custom("x/c", json!(d)).into(), json!({"method": "x/c", "params": d})),
                1 => (
                    Request::Custom(RequestId::from(d.clone()), "x/c", json!({"k": 1})).into(),
                    json!({"id": d, "method": "x/c", "params": {"k": 1}}),
                ),
                2 => (
                    Response::server_canceled(RequestId::from(1), d.clone()).into(),
                    json!({"id": 1, "error": {"code": -32802, "message": d}}),
                ),
                _ => {
                    let mut o = serde_json::Map::new();
                    o.insert(d.clone(), json!(d));
                    (
                        Response::ok(RequestId::from(1), Value::Object(o.clone())).into(),
                        json!({"id": 1, "result": Value::Object(o)}),
                    )
                }
            }
        }
        n if n.starts_with("big") => {
            let k: usize = n[3..].parse().unwrap();
            let d = "0123456789abcdé".repeat(k / 16 + 1);
            (Notification::Custom("x/big", json!({"d": d})).into(), json!({"method": "x/big", "params": {"d": d}}))
        }
        n if n.starts_with('m') => {
            let k: i32 = n[1..].parse().unwrap();
            (Response::ok(RequestId::from(100 + k), json!(k)).into(), json!({"id": 100 + k, "result": k}))
        }
        _ => panic!("no message {name}"),
    }
}

/// Cuts a stream into frames exactly as this library must write them. The rest is an incomplete frame.
pub fn split_output(bytes: &[u8]) -> Result<(Vec<Value>, Vec<u8>), String> {
    let mut out = Vec::new();
    let mut at = 0;
    const H: &[u8] = b"Content-Length: ";
    loop {
        let rest = &bytes[at..];
        if rest.is_empty() {
            return Ok((out, vec![]));
        }
        let n = rest.len().min(H.len());
        if rest[..n] != H[..n] {
            return Err(format!("byte {at}: no Content-Length header: {:?}", show(&rest[..rest.len().min(60)])));
        }
        let Some(e) = rest.windows(4).position(|w| w == b"\r\n\r\n") else {
            if rest.len() > 60 || rest[n..].iter().any(|b| !b.is_ascii_digit() && !b"\r\n".contains(b)) {
                return Err(format!("byte {at}: malformed header {:?}", show(&rest[..rest.len().min(60)])));
            }
            return Ok((out, rest.to_vec()));
        };
        let digits = &rest[H.len()..e];
        let len: usize = std::str::from_utf8(digits)
            .ok()
            .filter(|d| d.bytes().all(|b| b.is_ascii_digit()) && (d.len() == 1 || !d.starts_with('0')))
            .and_then(|d| d.parse().ok())
            .ok_or_else(|| format!("byte {at}: bad length {:?}", show(digits)))?;
        let body = &rest[e + 4..];
        if body.len() < len {
            return Ok((out, rest.to_vec()));
        }
        let text = std::str::from_utf8(&body[..len]).map_err(|_| format!("byte {at}: body is not UTF-8"))?;
        let v: Value = serde_json::from_str(text).map_err(|x| format!("byte {at}: body is not JSON ({x}): {text}"))?;
        out.push(v);
        at += e + 4 + len;
    }
}

pub fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
