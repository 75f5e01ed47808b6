//! Server loops like the documented one, that answer in many manners. Shared by the exploration and the real-system runner.

use bsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use serde_json::{json, Value};

pub const MANNERS: usize = 11;
/// Collects two requests before it answers them, or whatever there is at shutdown.
pub const LAZY: usize = 10;

/// Answers every request, hands shutdown over.
pub fn serve_as(conn: Connection, manner: usize) -> Value {
    let mut k = 0;
    let mut pending: Vec<RequestId> = vec![];
    for msg in &conn.receiver {
        let Message::Request(req) = msg else { continue };
        let end = matches!(req, Request::Shutdown(_));
        if !end {
            pending.push(req.id().clone());
        }
        if manner != LAZY || end || pending.len() == 2 {
            for id in pending.drain(..) {
                for m in messages(id, manner, k) {
                    if conn.send(m).is_err() {
                        return json!("sending failed");
                    }
                }
                k += 1;
            }
        }
        if end {
            return match conn.handle_shutdown(&req) {
                Ok(true) => json!("served"),
                Ok(false) => json!("not shut down"),
                Err(e) => json!(e.to_string()),
            };
        }
    }
    json!("disconnected")
}

/// What is sent for the `k`th request: one response, perhaps something around it.
fn messages(id: RequestId, manner: usize, k: usize) -> Vec<Message> {
    let note = |n: usize| Message::from(Notification::Custom("server/note", json!({"n": n})));
    match manner {
        0 => vec![Response::ok(id, ()).into()],
        1 => vec![Response::ok(id, json!({})).into()],
        2 => vec![Response::internal_error(id, "no".into()).into()],
        3 => vec![Response::ok(id, "\u{e9}".repeat(20_000)).into()],
        4 => vec![note(k), Response::ok(id, k).into(), note(k)],
        5 => vec![Request::Custom(id.clone(), "client/ask", json!([k])).into(), Response::ok(id, json!([])).into()],
        6 => vec![Response::ok(id, json!({"jsonrpc": "2.0", "id": 1, "method": "build/exit"})).into()],
        7 => vec![Notification::Initialized.into(), Notification::Exit.into(), Response::ok(id, false).into()],
        8 => vec![Request::Shutdown(id.clone()).into(), Response::ok(id, "").into()],
        9 => messages(id, k % 9, k),
        _ => vec![Response::ok(id, json!([Value::Null])).into()],
    }
}

/// The frames of that on the wire, without texts that are the library's own.
#[allow(dead_code)]
pub fn frames(id: &Value, manner: usize, k: usize) -> Vec<Value> {
    let ok = |r: Value| json!({"id": id, "result": r});
    let note = json!({"method": "server/note", "params": {"n": k}});
    match manner {
        0 => vec![ok(Value::Null)],
        1 => vec![ok(json!({}))],
        2 => vec![json!({"id": id, "code": -32603})],
        3 => vec![ok(json!("\u{e9}".repeat(20_000)))],
        4 => vec![note.clone(), ok(json!(k)), note],
        5 => vec![json!({"id": id, "method": "client/ask", "params": [k]}), ok(json!([]))],
        6 => vec![ok(json!({"jsonrpc": "2.0", "id": 1, "method": "build/exit"}))],
        7 => vec![json!({"method": "build/initialized"}), json!({"method": "build/exit"}), ok(json!(false))],
        8 => vec![json!({"id": id, "method": "build/shutdown"}), ok(json!(""))],
        9 => frames(id, k % 9, k),
        _ => vec![ok(json!([null]))],
    }
}

/// A frame as `frames` shows it.
#[allow(dead_code)]
pub fn plain(f: &Value) -> Value {
    let mut f = f.clone();
    let Some(o) = f.as_object_mut() else { return f };
    if o.remove("jsonrpc") != Some(json!("2.0")) {
        return json!({"no JSON-RPC": f});
    }
    if o.get("params") == Some(&Value::Null) {
        o.remove("params");
    }
    if let Some(e) = o.remove("error") {
        o.insert("code".into(), e["code"].clone());
    }
    f
}
