//! Wide ranges of texts, values and messages, for every place that takes any of them.

use serde_json::{json, Map, Value};

/// Texts something might be done to: trimmed, re-cased, cut, interpreted.
pub fn texts() -> Vec<String> {
    let mut out: Vec<String> = [
        "", " ", " a", "a ", "A", "aB", "\t", "a\nb", "a\r\n", "/", "a/", "/a", "//", "\\", ".", "..", "~", "%", "%20", "%2F", "0", "-1", "007", "1e3", "1.0",
        "null", "true", "undefined", "None", "[]", "{}", "\"\"", "a,b", "a;b", "a:b", "a=b", "a b", "-", "--x", "_", "#", "$/x", "@", "&amp;", "<b>", "'", "`", "\u{0}",
        "a\u{0}b", "\u{1}", "\u{7f}", "\u{80}", "\u{feff}a", "\u{e9}", "e\u{301}", "\u{df}", "\u{130}", "\u{d7ff}", "\u{e000}", "\u{fffd}", "\u{ffff}", "\u{1f600}",
        "\u{10ffff}", "\u{2028}", "Content-Length: 3\r\n\r\n{}", "file:///a", "build/exit", "\\u0041",
    ]
    .map(String::from)
    .to_vec();
    out.extend((0..128u8).filter(|c| !c.is_ascii_alphanumeric()).map(|c| format!("a{}2", c as char)));
    for n in [15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 8192, 8193, 10_001, 65_535, 65_536, 65_537] {
        out.push("x".repeat(n));
        out.push("\u{20ac}".repeat(n.div_ceil(3)));
    }
    // Wherever one of these is cut, one of its three phases is cut inside a character.
    for n in [30, 100, 400, 1500, 3000, 25_000] {
        for k in 0..3 {
            out.push("x".repeat(k) + &"\u{20ac}".repeat(n));
        }
    }
    out
}

/// Every JSON value of up to two levels over a small alphabet, and texts, numbers and sizes that are at some edge.
pub fn anything() -> Vec<Value> {
    let leaves = vec![json!(null), json!(true), json!(false), json!(0), json!(-1), json!(1.5), json!(""), json!("a")];
    let around = |all: &[Value], out: &mut Vec<Value>| {
        out.extend([json!([]), json!({})]);
        for a in all {
            out.push(json!([a]));
            for k in ["", "a", "id", "method", "params", "jsonrpc"] {
                let mut o = Map::new();
                o.insert(k.into(), a.clone());
                out.push(Value::Object(o));
            }
        }
    };
    let mut one = vec![];
    around(&leaves, &mut one);
    for a in &leaves {
        for b in &leaves {
            one.push(json!([a, b]));
            one.push(json!({"a": a, "b": b}));
            one.push(json!({"b": b, "A": a, "": b}));
        }
    }
    let mut two = vec![];
    around(&one, &mut two);
    let mut out = leaves;
    out.extend(one);
    out.extend(two);
    for p in 0..64 {
        for k in [-1i128, 0, 1] {
            let n = (1i128 << p) + k;
            out.push(json!(n as u64));
            if let Ok(n) = i64::try_from(-n) {
                out.push(json!(n));
            }
        }
    }
    out.extend([json!(u64::MAX), json!(i64::MIN), json!(0.1), json!(-0.0), json!(1e300), json!(-1e-300), json!(1e21), json!(4294967296.5), json!(0.30000000000000004), json!(f64::MAX)]);
    for t in texts() {
        let mut o = Map::new();
        o.insert(t.clone(), json!(t));
        out.push(Value::Object(o));
        out.push(json!(t));
    }
    for n in [3, 10, 16, 17, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 1025, 5000] {
        out.push((0..n).collect());
        out.push((0..n).rev().collect());
        out.push(Value::Object((0..n).map(|k| (format!("k{k}"), json!(k))).collect()));
    }
    for n in [5, 20, 60, 100] {
        out.push((0..n).fold(json!(0), |v, _| json!([v])));
        out.push((0..n).fold(json!(0), |v, _| json!({"a": v})));
    }
    out
}

/// Methods that are not quite those the protocol has.
pub fn near_methods() -> Vec<String> {
    let mut out = vec![];
    for m in METHODS {
        let (first, rest) = m.split_once('/').unwrap();
        out.extend([m.to_uppercase(), m.to_lowercase(), format!("{m}/"), format!("/{m}"), format!(" {m}"), format!("{m} "), rest.to_string(), format!("{first}.{rest}"), format!("{m}s"), format!("{m}\u{0}"), format!("$/{m}"), format!("{m}\n"), m[..m.len() - 1].to_string()]);
    }
    out.extend(["build/", "buildTarget/"].map(String::from));
    out.extend(foreign_methods());
    out.retain(|m| !METHODS.contains(&m.as_str()));
    out.sort();
    out.dedup();
    out
}

/// Methods of neighbouring protocols and versions, and those of this one under other heads and in other spellings.
pub fn foreign_methods() -> Vec<String> {
    let mut out: Vec<String> = "$/cancelRequest $/progress $/setTrace $/logTrace initialize initialized shutdown exit rpc.discover \
        client/registerCapability client/unregisterCapability window/showMessage window/showMessageRequest window/showDocument window/logMessage \
        window/workDoneProgress/create window/workDoneProgress/cancel telemetry/event workspace/workspaceFolders workspace/didChangeWorkspaceFolders \
        workspace/didChangeConfiguration workspace/configuration workspace/didChangeWatchedFiles workspace/symbol workspace/executeCommand workspace/applyEdit \
        workspace/diagnostic workspace/diagnostic/refresh workspace/buildTargets2 workspace/targets textDocument/didOpen textDocument/didChange textDocument/didSave textDocument/didClose \
        textDocument/publishDiagnostics textDocument/diagnostic textDocument/inverseSources textDocument/completion textDocument/hover textDocument/definition textDocument/references \
        textDocument/codeAction textDocument/formatting textDocument/rename buildTarget/outputPaths buildTarget/jvmRunEnvironment buildTarget/jvmTestEnvironment \
        buildTarget/jvmCompileClasspath buildTarget/jvmMainClass buildTarget/scalacOptions buildTarget/javacOptions buildTarget/scalaTestClasses buildTarget/scalaMainClasses \
        buildTarget/pythonOptions buildTarget/cppOptions buildTarget/rustOptions buildTarget/rustWorkspace buildTarget/cargoFeaturesState buildTarget/setCargoFeatures \
        buildTarget/mavenDependencyModules buildTarget/taskStart buildTarget/taskProgress buildTarget/taskFinish buildTarget/debugSession buildTarget/reload buildTarget/changed \
        run/printStdout run/printStderr run/readStdin debugSession/stop debugSession/attach debug/start build/registerFileWatcher build/cancelRequest build/ping"
        .split_whitespace()
        .map(String::from)
        .collect();
    for m in METHODS {
        let tail = m.split_once('/').unwrap().1;
        for head in [
            "build", "buildTarget", "buildTargets", "buildServer", "workspace", "textDocument", "window", "client", "server", "debugSession", "debug", "task", "telemetry", "target", "targets", "bsp", "$", "scala", "rust", "cargo",
            "jvm", "java", "run", "lsp", "x", "experimental", "",
        ] {
            out.push(format!("{head}/{tail}"));
        }
        for sep in ["-", "_", " "] {
            let apart: String = m.chars().flat_map(|c| if c.is_uppercase() { format!("{sep}{}", c.to_lowercase()) } else { c.to_string() }.chars().collect::<Vec<_>>()).collect();
            out.push(apart);
        }
        let mut c = m.chars();
        out.push(c.next().unwrap().to_uppercase().chain(c).collect());
        for (a, b) in [("initialize", "initialise"), ("initialized", "initialised"), ("shutdown", "shutDown"), ("cleanCache", "clean"), ("Start", "Begin"), ("Finish", "End"), ("Finish", "Finished"), ("Start", "Started"), ("build/", "bsp/")] {
            out.push(m.replace(a, b));
        }
        out.extend([format!("{m}/v2"), format!("{m}V2"), format!("{m}Request"), format!("{m}Notification"), format!("{m}Params"), format!("v2/{m}"), format!("build/{m}")]);
    }
    out.retain(|m| !METHODS.contains(&m.as_str()));
    out.sort();
    out.dedup();
    out
}

pub const METHODS: [&str; 23] = [
    "build/initialize", "build/shutdown", "workspace/buildTargets", "workspace/reload", "buildTarget/dependencyModules", "debugSession/start", "buildTarget/sources",
    "buildTarget/inverseSources", "buildTarget/dependencySources", "buildTarget/resources", "buildTarget/run", "buildTarget/compile", "buildTarget/test", "buildTarget/cleanCache",
    "build/exit", "build/initialized", "build/showMessage", "build/logMessage", "build/publishDiagnostics", "build/taskStart", "build/taskFinish", "build/taskProgress", "buildTarget/didChange",
];

/// One message of every kind with everything it can have, as `t` has it; the id, the task and the origin are always the same.
fn full(t: &str, n: i32) -> Vec<Value> {
    let uri = |k: &str| json!({"uri": format!("file:///{t}/{k}")});
    let targets = json!({"targets": [uri("x"), uri("y")]});
    let run = json!({"target": uri("x"), "originId": "o", "arguments": t, "dataKind": t, "data": {"k": [t, n]}});
    let show = json!({"type": n, "message": t, "task": {"id": "t", "parents": ["p", "q"]}, "originId": "o"});
    let task = |more: Value| {
        let mut v = json!({"taskId": {"id": "t", "parents": ["p"]}, "eventTime": n, "message": t, "dataKind": "compile-task", "data": {"target": uri("x"), "n": n}});
        v.as_object_mut().unwrap().extend(more.as_object().unwrap().clone());
        v
    };
    let asks = [
        ("build/initialize", json!({"displayName": t, "version": t, "bspVersion": t, "rootUri": format!("file:///{t}"), "capabilities": {"languageIds": [t, "rust"]}, "data": {"k": n}})),
        ("build/shutdown", Value::Null),
        ("workspace/buildTargets", Value::Null),
        ("workspace/reload", Value::Null),
        ("buildTarget/dependencyModules", targets.clone()),
        ("debugSession/start", json!({"targets": [uri("x")], "dataKind": t, "data": {"k": n}})),
        ("buildTarget/sources", targets.clone()),
        ("buildTarget/inverseSources", json!({"textDocument": uri("d")})),
        ("buildTarget/dependencySources", json!({"textDocument": uri("d")})),
        ("buildTarget/resources", targets.clone()),
        ("buildTarget/run", run.clone()),
        ("buildTarget/compile", json!({"target": uri("x"), "originId": "o", "arguments": t})),
        ("buildTarget/test", run),
        ("buildTarget/cleanCache", targets),
        ("own/ask", json!({"a": [t, {"b": n}], "id": 1})),
    ];
    let tells = [
        ("build/exit", Value::Null),
        ("build/initialized", Value::Null),
        ("build/showMessage", show.clone()),
        ("build/logMessage", show),
        (
            "build/publishDiagnostics",
            json!({"textDocument": {"uri": "file:///d"}, "buildTarget": {"uri": "file:///t"}, "originId": "o", "reset": n == 1,
                "diagnostics": [{"range": {"start": {"line": n, "character": 1}, "end": {"line": n, "character": 2}}, "message": t, "source": t}]}),
        ),
        ("build/taskStart", task(json!({}))),
        ("build/taskProgress", task(json!({"total": 10, "progress": n, "unit": "files"}))),
        ("build/taskFinish", task(json!({"status": n}))),
        ("buildTarget/didChange", json!({"changes": [{"target": {"uri": "file:///t"}, "kind": n, "data": {"k": t}}]})),
        ("own/note", json!({"a": [t, {"b": n}], "id": 1})),
    ];
    let mut out = vec![];
    for (m, p) in asks {
        out.push(if p.is_null() { json!({"id": 1, "method": m}) } else { json!({"id": 1, "method": m, "params": p}) });
    }
    for (m, p) in tells {
        out.push(if p.is_null() { json!({"method": m}) } else { json!({"method": m, "params": p}) });
    }
    out.push(json!({"id": 1, "result": {"k": [t, n]}}));
    out.push(json!({"id": 1, "error": {"code": -32000 - n, "message": t, "data": {"k": n}}}));
    out
}

/// Messages of all kinds, two by two: alike but for what they say.
pub fn known() -> Vec<Value> {
    full("a", 1).into_iter().zip(full("b", 2)).flat_map(|(a, b)| [a, b]).collect()
}

/// Whole messages with a text in one place.
pub fn text_messages() -> Vec<Value> {
    let mut out = vec![];
    for t in texts() {
        if !METHODS.contains(&t.as_str()) {
            out.push(json!({"id": 1, "method": t, "params": {"k": "v"}}));
            out.push(json!({"method": t, "params": {"k": "v"}}));
        }
        out.push(json!({"id": t, "method": format!("x/{t}"), "params": [t]}));
        out.push(json!({"method": format!("x/{t}"), "params": t}));
        out.push(json!({"id": t, "method": "workspace/buildTargets"}));
        out.push(json!({"id": t, "result": t}));
        out.push(json!({"id": 1, "error": {"code": -32000, "message": t}}));
        out.push(json!({"method": "build/logMessage", "params": {"type": 1, "message": t}}));
    }
    out.extend(known().into_iter().filter(|v| !["build/exit", "build/shutdown", "build/initialize", "build/initialized"].iter().any(|m| v["method"] == *m)));
    for m in near_methods() {
        out.push(json!({"id": 1, "method": m, "params": {"k": "v"}}));
        out.push(json!({"method": m, "params": {"k": "v"}}));
    }
    for p in 0..32 {
        for k in [-1i64, 0, 1] {
            let n = (1i64 << p) + k;
            for n in [n, -n].into_iter().filter(|n| i32::try_from(*n).is_ok()) {
                out.push(json!({"id": n, "method": "x/ask", "params": n}));
                out.push(json!({"id": 1, "error": {"code": n, "message": "m"}}));
            }
        }
    }
    out
}

/// Whole messages with any value in one place.
pub fn value_messages() -> Vec<Value> {
    let mut out = vec![];
    for a in anything() {
        out.push(if a.is_null() { json!({"id": 1, "method": "x/ask"}) } else { json!({"id": 1, "method": "x/ask", "params": a}) });
        out.push(json!({"method": "x/note", "params": a}));
        out.push(json!({"id": "r", "result": a}));
        out.push(if a.is_null() { json!({"id": "r", "error": {"code": 1, "message": ""}}) } else { json!({"id": "r", "error": {"code": 1, "message": "", "data": a}}) });
    }
    out
}

/// Requests to initialize, with a text or a value in one place.
pub fn greetings() -> Vec<Value> {
    let plain = json!({"displayName": "c", "version": "1", "bspVersion": "2.0", "rootUri": "file:///r", "capabilities": {"languageIds": ["rust"]}, "data": {"k": 1}});
    let mut all = vec![];
    for t in texts() {
        for k in ["displayName", "version", "bspVersion"] {
            let mut p = plain.clone();
            p[k] = json!(t);
            all.push(p);
        }
        let mut p = plain.clone();
        p["capabilities"]["languageIds"] = json!(["a", t, ""]);
        all.push(p);
    }
    for a in anything() {
        let mut p = plain.clone();
        p["data"] = a;
        all.push(p);
    }
    all.into_iter().map(|p| json!({"id": 1, "method": "build/initialize", "params": p})).collect()
}
