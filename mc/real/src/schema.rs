//! What the payloads look like, written down apart from the code: a small notation for object types,
//! every value of such a type up to a number of deviations from a plain one, and what of a value counts.
//!
//!     name:type!   required
//!     name:type?   optional, null means absent
//!     name:type=   absent means the type's empty value

pub use crate::wide::*;
use serde_json::{json, Map, Value};
use std::cell::Cell;

#[derive(Clone, Debug)]
pub enum T {
    Bool,
    U32,
    U64,
    Str,
    Url,
    Any,
    Kind,
    Tag,
    Codes(Vec<u64>),
    Arr(Box<T>),
    Obj(Vec<Member>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Need {
    Required,
    Optional,
    Defaulted,
}

#[derive(Clone, Debug)]
pub struct Member {
    pub name: String,
    pub ty: T,
    pub need: Need,
}

pub const TAGS: [&str; 7] = ["library", "application", "test", "integration-test", "benchmark", "no-ide", "manual"];
pub const KINDS: [&str; 6] = ["compile-task", "compile-report", "test-task", "test-report", "test-start", "test-finish"];

pub fn schema(s: &str) -> T {
    let mut p = P(s.as_bytes(), 0);
    let t = p.ty();
    p.space();
    assert!(p.1 == s.len(), "schema {s} at {}", p.1);
    t
}

struct P<'a>(&'a [u8], usize);
impl P<'_> {
    fn space(&mut self) {
        while self.1 < self.0.len() && self.0[self.1].is_ascii_whitespace() {
            self.1 += 1;
        }
    }
    fn word(&mut self) -> String {
        self.space();
        let a = self.1;
        while self.1 < self.0.len() && self.0[self.1].is_ascii_alphanumeric() {
            self.1 += 1;
        }
        String::from_utf8(self.0[a..self.1].to_vec()).unwrap()
    }
    fn next(&mut self) -> u8 {
        self.space();
        self.1 += 1;
        self.0[self.1 - 1]
    }
    fn peek(&mut self) -> u8 {
        self.space();
        self.0[self.1]
    }
    fn ty(&mut self) -> T {
        match self.peek() {
            b'{' => {
                self.next();
                let mut ms = vec![];
                while self.peek() != b'}' {
                    let name = self.word();
                    assert_eq!(self.next(), b':', "after {name}");
                    let ty = self.ty();
                    let need = match self.next() {
                        b'!' => Need::Required,
                        b'?' => Need::Optional,
                        b'=' => Need::Defaulted,
                        c => panic!("{} after {name}", c as char),
                    };
                    ms.push(Member { name, ty, need });
                }
                self.next();
                T::Obj(ms)
            }
            b'[' => {
                self.next();
                let t = self.ty();
                assert_eq!(self.next(), b']');
                T::Arr(Box::new(t))
            }
            _ => match self.word().as_str() {
                "bool" => T::Bool,
                "u32" => T::U32,
                "u64" => T::U64,
                "str" => T::Str,
                "url" => T::Url,
                "any" => T::Any,
                "kind" => T::Kind,
                "tag" => T::Tag,
                // `code3` stands for 1, 2, 3.
                w if w.starts_with("code") => T::Codes((1..=w[4..].parse().unwrap()).collect()),
                w => panic!("type {w}"),
            },
        }
    }
}

thread_local! {
    /// Enumerating stops beyond so many values; what there is then is of no use.
    pub static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    pub static OVER: Cell<bool> = const { Cell::new(false) };
}

/// A value, whether decoding must accept it, and how far it is from the plain one.
#[derive(Clone, Debug)]
pub struct V {
    pub value: Value,
    pub good: bool,
    pub cost: usize,
}

fn scalars(plain: Value, good: Vec<Value>, bad: Vec<Value>) -> Vec<V> {
    let mut out = vec![V { value: plain, good: true, cost: 0 }];
    out.extend(good.into_iter().map(|value| V { value, good: true, cost: 1 }));
    out.extend(bad.into_iter().map(|value| V { value, good: false, cost: 1 }));
    out
}

impl T {
    /// The plain value, with every member there, changed in one place to every value of a wide range.
    pub fn wide(&self) -> Vec<V> {
        let good = |v: Value| V { value: v, good: true, cost: 1 };
        match self {
            T::Str => texts().into_iter().map(|t| good(json!(t))).collect(),
            T::Kind | T::Tag => texts().into_iter().map(|t| good(json!(t))).collect(),
            T::Url => {
                let mut out: Vec<V> = [
                    "file:///a/", "file:///a//b", "file:///C:/x", "file:///c%3A/x", "file:///a%2Fb", "file:///a%2fb", "file:///%C3%A9", "file:///a%20b%25", "file:///a?x#y", "file:///a?", "file:///a#",
                    "file:///a+b", "file:///a&b", "file:///A/b", "file://host/a", "http://h/", "http://h/a/", "http://u:p@h:1/x", "https://h/?q=a+b", "http://[::1]/", "jar:file:///a!/b", "untitled:Untitled-1",
                    "data:,x", "x:", "bsp+x:a", "mailto:a@b", "urn:a:b:c",
                ]
                .into_iter()
                .map(|t| good(json!(t)))
                .collect();
                for n in [100, 255, 256, 1024, 2048, 5000, 70_000] {
                    out.push(good(json!(format!("file:///{}", "x".repeat(n)))));
                }
                out
            }
            T::Any => anything().into_iter().map(good).collect(),
            T::U32 | T::U64 => {
                let bits = if matches!(self, T::U32) { 32 } else { 64 };
                let mut out = vec![];
                for p in 0..=64 {
                    for k in [-1i128, 0, 1, 2] {
                        let n = (1i128 << p) + k;
                        if let Ok(x) = u64::try_from(n) {
                            out.push(V { value: json!(x), good: n < 1i128 << bits, cost: 1 });
                        }
                    }
                }
                for n in [0u64, 60, 99, 100, 101, 999, 1000, 1001, 10_000, 1_000_000, 1_000_000_000] {
                    out.push(good(json!(n)));
                }
                out
            }
            T::Bool | T::Codes(_) => self.values(1, true),
            T::Arr(t) => {
                let mut out: Vec<V> = t.wide().into_iter().map(|v| V { value: json!([v.value]), ..v }).collect();
                let some: Vec<Value> = t.values(1, true).into_iter().filter(|v| v.good).map(|v| v.value).collect();
                for n in (0..=20).chain([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1025, 4097]) {
                    let all: Vec<Value> = (0..n).map(|i| some[i % some.len()].clone()).collect();
                    out.push(good(all.iter().rev().cloned().collect()));
                    out.push(good(json!(all)));
                }
                for (i, a) in some.iter().take(12).enumerate() {
                    for b in some.iter().take(i) {
                        for list in [json!([a, b]), json!([b, a]), json!([a, a, b]), json!([a, b, a]), json!([a, b, b])] {
                            out.push(good(list));
                        }
                    }
                }
                out
            }
            T::Obj(ms) => {
                let plain = self.plain();
                let mut out = vec![];
                for m in ms {
                    for v in m.ty.wide() {
                        let mut o = plain.clone();
                        o[&m.name] = v.value.clone();
                        out.push(V { value: o, ..v });
                    }
                }
                out
            }
        }
    }

    /// Every value up to `k` deviations; `full` says whether the optional members are there in the plain one.
    pub fn values(&self, k: usize, full: bool) -> Vec<V> {
        let mut v = match self {
            T::Bool => scalars(json!(true), vec![json!(false)], vec![json!(1), json!("true"), json!({})]),
            T::U32 => scalars(
                json!(7),
                vec![json!(0), json!(u32::MAX)],
                vec![json!(-1), json!(1.5), json!(1u64 << 32), json!("7"), json!(true), json!([7])],
            ),
            T::U64 => scalars(
                json!(7),
                vec![json!(0), json!(1u64 << 32), json!((1u64 << 53) + 1), json!(1_650_000_000_000u64), json!(u64::MAX)],
                vec![json!(-1), json!(1.5), json!(1e20), json!("7"), json!(false), json!({"a": 1})],
            ),
            T::Str => scalars(
                json!("plain"),
                vec![json!(""), json!("\u{0}\t\r\n\"\\/ \u{7f}\u{e9}\u{2028}\u{1f600}"), json!(" null"), json!("x".repeat(300))],
                vec![json!(0), json!(true), json!(["s"]), json!({"s": "t"})],
            ),
            T::Url => scalars(
                json!("file:///a/b%20c"),
                vec![json!("https://h.example:8080/p/?q=1&r=%C3%A9#f"), json!("urn:x:y"), json!("file:///"), json!("bsp://t?id=a/b")],
                vec![json!(""), json!("a/b"), json!("//h/p"), json!(0), json!(false), json!({})],
            ),
            T::Any => scalars(
                json!({"a": [1, null, {"b": "c"}]}),
                vec![
                    json!(null), json!(false), json!(0), json!(-1), json!(1.5), json!(u64::MAX), json!(i64::MIN), json!(1e300),
                    json!(""), json!("s"), json!([]), json!({}), json!({"jsonrpc": "1.0", "id": 5, "method": "m"}),
                ],
                vec![],
            ),
            T::Kind => scalars(
                json!("compile-task"),
                KINDS[1..].iter().map(|k| json!(k)).chain([json!("scala-test"), json!("Compile-Task"), json!("compile-task "), json!("\u{e9}"), json!("none"), json!(null)]).collect(),
                vec![json!(0), json!(5), json!(true), json!(1.5), json!(["test-task"]), json!({}), json!({"kind": "test-task"})],
            ),
            T::Tag => scalars(
                json!("library"),
                TAGS[1..].iter().map(|k| json!(k)).chain([json!("own"), json!("Library"), json!("no-ide "), json!("Custom"), json!("")]).collect(),
                vec![json!(0), json!(true), json!(["library"])],
            ),
            T::Codes(c) => scalars(
                json!(c[0]),
                c[1..].iter().map(|c| json!(c)).collect(),
                vec![json!(0), json!(c.len() + 1), json!(-1), json!(c[0] + 256), json!(c[0] + 65536), json!(1.5), json!("1"), json!(true), json!({})],
            ),
            T::Arr(t) => {
                let vs = t.values(k, full);
                let plain = vs[0].value.clone();
                let mut out = vec![];
                if OVER.get() {
                    return vs;
                }
                for v in &vs {
                    out.push(V { value: json!([v.value]), ..v.clone() });
                }
                if k > 0 {
                    out.push(V { value: json!([]), good: true, cost: 1 });
                    for bad in [json!({}), json!("s"), json!(0), json!(true)] {
                        out.push(V { value: bad, good: false, cost: 1 });
                    }
                    for v in &vs {
                        if v.cost < k {
                            out.push(V { value: json!([plain, v.value]), good: v.good, cost: v.cost + 1 });
                            if v.cost > 0 {
                                out.push(V { value: json!([v.value, plain]), good: v.good, cost: v.cost + 1 });
                            }
                            if v.cost + 1 < k {
                                out.push(V { value: json!([plain, v.value, plain]), good: v.good, cost: v.cost + 2 });
                            }
                        }
                    }
                }
                out
            }
            T::Obj(_) if OVER.get() => vec![],
            T::Obj(ms) => {
                let mut out = vec![V { value: json!({}), good: true, cost: 0 }];
                for m in ms {
                    let opts = m.options(k, full);
                    let mut next = vec![];
                    for o in &out {
                        for (v, good, cost) in &opts {
                            if o.cost + cost > k {
                                continue;
                            }
                            let mut value = o.value.clone();
                            if let Some(v) = v {
                                value[&m.name] = v.clone();
                            }
                            next.push(V { value, good: o.good && *good, cost: o.cost + cost });
                            if next.len() > LIMIT.get() {
                                OVER.set(true);
                                return next;
                            }
                        }
                    }
                    out = next;
                }
                if k > 0 {
                    // Members nobody knows change nothing.
                    let plain = out.iter().find(|o| o.cost == 0).unwrap().value.clone();
                    for (name, v) in [("unknown", json!({"a": [1]})), ("Data", json!(0)), ("", json!(null)), ("display_name", json!("x"))] {
                        let mut value = plain.clone();
                        value[name] = v;
                        out.push(V { value, good: true, cost: 1 });
                    }
                    for bad in [json!("s"), json!(0), json!(true)] {
                        out.push(V { value: bad, good: false, cost: 1 });
                    }
                }
                out
            }
        };
        v.retain(|v| v.cost <= k);
        v.sort_by_key(|v| v.cost);
        v
    }

    /// Every combination of the members there may be, each with one of two values.
    pub fn combinations(&self) -> Vec<Value> {
        match self {
            T::Arr(t) => {
                let c = t.combinations();
                let mut out = vec![json!([])];
                if matches!(**t, T::Obj(_)) {
                    out.extend(c.iter().map(|v| json!([v])));
                }
                out.push(json!([c[0], c[c.len() - 1]]));
                out
            }
            T::Obj(ms) => {
                let mut out = vec![json!({})];
                for m in ms {
                    let mut vs = m.ty.combinations();
                    if m.need == Need::Required && matches!(m.ty, T::Str | T::Url) {
                        vs.truncate(1);
                    }
                    let mut next = vec![];
                    for o in &out {
                        if m.need != Need::Required {
                            next.push(o.clone());
                        }
                        for v in &vs {
                            let mut o = o.clone();
                            o[&m.name] = v.clone();
                            next.push(o);
                        }
                    }
                    out = next;
                }
                out
            }
            _ => self.values(1, true).into_iter().filter(|v| v.good).take(1 + !matches!(self, T::Any) as usize).map(|v| v.value).collect(),
        }
    }

    pub fn plain(&self) -> Value {
        self.values(0, true)[0].value.clone()
    }

    /// The value without what makes no difference: members that are unknown, null or at their default.
    pub fn normal(&self, v: &Value) -> Value {
        match (self, v) {
            (T::Arr(t), Value::Array(a)) => a.iter().map(|v| t.normal(v)).collect(),
            (T::Obj(ms), Value::Object(o)) => {
                let mut out = Map::new();
                for m in ms {
                    let Some(v) = o.get(&m.name) else { continue };
                    let n = m.ty.normal(v);
                    if n.is_null() && m.need != Need::Required || m.need == Need::Defaulted && n == m.ty.normal(&m.ty.empty()) {
                        continue;
                    }
                    out.insert(m.name.clone(), n);
                }
                Value::Object(out)
            }
            _ => v.clone(),
        }
    }

    fn empty(&self) -> Value {
        match self {
            T::Str => json!(""),
            T::Arr(_) => json!([]),
            T::Codes(c) => json!(c[0]),
            T::Obj(ms) => ms.iter().filter(|m| m.need == Need::Required).map(|m| (m.name.clone(), m.ty.empty())).collect(),
            _ => Value::Null,
        }
    }

    /// Whether every member in an encoding has a name of the protocol.
    pub fn only_known(&self, v: &Value) -> Result<(), String> {
        match (self, v) {
            (T::Arr(t), Value::Array(a)) => a.iter().try_for_each(|v| t.only_known(v)),
            (T::Obj(ms), Value::Object(o)) => o.iter().try_for_each(|(k, v)| match ms.iter().find(|m| m.name == *k) {
                Some(m) => m.ty.only_known(v),
                None => Err(format!("a member {k:?} is no member of the protocol")),
            }),
            _ => Ok(()),
        }
    }
}

impl Member {
    fn options(&self, k: usize, full: bool) -> Vec<(Option<Value>, bool, usize)> {
        let there = full || self.need == Need::Required;
        let mut out = vec![];
        let absent = (None, self.need != Need::Required, there as usize);
        if !there {
            out.push(absent.clone());
        }
        let extra = !there as usize;
        for v in self.ty.values(k.saturating_sub(extra), full) {
            if v.cost + extra <= k {
                out.push((Some(v.value), v.good, v.cost + extra));
            }
        }
        if there && k > 0 {
            out.push(absent);
        }
        if k > 0 {
            match self.need {
                Need::Optional if !matches!(self.ty, T::Any) => out.push((Some(Value::Null), true, 1)),
                Need::Required if !matches!(self.ty, T::Any | T::Kind) => out.push((Some(Value::Null), false, 1)),
                _ => {}
            }
        }
        out
    }
}
