//! serde_json, with the library's encoders and decoders counted as they are called.

use serde::{de::DeserializeOwned, Serialize};
use serde_json::{Result, Value};
use std::cell::Cell;

thread_local! {
    pub static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn count() {
    CALLS.set(CALLS.get() + 1);
}
pub fn from_value<T: DeserializeOwned>(v: Value) -> Result<T> {
    count();
    serde_json::from_value(v)
}
pub fn from_str<'a, T: serde::Deserialize<'a>>(s: &'a str) -> Result<T> {
    count();
    serde_json::from_str(s)
}
pub fn from_slice<'a, T: serde::Deserialize<'a>>(s: &'a [u8]) -> Result<T> {
    count();
    serde_json::from_slice(s)
}
pub fn from_reader<R: std::io::Read, T: DeserializeOwned>(r: R) -> Result<T> {
    count();
    serde_json::from_reader(r)
}
pub fn to_value<T: Serialize>(t: T) -> Result<Value> {
    count();
    serde_json::to_value(t)
}
pub fn to_string<T: Serialize + ?Sized>(t: &T) -> Result<String> {
    count();
    serde_json::to_string(t)
}
