//! Drives a template compiled against the SDK's mock, as told on the standard input.
#![allow(warnings)]
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use svm_sdk_mock::{Address, Amount};

/// A storage cell's value as bytes, least significant first.
pub trait Cell: Sized {
    fn bytes(self) -> Vec<u8>;
    fn of(b: &[u8]) -> Self;
}
macro_rules! num {
    ($($t:ty),*) => { $(impl Cell for $t {
        fn bytes(self) -> Vec<u8> { self.to_le_bytes().to_vec() }
        fn of(b: &[u8]) -> Self { let mut a = [0u8; std::mem::size_of::<$t>()]; a.copy_from_slice(b); <$t>::from_le_bytes(a) }
    })* };
}
num!(i8, u8, i16, u16, i32, u32, i64, u64);
impl Cell for bool {
    fn bytes(self) -> Vec<u8> { vec![self as u8] }
    fn of(b: &[u8]) -> Self { b[0] != 0 }
}
impl Cell for Amount {
    fn bytes(self) -> Vec<u8> { self.0.bytes() }
    fn of(b: &[u8]) -> Self { Amount(u64::of(b)) }
}
impl Cell for Address {
    fn bytes(self) -> Vec<u8> { self.as_slice().to_vec() }
    fn of(b: &[u8]) -> Self { let mut a = [0u8; 20]; a.copy_from_slice(b); a.into() }
}

pub fn bytes_of(v: &Value) -> Vec<u8> { v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default() }
fn caught<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }
pub fn stdin() -> Value { serde_json::from_reader(std::io::stdin()).unwrap() }

pub fn run(get: fn(usize, usize) -> Vec<u8>, set: fn(usize, usize, &[u8]), meta: fn() -> String) {
    std::panic::set_hook(Box::new(|_| {}));
    if std::env::args().nth(1).as_deref() == Some("meta") { print!("{}", meta()); return; }
    let t = stdin();
    let lens: Vec<usize> = t["fields"].as_array().unwrap().iter().map(|f| f["len"].as_u64().unwrap() as usize).collect();
    let mut out = vec![];
    for s in t["steps"].as_array().unwrap() {
        let n = |k: &str| s[k].as_u64().unwrap() as usize;
        let (f, i) = (n("f") - 1, n("i") + (n("hi") << 32));
        let r = match s["op"].as_str().unwrap() {
            "read" => caught(|| get(f, i)),
            _ => caught(|| { set(f, i, &bytes_of(&s["v"])); vec![] }),
        };
        let all: Vec<Vec<Option<Vec<u8>>>> = lens.iter().enumerate().map(|(f, n)| (0..(*n).max(1)).map(|i| caught(|| get(f, i))).collect()).collect();
        out.push(json!({"ok": r.is_some(), "v": r.unwrap_or_default(), "all": all}));
    }
    println!("{}", json!(out));
}
