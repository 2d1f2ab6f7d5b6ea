//! The C interface against Ffi.tla.
use crate::common::*;
use crate::prog::*;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout as MemLayout, System};
use std::collections::BTreeSet;
use std::ffi::c_void;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use svm_codec::Codec;
use svm_runtime_ffi::*;
use svm_types::{Address, BytesPrimitive, Context, Envelope, Gas, Layer, Receipt, SpawnAccount, State, Transaction, TransactionId};

/// The system's allocator, with one block under watch: how often it is given back is counted, and it stays there.
pub struct Watcher;
static WATCHED: AtomicUsize = AtomicUsize::new(0);
static FREED: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Watcher {
    unsafe fn alloc(&self, l: MemLayout) -> *mut u8 { System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: MemLayout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: MemLayout) {
        if p as usize == WATCHED.load(SeqCst) && !p.is_null() { FREED.fetch_add(1, SeqCst); } else { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: MemLayout, n: usize) -> *mut u8 {
        if p as usize == WATCHED.load(SeqCst) {
            let q = System.alloc(MemLayout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            q
        } else { System.realloc(p, l, n) }
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Raw { receipt: *mut u8, error: *mut u8, size: u32 }

#[derive(Debug, Clone, PartialEq)]
enum Ans { Ok, Err(String), Receipt(Vec<u8>) }

struct Place { ptr: *mut c_void, live: bool, file: bool, tids: BTreeSet<u32>, roots: Vec<Option<Vec<u8>>> }

fn tids() -> BTreeSet<u32> {
    std::fs::read_dir("/proc/self/task").unwrap().filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect()
}
fn open_files(path: &str) -> usize {
    std::fs::read_dir("/proc/self/fd").unwrap().filter_map(|e| std::fs::read_link(e.ok()?.path()).ok()).filter(|l| l.to_string_lossy().starts_with(path)).count()
}
fn within(mut f: impl FnMut() -> bool) -> bool {
    for _ in 0..1000 {
        if f() { return true; }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    false
}

/// Reads an answer, checks its shape, and disposes of it in one of several ways.
fn take(f: impl FnOnce() -> svm_result_t, solo: bool, way: usize) -> Result<Ans, String> {
    let r = no_panic(f).map_err(|p| format!("unwinds into the caller: {}", p))?;
    let raw: Raw = unsafe { std::mem::transmute_copy(&r) };
    if std::mem::size_of::<Raw>() != std::mem::size_of::<svm_result_t>() { return Err("the result has another layout".into()); }
    let bytes = |p: *mut u8| unsafe { std::slice::from_raw_parts(p, raw.size as usize).to_vec() };
    let a = match (raw.receipt.is_null(), raw.error.is_null()) {
        (true, true) => Ans::Ok,
        (false, true) => Ans::Receipt(bytes(raw.receipt)),
        (true, false) => Ans::Err(String::from_utf8(bytes(raw.error)).map_err(|_| "an error that is not text")?),
        _ => return Err("both a receipt and an error".into()),
    };
    if r.is_ok() == matches!(a, Ans::Err(_)) || r.is_err() != matches!(a, Ans::Err(_)) { return Err("is_ok or is_err is wrong".into()); }
    if r.receipt().map(|x| x.to_vec()) != (if let Ans::Receipt(b) = &a { Some(b.clone()) } else { None }) { return Err("receipt() is wrong".into()); }
    if let Ans::Err(m) = &a { if m.trim().is_empty() { return Err("an error without a message".into()); } }
    let p = if raw.receipt.is_null() { raw.error } else { raw.receipt };
    if !solo || raw.size == 0 {
        unsafe { svm_free_result(r) };
        return Ok(a);
    }
    FREED.store(0, SeqCst);
    WATCHED.store(p as usize, SeqCst);
    let n = || FREED.load(SeqCst);
    let mut bad = None;
    match way % 4 {
        1 => drop(r),
        2 if matches!(a, Ans::Receipt(_)) => {
            let v = r.unwrap().unwrap_or_default();
            let own = v.as_ptr() == p as *const u8;
            if own && n() != 0 { bad = Some("unwrap returns memory that it has given back"); }
            if !own && n() != 1 { bad = Some("unwrap copies the receipt and loses the original"); }
            if bad.is_none() && Ans::Receipt(v.clone()) != a { bad = Some("unwrap returns another receipt"); }
            if bad.is_some() { std::mem::forget(v) } else { drop(v) }
        }
        3 => {
            let c = r.clone();
            drop(c);
            if n() != 0 { bad = Some("dropping a copy of a result gives back the result's memory"); std::mem::forget(r); }
            else { unsafe { svm_free_result(r) } }
        }
        _ => unsafe { svm_free_result(r) },
    }
    if bad.is_none() && n() != 1 { bad = Some(if n() == 0 { "the memory of a result is never given back" } else { "the memory of a result is given back twice" }); }
    WATCHED.store(0, SeqCst);
    unsafe { System.dealloc(p, MemLayout::from_size_align_unchecked(raw.size as usize, 1)) };
    match bad { Some(b) => Err(b.into()), None => Ok(a) }
}

pub struct Lib { solo: bool, tmpl: Tmpl, profile: usize, way: usize, path: String, places: Vec<Place> }

fn program() -> Value {
    let o = |o: &str, a: i64, b: i64| json!({"o": o, "a": a, "b": b, "c": 0});
    let f = |ctor: bool, body: Vec<Value>| json!({"ctor": ctor, "exp": true, "sig": "ok", "body": body});
    json!({"alloc": "good", "vfy": "valid", "fns": [
        f(true, vec![o("set", 1, 1), o("logvar", 1, 0)]),
        f(true, vec![o("set", 1, 3), o("trap", 0, 0)]),
        f(true, vec![o("set", 1, 3), o("badvar", 0, 0)]),
        f(false, vec![o("inc", 1, 0), o("logvar", 1, 0)]),
        f(false, vec![o("inc", 1, 0), o("trap", 0, 0)]),
        f(false, vec![o("inc", 1, 0), o("badvar", 0, 0)])]})
}

impl Lib {
    pub fn new(solo: bool, n: usize, nh: usize) -> Lib {
        let path = scratch(&format!("ffi-{}-{}.db", std::process::id(), n)).to_string_lossy().into_owned();
        let _ = std::fs::remove_file(&path);
        let places = (0..nh).map(|_| Place { ptr: null_mut(), live: false, file: false, tids: Default::default(), roots: vec![] }).collect();
        Lib { solo, tmpl: Tmpl::new(&program(), (n % 3) as u32 * 5, "ffi", &[], n % 3), profile: n % 3, way: n, path, places }
    }
    fn addr(&self, a: usize) -> Address {
        if a == 1 { self.tmpl.account.clone() } else { let mut b = [[0u8; 20], [0xff; 20]][self.profile % 2]; b[[0, 19][self.way / 2 % 2]] ^= a as u8; Address::from(b) }
    }
    fn f(&self, i: usize) -> String { fn_name(i, self.profile) }
    fn spoil(&self, m: &[u8], n: usize) -> Vec<u8> {
        match n % 5 {
            0 => vec![],
            1 => m[..m.len() - 1].to_vec(),
            2 => m[..m.len() / 2].to_vec(),
            3 => vec![0xff; m.len().min(300)],
            _ => m[..(n / 5) % m.len()].to_vec(),
        }
    }
    /// The message of a request: well-formed, or not.
    fn message(&self, kind: &str, how: &str, n: usize) -> Vec<u8> {
        let m = match kind {
            "deploy" => self.tmpl.deploy_message((n % 3 + 1) as i64),
            "spawn" => {
                let f = match how { "trap" => self.f(2), "panic" => self.f(3), "notctor" => self.f(4), _ => self.f(1) };
                SpawnAccount::new(0, &self.tmpl.addr, &name((n % 4) as i64), &f, vec![]).encode_to_vec()
            }
            _ => {
                let f = match how { "trap" => self.f(5), "panic" => self.f(6), "nofunc" => "nope".into(), _ => self.f(4) };
                Transaction { version: 0, target: self.addr(1), func_name: f, verifydata: vec![], calldata: vec![] }.encode_to_vec()
            }
        };
        if how == "malformed" { self.spoil(&m, n) } else { m }
    }
    fn ptr(&self, h: usize, j: usize) -> *mut c_void {
        let live: Vec<_> = self.places.iter().filter(|p| p.live).map(|p| p.ptr).collect();
        if h > 0 {
            let p = &self.places[h - 1];
            if p.live || (self.solo && !p.ptr.is_null() && !live.contains(&p.ptr)) { return p.ptr; }
        }
        match (j % 3, live.first()) { (0, _) => null_mut(), (1, Some(p)) => (*p as usize + 8) as *mut c_void, _ => 0x10 as *mut c_void }
    }

    fn call(&mut self, j: usize, s: &Value) -> Result<Ans, String> {
        let h = s["h"].as_u64().unwrap() as usize;
        let a = &s["args"];
        let n = |k: &str| a[k].as_u64().unwrap();
        let rt = self.ptr(h, j);
        let (solo, way) = (self.solo, self.way + j);
        let env = Envelope::new(self.addr(2), 5, j as u128, Gas::new(), 1).encode_to_vec();
        let ctx = Context::new(TransactionId([j as u8; 32]), Layer(j as u64), State::zeros()).encode_to_vec();
        let msg = match s["op"].as_str().unwrap() {
            k @ "deploy" => self.message(k, if a["good"] == true { "" } else { "malformed" }, n("n") as usize),
            k @ "spawn" | k @ "call" => self.message(k, a["how"].as_str().unwrap(), n("n") as usize),
            "verify" => self.message("call", a["how"].as_str().unwrap(), n("n") as usize),
            "validate" => self.message(a["kind"].as_str().unwrap(), if a["good"] == true { "" } else { "malformed" }, n("n") as usize),
            _ => vec![],
        };
        let (e, c, m, len) = (env.as_ptr(), ctx.as_ptr(), if msg.is_empty() { env.as_ptr() } else { msg.as_ptr() }, msg.len() as u32);
        let adr = |k: &str| self.addr(n(k) as usize);
        match s["op"].as_str().unwrap() {
            "init" => take(|| svm_init(), solo, way),
            "create" => {
                let path: Vec<u8> = match a["where"].as_str().unwrap() {
                    "file" => format!("sqlite://{}?mode=rwc", self.path).into_bytes(),
                    "nottext" => vec![b's', 0xff, 0xfe, b'/'],
                    "nofile" => format!("sqlite://{}/no/such/place?mode=rw", self.path).into_bytes(),
                    _ => vec![],
                };
                let before = tids();
                let mut p = null_mut();
                let r = take(|| unsafe { svm_runtime_create(&mut p, if path.is_empty() { std::ptr::null() } else { path.as_ptr() }, path.len() as u32) }, solo, way);
                if let Ok(Ans::Ok) = r {
                    if p.is_null() { return Err("success without a runtime".into()); }
                    let t = if solo { tids().difference(&before).cloned().collect() } else { BTreeSet::new() };
                    self.places[h - 1] = Place { ptr: p, live: true, file: a["where"] == "file", tids: t, roots: vec![] };
                }
                r
            }
            "destroy" => {
                let r = take(|| svm_runtime_destroy(rt), solo, way);
                if h > 0 && self.places[h - 1].live && r == Ok(Ans::Ok) {
                    self.places[h - 1].live = false;
                    let mine = self.places[h - 1].tids.clone();
                    if solo && !within(|| tids().is_disjoint(&mine)) { 
                        let names: Vec<String> = tids().intersection(&mine).map(|t| std::fs::read_to_string(format!("/proc/self/task/{}/comm", t)).unwrap_or_default()).collect();
                        return Err(format!("threads of a destroyed runtime live on: {:?}", names));
                    }
                    if solo && !self.places.iter().any(|p| p.live && p.file) {
                        let path = self.path.clone();
                        if !within(|| open_files(&path) == 0) { return Err("the database of a destroyed runtime stays open".into()); }
                    }
                }
                r
            }
            "validate" => take(|| unsafe { match a["kind"].as_str().unwrap() { "deploy" => svm_validate_deploy(rt, m, len), "spawn" => svm_validate_spawn(rt, m, len), _ => svm_validate_call(rt, m, len) } }, solo, way),
            "deploy" => take(|| unsafe { svm_deploy(rt, e, m, len, c) }, solo, way),
            "spawn" => take(|| unsafe { svm_spawn(rt, e, m, len, c) }, solo, way),
            "call" => take(|| unsafe { svm_call(rt, e, m, len, c) }, solo, way),
            "verify" => take(|| unsafe { svm_verify(rt, e, m, len, c) }, solo, way),
            "genesis" => { let (x, k) = (adr("a"), ctr(n("ctr") as i64)); take(|| unsafe { svm_create_genesis_account(rt, x.as_slice().as_ptr(), n("bal") * COIN, (k >> 64) as u64, k as u64) }, solo, way) }
            "increase" => { let x = adr("a"); take(|| unsafe { svm_increase_balance(rt, x.as_slice().as_ptr(), n("n") * COIN) }, solo, way) }
            "transfer" => { let (x, y) = (adr("a"), adr("b")); take(|| unsafe { svm_transfer(rt, x.as_slice().as_ptr(), y.as_slice().as_ptr(), n("n") * COIN) }, solo, way) }
            "commit" => take(|| unsafe { svm_commit(rt) }, solo, way),
            "rewind" => {
                let l = n("l");
                let l = match l { 0 => [u64::MAX, 1 << 63, i64::MAX as u64][j % 3], l => l - 2 };
                take(|| unsafe { svm_rewind(rt, l) }, solo, way)
            }
            "account" => {
                let x = adr("a");
                let mut acc = svm_account::default();
                let p: *mut svm_account = if a["null"] == true { null_mut() } else { &mut acc };
                take(|| unsafe { svm_get_account(rt, x.as_slice().as_ptr(), p) }, solo, way)
            }
            "uncommitted" => take(|| unsafe { svm_uncommitted_changes(rt) }, solo, way),
            "layerinfo" => { let (mut x, mut l) = ([0u8; 32], 0u64); take(|| unsafe { svm_layer_info(rt, x.as_mut_ptr(), &mut l) }, solo, way) }
            x => panic!("operation {}", x),
        }
    }

    /// Everything that can be read of every live runtime.
    fn compare(&mut self, st: &Value) -> Option<(String, Value, Value)> {
        for h in 0..self.places.len() {
            let e = &st[h];
            if e["live"] != self.places[h].live { return Some((format!("runtime {} lives", h + 1), e["live"].clone(), json!(self.places[h].live))); }
            if !self.places[h].live { continue; }
            let rt = self.places[h].ptr;
            let accts = e["st"]["acct"].as_array().unwrap();
            for a in 1..=accts.len() + 1 {
                let x = self.addr(a);
                let mut acc = svm_account::default();
                let got = match take(|| unsafe { svm_get_account(rt, x.as_slice().as_ptr(), &mut acc) }, false, 0) {
                    Ok(Ans::Ok) => json!({"bal": acc.balance, "ctr": acc.counter().to_string(), "tmpl": hex(&acc.template_addr)}),
                    Ok(Ans::Err(_)) => json!("none"),
                    y => json!(format!("{:?}", y)),
                };
                let exp = match accts.get(a - 1) {
                    Some(v) if v["ex"] == true => json!({"bal": v["bal"].as_u64().unwrap() * COIN, "ctr": ctr(v["ctr"].as_i64().unwrap()).to_string(),
                        "tmpl": hex(if a == 1 { self.tmpl.addr.as_slice().to_vec() } else { svm_genesis_config::sct().0.as_slice().to_vec() }.as_slice())}),
                    _ => json!("none"),
                };
                if exp != got { return Some((format!("account {} of runtime {}", a, h + 1), exp, got)); }
            }
            let d = take(|| unsafe { svm_uncommitted_changes(rt) }, false, 0);
            if matches!(d, Ok(Ans::Err(_))) != (e["dirty"] == true) || d.is_err() { return Some((format!("uncommitted changes of runtime {}", h + 1), e["dirty"].clone(), json!(format!("{:?}", d)))); }
            let l = e["layer"].as_u64().unwrap() as usize;
            if l > 1 {
                let (mut x, mut n) = (vec![0u8; 32], 0u64);
                let r = take(|| unsafe { svm_layer_info(rt, x.as_mut_ptr(), &mut n) }, false, 0);
                if r != Ok(Ans::Ok) || n as usize != l - 2 { return Some((format!("layer of runtime {}", h + 1), json!(l - 2), json!(format!("{:?} {}", r, n)))); }
                let roots = &mut self.places[h].roots;
                roots.truncate(l + 1);
                roots.resize(l + 1, None);
                if let Some(was) = &roots[l] { if *was != x { return Some((format!("root of layer {} of runtime {}", l - 2, h + 1), json!(hex(was)), json!(hex(&x)))); } }
                roots[l] = Some(x);
            } else { self.places[h].roots.clear(); }
        }
        None
    }

    /// Replays one behaviour; the first mismatch, if any.
    pub fn run(&mut self, t: &Value, prelude: bool, stats: &mut dyn FnMut(&str)) -> Option<(usize, String, Value, Value)> {
        for (j, s) in t["steps"].as_array().unwrap().iter().enumerate() {
            if j < 2 && !prelude { continue; }
            let exp = s["res"].as_str().unwrap().to_string();
            let got = self.call(j, s);
            stats(&format!("{} {}", s["op"].as_str().unwrap(), exp));
            let class = match &got {
                Err(e) => e.clone(),
                Ok(Ans::Ok) => "ok".to_string(),
                Ok(Ans::Err(_)) => "err".to_string(),
                Ok(Ans::Receipt(b)) => match Receipt::decode_bytes(b) {
                    Err(e) => format!("a receipt that cannot be read: {:?}", e),
                    Ok(r) => {
                        let kind = match &r { Receipt::Deploy(_) => "deploy", Receipt::Spawn(_) => "spawn", Receipt::Call(_) => "call" };
                        let op = s["op"].as_str().unwrap();
                        if kind != if op == "verify" { "call" } else { op } { format!("a receipt of a {}", kind) }
                        else if r.success() {
                            let st = &s["hs"][s["h"].as_u64().unwrap() as usize - 1]["st"];
                            let log = hex(&var_bytes(0, st["v"].as_i64().unwrap()));
                            let logs: Vec<String> = r.logs().iter().map(|l| hex(l.as_bytes())).collect();
                            if op == "deploy" || op == "verify" || logs == [log.clone()] { "done".into() } else { format!("logs {:?} instead of {}", logs, log) }
                        } else { "failed".into() }
                    }
                },
            };
            let fits = class == exp || exp == "any" && ["ok", "err", "done", "failed"].contains(&class.as_str());
            if !fits { return Some((j, s["op"].as_str().unwrap().to_string(), json!(exp), json!([class, format!("{:?}", got).chars().take(400).collect::<String>()]))); }
            if self.solo && svm_runtimes_count() != s["count"].as_u64().unwrap() { return Some((j, "number of runtimes".into(), s["count"].clone(), json!(svm_runtimes_count()))); }
            match no_panic(|| self.compare(&s["hs"])) {
                Ok(None) => (),
                Ok(Some((w, e, g))) => return Some((j, w, e, g)),
                Err(p) => return Some((j, "reading".into(), json!("no panic"), json!(p))),
            }
        }
        None
    }
    /// Destroys what is left.
    pub fn finish(mut self) -> Option<String> {
        let mut bad = None;
        for h in 0..self.places.len() {
            if self.places[h].live {
                let p = self.places[h].ptr;
                match take(|| svm_runtime_destroy(p), false, 0) { Ok(Ans::Ok) => (), x => bad = Some(format!("destroy: {:?}", x)) }
                self.places[h].live = false;
            }
        }
        let _ = std::fs::remove_file(&self.path);
        for x in ["-wal", "-shm", "-journal"] { let _ = std::fs::remove_file(format!("{}{}", self.path, x)); }
        bad
    }
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let all: Vec<(usize, Value)> = traces(&args.str("in", "")).collect();
    let nh = all.get(0).map(|(_, t)| t["steps"][0]["hs"].as_array().unwrap().len()).unwrap_or(1);
    let mut broken = 0;
    for (n, t) in &all {
        let mut lib = Lib::new(true, *n, nh);
        let r = lib.run(t, *n == 0, &mut |k| { rep.count("steps", 1); rep.count(&format!("op {}", k), 1); });
        rep.count("behaviours", 1);
        if let Some((j, what, e, g)) = r {
            rep.mismatch(&["F01"], &what, e, g, json!({"behaviour": t["steps"].as_array().unwrap()[..=j].iter().map(|s| json!([s["op"], s["h"], s["args"], s["res"]])).collect::<Vec<_>>()}));
            broken += 1;
        }
        if let Some(b) = lib.finish() { rep.mismatch(&["F01"], "at the end", json!("every runtime can be destroyed"), json!(b), json!(n)); broken += 1; }
        if broken > 5 { break; }
    }
    // the same behaviours, several at a time, each with runtimes of its own
    if broken == 0 {
        let next = AtomicUsize::new(0);
        let found = Mutex::new(vec![]);
        let k = args.u64("threads", 4) as usize;
        let limit = args.u64("concurrent", 40) as usize;
        let next = &next;
        let found = &found;
        let all = &all;
        crossbeam(k, &|| loop {
            let i = next.fetch_add(1, SeqCst);
            if i >= all.len() || i >= limit { break; }
            let (n, t) = &all[i];
            let mut lib = Lib::new(false, 1_000_000 + *n, nh);
            let r = lib.run(t, false, &mut |_| ());
            let b = lib.finish();
            if let Some((j, what, e, g)) = r { found.lock().unwrap().push((what, e, g, json!({"behaviour": n, "step": j}))); }
            if let Some(b) = b { found.lock().unwrap().push(("at the end".into(), json!("every runtime can be destroyed"), json!(b), json!(n))); }
        });
        rep.count("concurrent behaviours", all.len().min(limit) as u64);
        for (w, e, g, at) in found.lock().unwrap().drain(..) { rep.mismatch(&["F01"], &format!("{} (concurrently)", w), e, g, at); }
        if svm_runtimes_count() != 0 { rep.mismatch(&["F01"], "number of runtimes at the end", json!(0), json!(svm_runtimes_count()), json!(null)); }
    }
    rep.finish();
}

/// k threads that borrow.
fn crossbeam(k: usize, f: &(dyn Fn() + Sync)) {
    let p: usize = unsafe { std::mem::transmute::<&&(dyn Fn() + Sync), usize>(&f) };
    let t: Vec<_> = (0..k).map(|_| std::thread::spawn(move || { let f: &&(dyn Fn() + Sync) = unsafe { std::mem::transmute(p) }; f() })).collect();
    for x in t { x.join().unwrap(); }
}
