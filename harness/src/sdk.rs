//! Templates written with the SDK against Sdk.tla: on the mock and, compiled to Wasm, in the runtime (K01).
use crate::common::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::Arc;
use svm_abi_decoder::ReturnData;
use svm_abi_encoder::{ByteSize, Encoder};
use svm_codec::Codec;
use svm_genesis_config::GenesisConfig;
use svm_runtime::{PriceResolverRegistry, Runtime, TemplatePriceCache};
use svm_sdk_types::{Address as SdkAddress, Amount};
use svm_state::{AccountStorage, GlobalState};
use svm_types::{Address, BytesPrimitive, Context, Envelope, Gas, Layer, SpawnAccount, State, Transaction, TransactionId};

fn beside(name: &str) -> std::path::PathBuf { std::env::current_exe().unwrap().with_file_name(name) }

pub fn mock(bin: &str, arg: &str, input: &str) -> Result<String, String> {
    let mut c = Command::new(beside(bin)).arg(arg).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let mut i = c.stdin.take().unwrap();
    let input = input.to_string();
    let h = std::thread::spawn(move || { let _ = i.write_all(input.as_bytes()); });
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    h.join().unwrap();
    if !o.status.success() { return Err(format!("the mock ended with {:?}", o.status)); }
    String::from_utf8(o.stdout).map_err(|e| e.to_string())
}

pub fn wasm(decl: &str) -> String { format!("{}/{}.wasm", std::env::var("CONF_WASM").unwrap_or_else(|_| "/repo/target/conf/sdk".into()), decl) }

/// The deploy message of a template, made by the command line tool out of what the SDK says about it.
pub fn craft(decl: &str, meta: &str) -> Result<Vec<u8>, String> {
    let (m, o) = (scratch("meta.json"), scratch("deploy"));
    std::fs::write(&m, meta).unwrap();
    let _ = std::fs::remove_file(&o);
    let r = Command::new(beside("svm-cli")).args(["craft-deploy", "--smwasm", &wasm(decl), "--meta"]).arg(&m).arg("-o").arg(&o).output().map_err(|e| e.to_string())?;
    if !r.status.success() { return Err(format!("svm-cli craft-deploy: {}", String::from_utf8_lossy(&r.stderr))); }
    std::fs::read(&o).map_err(|e| e.to_string())
}

type Buf = svm_sdk_std::Vec<u8>;
fn enc<T: Encoder + ByteSize>(v: T) -> Vec<u8> {
    let mut b = Buf::with_capacity(v.byte_size());
    v.encode(&mut b);
    b.as_slice().to_vec()
}
fn le<const N: usize>(b: &[u8]) -> [u8; N] { let mut a = [0; N]; a.copy_from_slice(b); a }
/// A value, given as bytes (the least significant first), as an argument.
pub fn arg(ty: &str, b: &[u8]) -> Vec<u8> {
    match ty {
        "bool" => enc(b[0] != 0), "i8" => enc(i8::from_le_bytes(le(b))), "u8" => enc(b[0]),
        "i16" => enc(i16::from_le_bytes(le(b))), "u16" => enc(u16::from_le_bytes(le(b))),
        "i32" => enc(i32::from_le_bytes(le(b))), "u32" => enc(u32::from_le_bytes(le(b))),
        "i64" => enc(i64::from_le_bytes(le(b))), "u64" => enc(u64::from_le_bytes(le(b))),
        "Amount" => enc(Amount(u64::from_le_bytes(le(b)))),
        "Address" => enc(SdkAddress::from(le::<20>(b))),
        x => panic!("type {}", x),
    }
}
pub fn result(ty: &str, b: &[u8]) -> Vec<u8> {
    let b: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
    let mut r = ReturnData::new(b);
    match ty {
        "bool" => vec![r.next_1::<bool>() as u8], "i8" => r.next_1::<i8>().to_le_bytes().to_vec(), "u8" => vec![r.next_1::<u8>()],
        "i16" => r.next_1::<i16>().to_le_bytes().to_vec(), "u16" => r.next_1::<u16>().to_le_bytes().to_vec(),
        "i32" => r.next_1::<i32>().to_le_bytes().to_vec(), "u32" => r.next_1::<u32>().to_le_bytes().to_vec(),
        "i64" => r.next_1::<i64>().to_le_bytes().to_vec(), "u64" => r.next_1::<u64>().to_le_bytes().to_vec(),
        "Amount" => r.next_1::<Amount>().0.to_le_bytes().to_vec(),
        "Address" => r.next_1::<SdkAddress>().as_slice().to_vec(),
        x => panic!("type {}", x),
    }
}

pub struct World { pub tok: Arc<tokio::runtime::Runtime>, pub gs: GlobalState, pub rt: Runtime, n: u8 }
pub struct Done { pub ok: bool, pub ret: Vec<u8>, pub logs: Vec<Vec<u8>>, pub err: String, pub addr: Option<Address>, pub touched: usize }
impl World {
    pub fn new() -> World {
        let tok = Arc::new(rt());
        let gs = tok.block_on(GlobalState::in_memory(GenesisConfig::mainnet()));
        let rt = Runtime::new(tok.clone(), gs.clone(), TemplatePriceCache::new(PriceResolverRegistry::default()));
        World { tok, gs, rt, n: 0 }
    }
    fn ctx(&mut self) -> (Envelope, Context) {
        self.n = self.n.wrapping_add(1);
        (Envelope::new(Address::repeat(0x77), 0, self.n as u128, Gas::new(), 1), Context::new(TransactionId([self.n; 32]), Layer(self.n as u64), State::zeros()))
    }
    pub fn deploy(&mut self, m: &[u8]) -> Result<svm_types::TemplateAddr, String> {
        let (e, c) = self.ctx();
        no_panic(|| {
            self.rt.validate_deploy(m).map_err(|e| format!("{:?}", e))?;
            let r = self.rt.deploy(&e, m, &c);
            if r.success { Ok(r.addr.unwrap()) } else { Err(format!("{:?}", r.error)) }
        }).unwrap_or_else(|p| Err(format!("panics: {}", p)))
    }
    pub fn spawn(&mut self, t: &svm_types::TemplateAddr, name: &str, ctor: &str, cd: Vec<u8>) -> Done {
        let (e, c) = self.ctx();
        let m = SpawnAccount::new(0, t, name, ctor, cd).encode_to_vec();
        no_panic(|| {
            let r = self.rt.spawn(&e, &m, &c);
            Done { ok: r.success, ret: r.returndata.clone().unwrap_or_default(), logs: r.logs.iter().map(|l| l.as_bytes().to_vec()).collect(), err: format!("{:?}", r.error), addr: r.account_addr.clone(), touched: r.touched_accounts.len() }
        }).unwrap_or_else(|p| Done { ok: false, ret: vec![], logs: vec![], err: format!("panics: {}", p), addr: None, touched: 0 })
    }
    pub fn call(&mut self, a: &Address, f: &str, cd: Vec<u8>) -> Done {
        let (e, c) = self.ctx();
        let m = Transaction { version: 0, target: a.clone(), func_name: f.into(), verifydata: vec![], calldata: cd }.encode_to_vec();
        no_panic(|| {
            let r = self.rt.call(&e, &m, &c);
            Done { ok: r.success, ret: r.returndata.clone().unwrap_or_default(), logs: r.logs.iter().map(|l| l.as_bytes().to_vec()).collect(), err: format!("{:?}", r.error), addr: None, touched: r.touched_accounts.len() }
        }).unwrap_or_else(|p| Done { ok: false, ret: vec![], logs: vec![], err: format!("panics: {}", p), addr: None, touched: 0 })
    }
    pub fn vars(&self, a: &Address, n: usize) -> Result<Vec<Vec<u8>>, String> {
        no_panic(|| self.tok.block_on(async {
            let s = AccountStorage::load(self.gs.clone(), a).await.map_err(|e| format!("{:?}", e))?;
            let mut v = vec![];
            for i in 0..n { v.push(s.get_var_vec(i as u32).await.map_err(|e| format!("{:?}", e))?); }
            Ok(v)
        })).unwrap_or_else(|p| Err(format!("panics: {}", p)))
    }
}

fn schema_of(meta: &Value) -> Value {
    json!(meta["schema"].as_array().map(|a| a.iter().map(|v| json!({"id": v["id"], "offset": v["offset"], "bytes": v["byte_count"],
        "ty": v["type"].as_str().unwrap_or("").trim_matches(|c| c == '[' || c == ']'), "len": v.get("length").cloned().unwrap_or(json!(0))})).collect::<Vec<_>>()).unwrap_or_default())
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let every = args.u64("wasm", 1) as usize;
    let mut metas: BTreeMap<String, String> = BTreeMap::new();
    let mut msgs: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (n, t) in traces(args.get("in").unwrap()) {
        let decl = t["decl"].as_str().unwrap().to_lowercase();
        let w = |j: i64| json!({"trace": n, "step": j, "decl": t["decl"], "steps": t["steps"].as_array().unwrap().iter().take(j.max(0) as usize + 1)
            .map(|s| json!({"op": s["op"], "f": s["f"], "i": s["i"], "hi": s["hi"], "v": s["v"]})).collect::<Vec<_>>()});
        rep.count("cases", 1);
        if !metas.contains_key(&decl) {
            match mock(&decl, "meta", "") { Ok(m) => { metas.insert(decl.clone(), m); } Err(e) => { rep.mismatch(&["K01"], "the template's description", json!("some"), json!(e), w(-1)); continue; } }
        }
        let meta: Value = serde_json::from_str(&metas[&decl]).unwrap_or(Value::Null);
        if schema_of(&meta) != t["schema"] { rep.mismatch(&["K01", "K02"], "the described variables", t["schema"].clone(), schema_of(&meta), w(-1)); }
        let steps = t["steps"].as_array().unwrap();
        // the mock
        let out: Vec<Value> = match mock(&decl, "run", &t.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
            Ok(o) => o,
            Err(e) => { rep.mismatch(&["K01"], "the template on the mock", json!("runs"), json!(e), w(-1)); continue; }
        };
        for (j, (s, o)) in steps.iter().zip(&out).enumerate() {
            rep.count("steps", 1);
            let exp = json!({"ok": s["ok"], "v": if s["op"] == "read" { s["v"].clone() } else { json!([]) }});
            let got = json!({"ok": o["ok"], "v": o["v"]});
            let all: Vec<Value> = o["all"].as_array().unwrap().iter().flat_map(|f| f.as_array().unwrap().clone()).collect();
            let mut bad = false;
            if exp != got { bad |= rep.mismatch(&["K01"], "an access to storage, on the mock", exp, got, w(j as i64)); }
            if json!(all) != s["vars"] { bad |= rep.mismatch(&["K01"], "the storage after an access, on the mock", s["vars"].clone(), json!(all), w(j as i64)); }
            if bad { break; }
        }
        // compiled, deployed and called
        if n % every != 0 { continue; }
        if !msgs.contains_key(&decl) {
            match craft(&decl, &metas[&decl]) { Ok(m) => { msgs.insert(decl.clone(), m); } Err(e) => { rep.mismatch(&["K02"], "crafting the deployment", json!("a message"), json!(e), w(-1)); continue; } }
        }
        let mut wd = World::new();
        let ta = match wd.deploy(&msgs[&decl]) { Ok(a) => a, Err(e) => { rep.mismatch(&["K02"], "deploying the template", json!("deployed"), json!(e), w(-1)); continue; } };
        let d = wd.spawn(&ta, "k", "initialize", vec![]);
        let a = match (d.ok, d.addr) { (true, Some(a)) => a, _ => { rep.mismatch(&["K02"], "spawning an account of the template", json!("spawned"), json!(d.err), w(-1)); continue; } };
        for (j, s) in steps.iter().enumerate() {
            if s["hi"] != 0 { continue; }
            rep.count("calls", 1);
            let f = s["f"].as_u64().unwrap() as usize - 1;
            let ty = t["fields"][f]["ty"].as_str().unwrap();
            let mut cd = if t["fields"][f]["len"] == 0 { vec![] } else { enc(s["i"].as_u64().unwrap() as u32) };
            let read = s["op"] == "read";
            if !read { cd.extend(arg(ty, &bytes_of(&s["v"]))); }
            let d = wd.call(&a, &format!("{}_f{}", s["op"].as_str().unwrap(), f), cd);
            let mut bad = false;
            if json!(d.ok) != s["ok"] { bad |= rep.mismatch(&["K01"], "an access to storage, in the runtime", s["ok"].clone(), json!({"ok": d.ok, "err": d.err}), w(j as i64)); }
            if read && d.ok {
                let v = no_panic(|| result(ty, &d.ret));
                if v != Ok(bytes_of(&s["v"])) { bad |= rep.mismatch(&["K01"], "the value read, in the runtime", s["v"].clone(), json!(format!("{:?}", v)), w(j as i64)); }
            }
            let nv = s["vars"].as_array().unwrap().len();
            match wd.vars(&a, nv) {
                Ok(v) if json!(v) == s["vars"] => {}
                v => bad |= rep.mismatch(&["K01"], "the account's variables after an access", s["vars"].clone(), json!(format!("{:?}", v)), w(j as i64)),
            }
            if bad { break; }
        }
        rep.sample(json!({"decl": t["decl"], "first": steps.get(0).map(|s| json!({"op": s["op"], "f": s["f"], "i": s["i"], "v": s["v"]}))}));
    }
    rep.finish();
}
