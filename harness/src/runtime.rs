//! Replays behaviours of Runtime.tla on the real runtime (R01-R09).
use crate::common::*;
use crate::prog::*;
use crate::storage::guard;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;
use svm_codec::Codec;
use svm_genesis_config::GenesisConfig;
use svm_runtime::{PriceResolverRegistry, Runtime, TemplatePriceCache};
use svm_state::{AccountStorage, GlobalState, StorageError, TemplateStorage};
use svm_types::{
    Address, BytesPrimitive, Context, Envelope, Gas, Layer, ReceiptLog, RuntimeError, Sections, SpawnAccount, State,
    Transaction, TransactionId,
};

/// What an operation answered.
#[derive(Default, Clone, Debug, PartialEq)]
struct Obs {
    ok: bool,
    err: Vec<String>, // the kind of error and its details; ["panic"] if the host panicked
    logs: Vec<String>,
    ret: String,
    touched: Vec<String>,
    root: String,
    addr: String,
    gas: Option<u64>,
    bytes: String,
}
impl Obs {
    fn json(&self) -> Value {
        json!({"ok": self.ok, "err": self.err, "logs": self.logs, "ret": self.ret, "touched": self.touched, "addr": self.addr})
    }
}

fn h<const N: usize>(x: &impl BytesPrimitive<N>) -> String { hex(x.as_slice()) }
fn err_of(e: &RuntimeError) -> Vec<String> {
    use RuntimeError::*;
    match e {
        OOG => vec!["OOG".into()],
        TemplateNotFound(t) => vec!["TemplateNotFound".into(), h(t)],
        AccountNotFound(a) => vec!["AccountNotFound".into(), h(a)],
        CompilationFailed { target, template, .. } => vec!["CompilationFailed".into(), h(target), h(template)],
        InstantiationFailed { target, template, .. } => vec!["InstantiationFailed".into(), h(target), h(template)],
        FuncNotFound { target, template, func } => vec!["FuncNotFound".into(), h(target), h(template), func.clone()],
        FuncFailed { target, template, func, .. } => vec!["FuncFailed".into(), h(target), h(template), func.clone()],
        FuncNotCtor { template, func } => vec!["FuncNotCtor".into(), h(template), func.clone()],
        FuncNotAllowed { target, template, func, .. } => vec!["FuncNotAllowed".into(), h(target), h(template), func.clone()],
        FuncInvalidSignature { target, template, func } => vec!["FuncInvalidSignature".into(), h(target), h(template), func.clone()],
    }
}
fn logs_of(l: &[ReceiptLog]) -> Vec<String> { l.iter().map(|x| hex(x.as_bytes())).collect() }
fn touched_of(t: &HashSet<Address>) -> Vec<String> {
    let mut v: Vec<String> = t.iter().map(h).collect();
    v.sort();
    v
}

struct Case { prog: Vec<Tmpl>, nt: usize, na: usize, n: usize }
impl Case {
    fn addr(&self, a: usize) -> Address { if a <= self.nt { self.prog[a - 1].account.clone() } else { ext(a, self.n) } }
    fn fname(&self, f: i64) -> String { fn_name(f as usize, self.n) .replace("f0", "missing") }
}
fn ext(a: usize, n: usize) -> Address {
    let mut b = match n % 3 { 0 => [0u8; 20], 1 => [0xff; 20], _ => { let mut b = [7u8; 20]; b[3] = 9; b } };
    b[[19, 0, 10][(n / 3) % 3]] ^= a as u8 + 0x10;
    Address::from(b)
}
fn init_value(v: &Value) -> i64 { v.as_i64().unwrap() }

struct World { tok: Arc<tokio::runtime::Runtime>, gs: GlobalState, rt: Runtime }
impl World {
    fn open(tok: &Arc<tokio::runtime::Runtime>, uri: Option<&str>) -> World {
        let gs = match uri {
            Some(u) => tok.block_on(GlobalState::new(u, GenesisConfig::mainnet())),
            None => tok.block_on(GlobalState::in_memory(GenesisConfig::mainnet())),
        };
        let rt = Runtime::new(tok.clone(), gs.clone(), TemplatePriceCache::new(PriceResolverRegistry::default()));
        World { tok: tok.clone(), gs, rt }
    }

    fn exec(&mut self, c: &Case, j: usize, op: &str, a: &Value) -> (Obs, u64) {
        let n = |k: &str| a[k].as_i64().unwrap();
        let u = |k: &str| a[k].as_u64().unwrap() as usize;
        let tx_id = TransactionId([j as u8 + 1; 32]);
        let ctx = Context::new(tx_id, Layer(1000 + j as u64), State::from([j as u8; 32]));
        let who = a.get("who").and_then(|w| w.as_u64()).map(|w| c.addr(w as usize)).unwrap_or_else(Address::zeros);
        let env = |gas| Envelope::new(who.clone(), 17 * j as u64, j as u128, gas, 3);
        let mut price = 0;
        let w = self;
        let mut spawn = |w: &mut World, t: usize, name: String, ctor: &str, cd: Vec<u8>, gas: &dyn Fn(u64) -> Gas| {
            let m = SpawnAccount::new((j % 3) as u16, &c.prog[t].addr, &name, ctor, cd).encode_to_vec();
            if let Err(e) = w.rt.validate_spawn(&m) { return Obs { err: vec!["validation".into(), format!("{:?}", e)], ..Obs::default() }; }
            let r = w.rt.spawn(&env(gas(m.len() as u64)), &m, &ctx);
            Obs {
                ok: r.success, err: r.error.as_ref().map(err_of).unwrap_or_default(), logs: logs_of(&r.logs),
                ret: r.returndata.as_ref().map(|x| hex(x)).unwrap_or_default(), touched: touched_of(&r.touched_accounts),
                root: r.init_state.as_ref().map(h).unwrap_or_default(), addr: r.account_addr.as_ref().map(h).unwrap_or_default(),
                gas: None, bytes: hex(&r.encode_to_vec()),
            }
        };
        let call = |w: &mut World, verify: bool, target: Address, f: &str, cd: Vec<u8>| {
            let (v, cd) = if verify { (cd, vec![1, 2, 3]) } else { (vec![4, 5], cd) };
            let m = Transaction { version: (j % 3) as u16, target, func_name: f.into(), verifydata: v, calldata: cd }.encode_to_vec();
            if let Err(e) = w.rt.validate_call(&m) { return Obs { err: vec!["validation".into(), format!("{:?}", e)], ..Obs::default() }; }
            let gas = if j % 2 == 0 { Gas::new() } else { Gas::with(1 << 40) };
            let r = if verify { w.rt.verify(&env(gas), &m, &ctx) } else { w.rt.call(&env(gas), &m, &ctx) };
            Obs {
                ok: r.success, err: r.error.as_ref().map(err_of).unwrap_or_default(), logs: logs_of(&r.logs),
                ret: r.returndata.as_ref().map(|x| hex(x)).unwrap_or_default(), touched: touched_of(&r.touched_accounts),
                root: r.new_state.as_ref().map(h).unwrap_or_default(), addr: String::new(), gas: None, bytes: hex(&r.encode_to_vec()),
            }
        };
        let cd = |k: &Value| calldata(k, &|s| c.addr(s));
        let done = |r: Result<(), String>| match r { Ok(()) => Obs { ok: true, ..Obs::default() }, Err(e) => Obs { err: vec!["err".into(), e], ..Obs::default() } };
        let r = no_panic(|| match op {
            "deploy" => {
                let m = c.prog[u("t") - 1].deploy_message(n("hdr"));
                price = n("perbyte") as u64 * m.len() as u64;
                let gas = match a["lim"].as_str().unwrap() {
                    "none" => Gas::new(),
                    "below" => Gas::with(price - 1),
                    "equal" => Gas::with(price),
                    "above" => Gas::with(price + 1),
                    _ => Gas::with(1),
                };
                let r = w.rt.deploy(&env(gas), &m, &ctx);
                Obs {
                    ok: r.success, err: r.error.as_ref().map(err_of).unwrap_or_default(), logs: logs_of(&r.logs), addr: r.addr.as_ref().map(h).unwrap_or_default(),
                    gas: if r.gas_used.is_some() { Some(r.gas_used.unwrap()) } else { None }, bytes: hex(&r.encode_to_vec()), ..Obs::default()
                }
            }
            "spawn" => {
                let lim = a["lim"].as_str().unwrap().to_string();
                let (pb, p) = (n("perbyte") as u64, n("price") as u64);
                let gas = move |len: u64| match lim.as_str() {
                    "none" => Gas::new(),
                    "below" => Gas::with(pb * len + p - 1),
                    "equal" => Gas::with(pb * len + p),
                    "above" => Gas::with(pb * len + p + 1),
                    "payload" => Gas::with(pb * len + 1),
                    _ => Gas::with(1),
                };
                spawn(w, u("t") - 1, name(n("name")), &c.fname(n("f")), cd(&a["cd"]), &gas)
            }
            "spawnname" => spawn(w, u("t") - 1, "x".into(), a["name"].as_str().unwrap(), vec![], &|_| Gas::new()),
            "call" => call(w, false, c.addr(u("a")), &c.fname(n("f")), cd(&a["cd"])),
            "callname" => call(w, false, c.addr(u("a")), a["name"].as_str().unwrap(), vec![]),
            "verify" => call(w, true, c.addr(u("a")), &c.fname(3), cd(&a["cd"])),
            "create" => {
                let t = c.prog[u("tmpl") - 1].addr.clone();
                done(w.rt.create_account(&c.addr(u("a")), t, name(n("name")), n("bal") as u64 * COIN, ctr(n("ctr"))).map_err(|e| format!("{:?}", e)))
            }
            "increase" => done(w.rt.increase_balance(&c.addr(u("a")), n("n") as u64 * COIN).map_err(|e| format!("{:?}", e))),
            "transfer" => { w.rt.transfer(&c.addr(u("a")), &c.addr(u("b")), n("n") as u64 * COIN); done(Ok(())) }
            "commit" => done(w.rt.commit().map_err(|e| format!("{:?}", e))),
            "rewind" => done(w.rt.rewind(Layer(n("l") as u64 - 2)).map_err(|e| format!("{:?}", e))),
            x => panic!("operation {}", x),
        });
        (r.unwrap_or_else(|p| Obs { err: vec!["panic".into(), p], ..Obs::default() }), price)
    }

    fn layer(&mut self) -> Result<(u64, String), String> {
        no_panic(|| { let (l, s) = self.rt.current_layer(); (l.0, h(&s)) })
    }

    /// Compares everything with the state of the specification: (aspect, account or template, what, expected, got).
    async fn compare(gs: &GlobalState, c: &Case, st: &Value, rep: &mut Report) -> Result<Vec<(&'static str, usize, String, Value, Value)>, StorageError> {
        let mut bad = vec![];
        for (t, x) in st["tmpl"].as_array().unwrap().iter().enumerate() {
            let hdr = x.as_i64().unwrap();
            let exp = if hdr == 0 { json!("absent") } else { sections(c.prog[t].template(hdr).sections()) };
            let got = match TemplateStorage::load(gs.clone(), &c.prog[t].addr)?.sections().await {
                Ok(s) => sections(&s),
                Err(StorageError::NotFound { .. }) => json!("absent"),
                Err(e) => json!(format!("{:?}", e)),
            };
            if exp != got { bad.push(("tmpl", t + 1, format!("template {}", t + 1), exp, got)); }
        }
        for (i, x) in st["acct"].as_array().unwrap().iter().enumerate() {
            let a = i + 1;
            let t = x["tmpl"].as_u64().unwrap() as usize;
            let s = match AccountStorage::load(gs.clone(), &c.addr(a)).await {
                Ok(s) => s,
                Err(StorageError::NotFound { .. }) => {
                    if t != 0 { bad.push(("exists", a, format!("account {}", a), json!("exists"), json!("absent"))); }
                    continue;
                }
                Err(e) => { bad.push(("exists", a, format!("account {}", a), json!("exists"), json!(format!("{:?}", e)))); continue; }
            };
            if t == 0 { bad.push(("exists", a, format!("account {}", a), json!("absent"), json!("exists"))); continue; }
            rep.count("accounts_read", 1);
            let n = |k: &str| x[k].as_i64().unwrap();
            let mut cmp = |w, what: &str, exp: Value, got: Value| if exp != got { bad.push((w, a, format!("{} of account {}", what, a), exp, got)) };
            cmp("bal", "balance", json!(n("bal") as u64 * COIN), json!(s.balance().await?));
            cmp("ctr", "counter", json!(ctr(n("ctr")).to_string()), json!(s.counter().await?.to_string()));
            cmp("name", "name", json!(name(n("name"))), json!(s.name().await?));
            cmp("name", "template", json!(h(&c.prog[t - 1].addr)), json!(h(&s.template_addr().await?)));
            for (k, v) in st["var"][i].as_array().unwrap().iter().enumerate() {
                let got = s.get_var_vec(c.prog[t - 1].first + k as u32).await?;
                cmp("var", &format!("variable {}", k + 1), json!(hex(&var_bytes(k, init_value(v)))), json!(hex(&got)));
            }
        }
        Ok(bad)
    }
}
fn sections(s: &Sections) -> Value {
    let mut v: Vec<String> = s.iter().map(|x| { let mut d = format!("{:?}", x); if d.len() > 300 { d = format!("{}..{}", &d[..60], svm_hash_of(&d)); } d }).collect();
    v.sort();
    json!(v)
}
fn svm_hash_of(s: &str) -> String {
    use svm_hash::{Blake3Hasher, Hasher};
    hex(&Blake3Hasher::hash(s.as_bytes())[..8])
}

fn log_bytes(l: &Value, cd: &[u8]) -> String {
    let (v, n) = (l["v"].as_i64().unwrap(), l["n"].as_i64().unwrap());
    hex(&match l["w"].as_i64().unwrap() {
        1 => pattern(v),
        2 => cd.to_vec(),
        3 => block(v, n),
        4 => v32(v).to_le_bytes().to_vec(),
        8 => v64(v).to_le_bytes().to_vec(),
        _ => v20(v),
    })
}

/// The properties that speak about an operation that is expected to fail like this.
fn failure_props(op: &str, res: &Value, alloc: &str) -> Vec<&'static str> {
    let e = res["err"].as_str().unwrap();
    let mut p = vec![];
    if ["spawn", "call", "spawnname", "callname", "verify"].contains(&op) { p.push("R01"); }
    if res["oog"] == true { p.push("R05"); }
    if e.starts_with("FuncNot") || e == "FuncInvalidSignature" || e.ends_with("NotFound") { p.push("R03"); }
    if op == "verify" || (e == "panic" && alloc != "good" && alloc != "fixed" && alloc != "far") { p.push("R06"); }
    p
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let tok = Arc::new(tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
    let replicas = rep.prop == "R08" || rep.prop.is_empty();
    let mut addresses: BTreeMap<String, String> = BTreeMap::new(); // R09: what each address was derived from
    for (n, tr) in traces(&args.str("in", "")) {
        let exts = [ext(4, n), ext(5, n)];
        let progs = tr["prog"].as_array().unwrap();
        let steps = tr["steps"].as_array().unwrap();
        let prog: Vec<Tmpl> = progs.iter().enumerate()
            .map(|(i, p)| Tmpl::new(p, [0, 3, 700][(n + i) % 3], &format!("t{}", i), &exts, n)).collect();
        let c = Case { nt: prog.len(), na: steps[0]["st"]["acct"].as_array().unwrap().len(), prog, n };
        let wher = |j: usize| json!({"trace": n, "step": j, "prog": tr["prog"],
            "steps": steps[..=j].iter().map(|x| json!([x["op"], x["args"], x["res"]])).collect::<Vec<_>>()});
        rep.count("behaviours", 1);

        // R09: addresses depend on the code, respectively the template, alone, and tell them apart
        for (i, p) in c.prog.iter().enumerate() {
            for hdr in 1..=3 {
                let got = svm_types::compute_template_addr(p.template(hdr).code_section());
                if got != p.addr { rep.mismatch(&["R09"], "address of the same code", json!(h(&p.addr)), json!(h(&got)), json!({"prog": progs[i], "hdr": hdr})); }
            }
            let got = svm_runtime::compute_account_addr(&SpawnAccount::new(3, &p.addr, "other", "f2", vec![1, 2]));
            if got != p.account { rep.mismatch(&["R09"], "address of the same template's account", json!(h(&p.account)), json!(h(&got)), json!({"prog": progs[i]})); }
            // one byte makes a difference
            for k in 0..24usize {
                let mut code = p.code.clone();
                let at = match k { 0 => 0, 1 => code.len() - 1, _ => (k * 7919 + n * 104729) % code.len() };
                match k { 2 => code.push(0), 3 => { code.pop(); }, _ => code[at] ^= 1 << (k % 8) }
                let got = svm_types::compute_template_addr(&svm_types::CodeSection::new(svm_types::CodeKind::Wasm, code, 0, svm_types::GasMode::Fixed, 0));
                if got == p.addr { rep.mismatch(&["R09"], "different code has the same address", json!(h(&p.addr)), json!(h(&got)), json!({"prog": progs[i], "byte": at})); }
                let mut t = [0; 20];
                t.copy_from_slice(p.addr.as_slice());
                t[k % 20] ^= 1 << (k % 8);
                let got = svm_runtime::compute_account_addr(&SpawnAccount::new(0, &svm_types::TemplateAddr::from(t), "x", "f1", vec![]));
                if got == p.account { rep.mismatch(&["R09"], "accounts of different templates have the same address", json!(h(&p.account)), json!(h(&got)), json!({"prog": progs[i], "byte": k})); }
            }
            for (kind, a, from) in [("template", h(&p.addr), hex(&p.code)), ("account", h(&p.account), h(&p.addr))] {
                let old = addresses.insert(format!("{} {}", kind, a), from.clone());
                if old.is_some() && old.as_ref() != Some(&from) {
                    rep.mismatch(&["R09"], "two different origins have one address", json!(from), json!(old), json!({"prog": progs[i]}));
                }
            }
        }

        let mut w = World::open(&tok, None);
        let dir = scratch(&format!("rt{}.db", n));
        let _ = std::fs::remove_file(&dir);
        let uri = format!("sqlite://{}?mode=rwc", dir.display());
        let mut twin = if replicas { Some(World::open(&tok, Some(&uri))) } else { None };
        for x in std::iter::once(&mut w).chain(twin.as_mut()) {
            if !matches!(no_panic(|| x.rt.commit()), Ok(Ok(()))) { rep.mismatch(&["R01", "R04", "R08", "R09"], "committing an empty layer", json!("ok"), json!("failed"), json!(n)); }
        }
        let mut points: Vec<(usize, u64)> = vec![]; // steps after which everything is committed, and their layers
        let mut seen: Vec<(Obs, Option<(u64, String)>)> = vec![];
        let mut rnd = (n as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
        let mut rand = move |k: u64| { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; rnd % k };

        for (j, s) in steps.iter().enumerate() {
            let op = s["op"].as_str().unwrap();
            let a = &s["args"];
            let res = &s["res"];
            rep.count("steps", 1);
            rep.count(&format!("op_{}_{}", op, if res["ok"] == true { "ok" } else { "failing" }), 1);
            let before = w.layer().ok();
            let (o, price) = w.exec(&c, j, op, a);
            let now = w.layer();
            seen.push((o.clone(), now.clone().ok()));

            // ---- R08: another node executes the same, with detours
            if let Some(t) = twin.as_mut() {
                let mut bad = vec![];
                let (o2, _) = t.exec(&c, j, op, a);
                rep.count("replica_steps", 1);
                if norm(&o2) != norm(&o) { bad.push(("receipt of the replica", o.json(), o2.json())); }
                let l2 = t.layer();
                if l2.as_ref().ok() != now.as_ref().ok() { bad.push(("layer and root of the replica", json!(now.clone().ok()), json!(l2.clone().ok()))); }
                if op == "rewind" { points.retain(|p| p.1 <= s["layer"].as_u64().unwrap()); }
                if bad.is_empty() && s["clean"] == true {
                    let layer = s["layer"].as_u64().unwrap();
                    match rand(6) {
                        0 => {
                            // other messages, and back
                            for _ in 0..1 + rand(4) {
                                let k = rand(steps.len() as u64) as usize;
                                if steps[k]["op"] != "rewind" { t.exec(&c, k, steps[k]["op"].as_str().unwrap(), &steps[k]["args"]); rep.count("detour_steps", 1); }
                            }
                            let _ = no_panic(|| t.rt.commit());
                            if !matches!(no_panic(|| t.rt.rewind(Layer(layer - 2))), Ok(Ok(()))) { bad.push(("returning from a detour", json!("ok"), json!("failed"))); }
                        }
                        1 if !points.is_empty() => {
                            // back to an earlier layer, and the same messages once more
                            let (from, l) = points[rand(points.len() as u64) as usize];
                            if steps[from + 1..=j].iter().all(|x| x["op"] != "rewind") {
                                if !matches!(no_panic(|| t.rt.rewind(Layer(l - 2))), Ok(Ok(()))) { bad.push(("rewinding the replica", json!("ok"), json!("failed"))); }
                                for k in from + 1..=j {
                                    let (o2, _) = t.exec(&c, k, steps[k]["op"].as_str().unwrap(), &steps[k]["args"]);
                                    rep.count("reexecuted_steps", 1);
                                    let l2 = t.layer().ok();
                                    if norm(&o2) != norm(&seen[k].0) || l2 != seen[k].1 {
                                        bad.push(("executing the same again", json!([seen[k].0.json(), seen[k].1]), json!([o2.json(), l2])));
                                        break;
                                    }
                                }
                            }
                        }
                        2 => {
                            // the node is restarted
                            let tok = t.tok.clone();
                            let gs = t.gs.clone();
                            twin = None;
                            drop(gs);
                            match no_panic(|| World::open(&tok, Some(&uri))) {
                                Ok(x) => twin = Some(x),
                                Err(p) => bad.push(("restarting", json!("ok"), json!(p))),
                            }
                            rep.count("restarts", 1);
                        }
                        _ => {}
                    }
                    points.push((j, layer));
                    if let Some(t) = twin.as_mut() {
                        let l2 = t.layer();
                        if l2.as_ref().ok() != now.as_ref().ok() { bad.push(("layer and root of the replica after a detour", json!(now.clone().ok()), json!(l2.clone().ok()))); }
                        for (side, g) in [("first node", &w.gs), ("replica", &t.gs)] {
                            match guard(&tok, World::compare(g, &c, &s["st"], &mut rep)) {
                                Ok(Ok(b)) => if side == "replica" { for (_, _, what, e, g) in b.into_iter().take(2) { bad.push(("account on the replica", json!([what, e]), g)); } },
                                e => bad.push(("reading", json!("ok"), json!(format!("{} {:?}", side, e)))),
                            }
                        }
                    }
                }
                let stop = !bad.is_empty();
                for (what, e, g) in bad { rep.mismatch(&["R08"], what, e, g, wher(j)); }
                if stop { break; }
                if rep.prop == "R08" { continue; }
            }

            // ---- the answer
            let target = ["t", "a"].iter().find_map(|k| a.get(*k)).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
            let t_of = |acct: usize| if acct >= 1 && acct <= c.na { s["st"]["acct"][acct - 1]["tmpl"].as_u64().unwrap() as usize } else { 0 };
            let tmpl = if op == "spawn" || op == "spawnname" || op == "deploy" { target } else { t_of(target) };
            let alloc = if tmpl > 0 { progs[tmpl - 1]["alloc"].as_str().unwrap() } else { "good" };
            let fp = failure_props(op, res, alloc);
            let tx = ["deploy", "spawn", "call", "spawnname", "callname"].contains(&op);
            let exp_err = res["err"].as_str().unwrap();
            let mut bad: Vec<(Vec<&str>, String, Value, Value)> = vec![];
            let again = op == "spawn" && a["again"] == true && res["ok"] == true;
            if res["ok"] == true {
                if !o.ok {
                    if again { rep.count("respawn_refused", 1); break; }
                    let p = match op {
                        "deploy" => vec!["R05", "R09"],
                        "spawn" => vec!["R03", "R04", "R05", "R07", "R09", "R02", "R06"],
                        "call" => vec!["R03", "R04", "R05", "R07", "R02", "R06"],
                        "rewind" | "commit" => vec!["R04", "R08"],
                        _ => vec!["R02", "R09"],
                    };
                    bad.push((p, format!("{} should succeed", op), json!("success"), o.json()));
                } else if tx {
                    let cd = if a.get("cd").is_some() { calldata(&a["cd"], &|s| c.addr(s)) } else { vec![] };
                    let logs: Vec<String> = res["logs"].as_array().unwrap().iter().map(|l| log_bytes(l, &cd)).collect();
                    if json!(logs) != json!(o.logs) { bad.push((vec!["R07"], "logs".into(), json!(logs), json!(o.logs))); }
                    if op != "deploy" {
                        let ret = match res["ret"]["w"].as_i64().unwrap() { 0 => String::new(), 1 => hex(&pattern(init_value(&res["ret"]["v"]))), _ => hex(&cd) };
                        if ret != o.ret { bad.push((vec!["R07"], "returned data".into(), json!(ret), json!(o.ret))); }
                        let mut touched: Vec<String> = res["touched"].as_array().unwrap().iter().map(|x| h(&c.addr(x.as_u64().unwrap() as usize))).collect();
                        touched.sort();
                        touched.dedup();
                        if touched != o.touched { bad.push((vec!["R07"], "touched accounts".into(), json!(touched), json!(o.touched))); }
                        if let Ok((_, root)) = &now { if *root != o.root { bad.push((vec!["R04"], "root in the receipt".into(), json!(root), json!(o.root))); } }
                    } else if o.gas != Some(price) { bad.push((vec!["R05"], "gas used by a deployment".into(), json!(price), json!(o.gas))); }
                    if op == "deploy" && o.addr != h(&c.prog[target - 1].addr) { bad.push((vec!["R09"], "address of the deployed template".into(), json!(h(&c.prog[target - 1].addr)), json!(o.addr))); }
                    if op == "spawn" && o.addr != h(&c.prog[target - 1].account) { bad.push((vec!["R09"], "address of the spawned account".into(), json!(h(&c.prog[target - 1].account)), json!(o.addr))); }
                }
            } else if o.ok {
                if exp_err == "any" { rep.count("verify_ok", 1); break; }
                let mut p = fp.clone();
                // a function that should have failed but did not
                match exp_err {
                    "panic" => p.extend(["R02", "R07", "R06", "R01"]),
                    "FuncFailed" => p.extend(["R07"]),
                    _ => {}
                }
                if op == "transfer" || op == "increase" { p.push("R02"); }
                if op == "create" { p.push("R09"); }
                if op == "rewind" { p.push("R04"); p.push("R08"); }
                bad.push((p, format!("{} should fail", op), res["err"].clone(), o.json()));
            } else if tx {
                let name = match a.get("f") { Some(f) => c.fname(f.as_i64().unwrap()), None => a.get("name").and_then(|x| x.as_str()).unwrap_or("").to_string() };
                let (tg, tp) = if op == "call" || op == "callname" { (h(&c.addr(target)), if tmpl > 0 { h(&c.prog[tmpl - 1].addr) } else { String::new() }) }
                               else { (h(&c.prog[target - 1].account), h(&c.prog[target - 1].addr)) };
                let exp: Vec<String> = match exp_err {
                    "OOG" => vec!["OOG".into()],
                    "TemplateNotFound" => vec!["TemplateNotFound".into(), tp],
                    "AccountNotFound" => vec!["AccountNotFound".into(), tg],
                    "FuncNotCtor" => vec!["FuncNotCtor".into(), tp, name],
                    "FuncFailed" => vec!["FuncFailed".into(), tg, tp, if res["func"] == "svm_alloc" { "svm_alloc".into() } else { name }],
                    "panic" => vec![], // any failure
                    e => vec![e.into(), tg, tp, name],
                };
                if !exp.is_empty() && exp != o.err {
                    let mut p = fp.clone();
                    if exp_err == "FuncFailed" { p.push("R07"); }
                    if o.err[0] == "OOG" { p.push("R05"); }
                    bad.push((p, format!("failure of {}", op), json!(exp), json!(o.err)));
                } else if exp_err == "FuncFailed" {
                    let cd = if a.get("cd").is_some() { calldata(&a["cd"], &|s| c.addr(s)) } else { vec![] };
                    let logs: Vec<String> = res["logs"].as_array().unwrap().iter().map(|l| log_bytes(l, &cd)).collect();
                    if json!(logs) != json!(o.logs) { bad.push((vec!["R07"], "logs of a failed transaction".into(), json!(logs), json!(o.logs))); }
                }
            }

            // ---- the state
            let layer = s["layer"].as_u64().unwrap();
            match (&now, &before) {
                (Ok((l, root)), Some((_, old))) => {
                    if *l != layer - 2 {
                        if op == "verify" && o.ok { break; }
                        let mut p = fp.clone();
                        p.push("R04");
                        bad.push((p, "current layer".into(), json!(layer - 2), json!(l)));
                    } else if !res["ok"].as_bool().unwrap() && root != old {
                        let mut p = fp.clone();
                        p.push("R04");
                        bad.push((p, "root after a failure".into(), json!(old), json!(root)));
                    }
                }
                (l, _) => bad.push((vec!["R04", "R01"], "current layer".into(), json!(layer - 2), json!(format!("{:?}", l)))),
            }
            let pending = no_panic(|| w.rt.has_uncommitted_changes().ok()).ok().flatten();
            if (s["dirty"] == true && pending != Some(true)) || (s["clean"] == true && pending != Some(false)) {
                let mut p = fp.clone();
                p.push("R04");
                bad.push((p, "pending changes".into(), s["dirty"].clone(), json!(pending)));
            }
            let mut views = vec![(w.gs.clone(), &s["st"], false)];
            let mut g = w.gs.clone();
            *g.layer_query_parameter_mut() = Some(Layer(s["at"].as_u64().unwrap() - 2));
            views.push((g, &s["past"], true));
            let mut quiet = false;
            for (g, st, past) in views {
                match guard(&tok, World::compare(&g, &c, st, &mut rep)) {
                    Ok(Ok(diffs)) => for (aspect, who, what, e, got) in diffs {
                        if again && !past && who == target && ["bal", "ctr", "name"].contains(&aspect) { quiet = true; continue; }
                        let mut p = if past { vec!["R04"] } else if res["ok"] == true { vec![] } else { fp.clone() };
                        match aspect {
                            "bal" => p.push("R02"),
                            "var" if !past && res["ok"] == true && who == target => p.extend(["R04", "R07"]),
                            "var" if op == "verify" => p.push("R06"),
                            "ctr" => p.extend(["R01", "R09"]),
                            _ => p.push("R09"),
                        }
                        if aspect == "exists" && op == "spawn" { p.push("R04"); }
                        if aspect == "tmpl" && op == "deploy" { p.push("R05"); }
                        if op == "rewind" || op == "commit" { p.extend(["R04", "R08"]); }
                        bad.push((p, format!("{} after {}{}", what, op, if past { " (at a past layer)" } else { "" }), e, got));
                    },
                    e => bad.push((vec!["R01", "R04", "R09"], "reading".into(), json!("ok"), json!(format!("{:?}", e)))),
                }
            }
            // the account as the runtime shows it
            if target > 0 && op != "deploy" {
                let x = &s["st"]["acct"][target.min(c.na) - 1];
                let exp = if x["tmpl"] == 0 || target > c.na { json!(null) } else { json!([x["bal"].as_u64().unwrap() * COIN, ctr(init_value(&x["ctr"])).to_string(), h(&c.prog[t_of(target) - 1].addr)]) };
                let got = match no_panic(|| w.rt.get_account(&c.addr(target))) { Ok(Some((b, n, t))) => json!([b, n.to_string(), h(&t)]), Ok(None) => json!(null), Err(p) => json!(p) };
                if exp != got && !again { bad.push((vec!["R02", "R09", "R04"], format!("account {} as the runtime shows it", target), exp, got)); }
            }
            if quiet { rep.count("respawn_differs", 1); break; }
            if again && (a["was"]["bal"] != 0 || a["was"]["ctr"] != 0) {
                rep.count("respawn_resets", 1);
                let k = if rep.prop == "R02" { "R02-respawn" } else { "R09-respawn" };
                let k = json!(crate::common::known(k));
                if (rep.prop == "R02" || rep.prop == "R09") && !rep.known.contains(&k) { rep.known.push(k); }
            }
            if !bad.is_empty() {
                // what other properties speak about does not end the behaviour
                let mut mine = false;
                for (p, what, e, g) in bad { mine |= rep.mismatch(&p, &what, e, g, wher(j)); }
                if mine { break; }
            }
        }
        drop(twin);
        for x in ["", "-wal", "-shm", "-journal"] { let _ = std::fs::remove_file(format!("{}{}", dir.display(), x)); }
        if n < 1 { rep.sample(json!({"prog": tr["prog"], "steps": steps.iter().map(|x| json!([x["op"], x["args"], x["res"]["err"]])).collect::<Vec<_>>()})); }
    }
    rep.finish();
}
/// Panic messages need not be the same.
fn norm(o: &Obs) -> Obs {
    let mut o = o.clone();
    if o.err.first().map(|x| x == "panic" || x == "err").unwrap_or(false) { o.err.truncate(1); }
    o
}
