//! Replays behaviours of Accounts.tla on AccountStorage and TemplateStorage (A01, A02).
use crate::common::*;
use crate::storage::{guard, res};
use serde_json::{json, Value};
use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_state::{AccountStorage, GlobalState, StorageError, TemplateStorage};
use svm_types::{
    Address, CodeKind, CodeSection, CtorsSection, DataSection, DeploySection, GasMode, HeaderSection,
    Layer, Section, Sections, Template, TemplateAddr, TransactionId,
};

/// Addresses that are easy to confuse.
fn raw_addr(i: usize, profile: usize) -> [u8; 20] {
    let mut b = match profile % 3 {
        0 => [0u8; 20],
        1 => [0xabu8; 20],
        _ => { let mut b = [0u8; 20]; for (j, x) in b.iter_mut().enumerate() { *x = j as u8 * 13; } b }
    };
    match i % 6 {
        0 => {}
        1 => b[19] ^= 1,
        2 => b[0] ^= 1,
        3 => b[10] ^= 0x10,
        4 => b[9] ^= 0xff,
        _ => b[2] ^= 1,
    }
    b
}
fn aaddr(i: usize, p: usize) -> Address { Address::from(raw_addr(i, p)) }
fn taddr(i: usize, p: usize) -> TemplateAddr { TemplateAddr::from(raw_addr(i, p)) }

fn num(v: i64) -> u64 {
    match v { 1 => 0, 2 => u64::MAX, 3 => 1, 4 => 1 << 32, 5 => 0x0102030405060708, 6 => 1 << 63, 7 => 256, _ => 1000 + v as u64 }
}
fn ctr(v: i64) -> u128 {
    match v { 2 => u128::MAX, 4 => 1 << 64, 6 => 1 << 127, 8 => 0x0102030405060708090a0b0c0d0e0f10, _ => num(v) as u128 }
}
fn name(v: i64) -> String {
    match v { 1 => "".into(), 2 => "n".repeat(255), 3 => "\u{e9}\u{4e2d}\u{1f600}".into(), 4 => "a\u{0}b".into(), _ => format!("account {}", v) }
}
fn bytes(v: i64, a: usize, i: usize, n: usize) -> Vec<u8> {
    match v {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => { let mut b = vec![0; n]; b[0] = 0x81; b }
        3 => { let mut b = vec![0; n]; b[n - 1] = 0x82; b }
        4 => vec![0; n],
        _ => (0..n).map(|k| (k * 37 + v as usize * 71 + a * 101 + i * 13 + 1) as u8).collect(),
    }
}
fn code_section(v: i64) -> CodeSection {
    let code = match v { 1 => vec![], 2 => vec![0x5a; 4000], _ => (0..10 * v as usize).map(|k| (k * v as usize) as u8).collect() };
    CodeSection::new(CodeKind::Wasm, code, num(v), GasMode::Fixed, v as u32)
}
fn core(v: i64, t: usize, first: u32, sizes: &[u32]) -> Sections {
    let ctors = match v { 1 => vec![], 2 => vec!["".to_string(), "x".repeat(255)], _ => (0..v).map(|i| format!("ctor_{}_{}", t, i)).collect() };
    Template::new(code_section(v), DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(first, sizes))), CtorsSection::new(ctors))
        .sections().clone()
}
fn noncore(v: i64, t: usize) -> Sections {
    let mut s = Sections::default();
    if v % 4 >= 2 {
        s.insert(Section::Header(HeaderSection::new(num(v) as u32, name(v % 5), name(v))));
    }
    if v % 2 == 0 {
        s.insert(Section::Deploy(DeploySection::new(TransactionId([v as u8; 32]), Layer(num(v)), aaddr(t, 1), taddr(t, 2))));
    }
    s
}
fn show_sections(s: &Sections) -> Value {
    let mut v: Vec<String> = s.iter().map(|x| format!("{:?}", x)).collect();
    v.sort();
    json!(v)
}
fn union(a: &Sections, b: &Sections) -> Sections {
    let mut s = a.clone();
    for x in b.iter() { s.insert(x.clone()); }
    s
}

struct W { gs: GlobalState, prof: usize, first: Vec<u32>, sizes: Vec<Vec<u32>> }

fn outcome<T>(r: Result<T, StorageError>) -> String {
    match r { Err(StorageError::NotFound { .. }) => "notfound".into(), r => res(r) }
}

impl W {
    async fn account(&self, a: usize) -> Result<AccountStorage, StorageError> {
        AccountStorage::load(self.gs.clone(), &aaddr(a, self.prof)).await
    }
    async fn set_var(&self, a: usize, t: usize, i: usize, v: i64) -> Result<(), StorageError> {
        let mut s = self.account(a).await?;
        let id = self.first[t] + i as u32;
        let n = self.sizes[t][i] as usize;
        let b = bytes(v, a, i, n);
        // all the ways to write a value
        match (v % 3, n) {
            (0, 4) => { let mut x = [0; 4]; x.copy_from_slice(&b); s.set_var_i32(id, i32::from_le_bytes(x)).await }
            (0, 8) => { let mut x = [0; 8]; x.copy_from_slice(&b); s.set_var_i64(id, i64::from_le_bytes(x)).await }
            (1, n) if n < 8 => { let mut x = [0x77; 8]; x[..n].copy_from_slice(&b); s.set_var_i64(id, i64::from_le_bytes(x)).await }
            (1, _) => { let mut x = b.clone(); x.extend([0xcc; 40]); s.set_var_bytes(id, &x).await }
            _ => s.set_var_bytes(id, &b).await,
        }
    }
    async fn check_var(&self, s: &AccountStorage, a: usize, t: usize, i: usize, v: i64) -> Result<(Value, Value), StorageError> {
        let id = self.first[t] + i as u32;
        let n = self.sizes[t][i] as usize;
        let b = bytes(v, a, i, n);
        let mut exp = vec![hex(&b)];
        let mut got = vec![hex(&s.get_var_vec(id).await?)];
        let mut big = vec![0x99; n + 5];
        s.get_var(id, &mut big).await?;
        exp.push(format!("{}{}", hex(&b), "99".repeat(5)));
        got.push(hex(&big));
        if n <= 8 {
            let mut x = [0; 8]; x[..n].copy_from_slice(&b);
            exp.push(i64::from_le_bytes(x).to_string());
            got.push(s.get_var_i64(id).await?.to_string());
        }
        if n <= 4 {
            let mut x = [0; 4]; x[..n].copy_from_slice(&b);
            exp.push(i32::from_le_bytes(x).to_string());
            got.push(s.get_var_i32(id).await?.to_string());
        }
        if n == 20 {
            exp.push(hex(&b));
            got.push(hex(&s.get_var_array::<20>(id).await?));
        }
        Ok((json!(exp), json!(got)))
    }

    /// Compares everything with the specification's state: (property, what, expected, got).
    async fn compare(&self, gs: &GlobalState, st: &Value, rep: &mut Report) -> Result<Vec<(&'static str, String, Value, Value)>, StorageError> {
        let mut bad = vec![];
        for (t, x) in st["tmpl"].as_array().unwrap().iter().enumerate() {
            let (c, n) = (x["core"].as_i64().unwrap(), x["non"].as_i64().unwrap());
            let got = TemplateStorage::load(gs.clone(), &taddr(t, self.prof))?.sections().await;
            let exp = if c == 0 { json!("notfound") } else { show_sections(&union(&core(c, t, self.first[t], &self.sizes[t]), &noncore(n, t))) };
            let got = match got { Ok(s) => show_sections(&s), Err(StorageError::NotFound { .. }) => json!("notfound"), Err(e) => json!(format!("{:?}", e)) };
            rep.count("templates_read", 1);
            if exp != got { bad.push(("A02", format!("sections of template {}", t), exp, got)); }
        }
        for (a, x) in st["acct"].as_array().unwrap().iter().enumerate() {
            let t = x["tmpl"].as_u64().unwrap() as usize;
            let s = match AccountStorage::load(gs.clone(), &aaddr(a, self.prof)).await {
                Ok(s) => s,
                Err(StorageError::NotFound { .. }) => {
                    if t != 0 { bad.push(("A02", format!("account {}", a), json!("exists"), json!("notfound"))); }
                    continue;
                }
                Err(e) => { bad.push(("A02", format!("account {}", a), json!("exists"), json!(format!("{:?}", e)))); continue; }
            };
            if t == 0 { bad.push(("A02", format!("account {}", a), json!("notfound"), json!("exists"))); continue; }
            let n = |k: &str| x[k].as_i64().unwrap();
            let exp = json!([name(n("name")), format!("{:?}", taddr(t - 1, self.prof)), num(n("bal")).to_string(), ctr(n("ctr")).to_string()]);
            let got = json!([s.name().await?, format!("{:?}", s.template_addr().await?), s.balance().await?.to_string(), s.counter().await?.to_string()]);
            rep.count("accounts_read", 1);
            if exp != got { bad.push(("A02", format!("account {}", a), exp, got)); }
            for (i, v) in st["var"][a].as_array().unwrap().iter().enumerate() {
                let (exp, got) = self.check_var(&s, a, t - 1, i, v.as_i64().unwrap()).await?;
                rep.count("variables_read", 1);
                if exp != got { bad.push(("A01", format!("variable {} of account {}", i, a), exp, got)); }
            }
        }
        Ok(bad)
    }
}

pub fn run(args: Args) {
    let rt = rt();
    let mut rep = Report::new(&args);
    for (n, tr) in traces(&args.str("in", "")) {
        let lay = tr["layout"].as_array().unwrap();
        let gs = rt.block_on(GlobalState::in_memory(GenesisConfig::mainnet()));
        let mut w = W {
            gs, prof: n,
            first: lay.iter().map(|l| l["first"].as_u64().unwrap() as u32).collect(),
            sizes: lay.iter().map(|l| l["sizes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()).collect(),
        };
        if let Err(e) = guard(&rt, w.gs.commit()).and_then(|r| r.map_err(|e| format!("{:?}", e))) {
            rep.mismatch(&["A01", "A02"], "setup", json!("ok"), json!(e), json!(n));
            continue;
        }
        rep.count("behaviours", 1);
        let steps = tr["steps"].as_array().unwrap();
        // the account record before the step, for the template of a variable
        for (j, s) in steps.iter().enumerate() {
            let a: Vec<i64> = s["args"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
            let ix = |k: usize| a[k] as usize - 1;
            let p = w.prof;
            let op = s["op"].as_str().unwrap();
            let gs = w.gs.clone();
            let r = match op {
                "template" => guard(&rt, TemplateStorage::create(gs, &taddr(ix(0), p), core(a[1], ix(0), w.first[ix(0)], &w.sizes[ix(0)]), noncore(a[2], ix(0)))).map(outcome),
                "core" => guard(&rt, async { TemplateStorage::load(gs, &taddr(ix(0), p))?.set_core(&core(a[1], ix(0), w.first[ix(0)], &w.sizes[ix(0)])).await }).map(outcome),
                "noncore" => guard(&rt, async { TemplateStorage::load(gs, &taddr(ix(0), p))?.set_noncore(&noncore(a[1], ix(0))).await }).map(outcome),
                "account" => guard(&rt, AccountStorage::create(gs, &aaddr(ix(0), p), name(a[2]), taddr(ix(1), p), num(a[3]), ctr(a[4]))).map(outcome),
                "balance" => guard(&rt, async { w.account(ix(0)).await?.set_balance(num(a[1])).await }).map(outcome),
                "counter" => guard(&rt, async { w.account(ix(0)).await?.set_counter(ctr(a[1])).await }).map(outcome),
                "var" => {
                    let t = s["st"]["acct"][ix(0)]["tmpl"].as_u64().unwrap() as usize;
                    guard(&rt, w.set_var(ix(0), t.max(1) - 1, ix(1), a[2])).map(outcome)
                }
                "checkpoint" => guard(&rt, w.gs.checkpoint()).map(outcome),
                "rollback" => guard(&rt, w.gs.rollback()).map(outcome),
                "commit" => guard(&rt, async { w.gs.checkpoint().await?; w.gs.commit().await }).map(outcome),
                "rewind" => guard(&rt, async { w.gs.rollback().await?; w.gs.rewind(Layer(a[0] as u64 - 1)).await }).map(outcome),
                x => unreachable!("{}", x),
            };
            let r = r.unwrap_or_else(|p| format!("panic {}", p));
            let wher = |l: Value| json!({"trace": n, "step": j, "layer": l, "layout": tr["layout"],
                "steps": steps[..=j].iter().map(|x| json!([x["op"], x["args"], x["res"]])).collect::<Vec<_>>()});
            rep.count("steps", 1);
            rep.count(&format!("op_{}", op), 1);
            let mut mine = false;
            if json!(r) != s["res"] {
                let props: &[&str] = if op == "var" { &["A01"] } else { &["A02"] };
                mine |= rep.mismatch(props, &format!("outcome of {}", op), s["res"].clone(), json!(r), wher(Value::Null));
            }
            let mut views = vec![(w.gs.clone(), &s["st"], Value::Null)];
            if let Some(at) = s["at"].as_u64() {
                let mut g = w.gs.clone();
                *g.layer_query_parameter_mut() = Some(Layer(at - 1));
                views.push((g, &s["past"], json!(at - 1)));
            }
            for (g, st, l) in views {
                match guard(&rt, w.compare(&g, st, &mut rep)) {
                    Ok(Ok(bad)) => for (p, what, e, g) in bad { mine |= rep.mismatch(&[p], &what, e, g, wher(l.clone())); },
                    Ok(Err(e)) => mine |= rep.mismatch(&["A01", "A02"], "reading", json!("values"), json!(format!("{:?}", e)), wher(l)),
                    Err(p) => mine |= rep.mismatch(&["A01", "A02"], "reading", json!("values"), json!(format!("panic {}", p)), wher(l)),
                }
            }
            if mine { break; }
        }
        if n < 1 { rep.sample(json!({"layout": tr["layout"], "steps": steps.iter().map(|x| json!([x["op"], x["args"], x["res"]])).collect::<Vec<_>>()})); }
    }
    rep.finish();
}
