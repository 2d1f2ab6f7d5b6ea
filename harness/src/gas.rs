//! Replays the programs of FixedGas.tla: the verdict of the validation and the prices (G01, G02).
use crate::common::*;
use parity_wasm::elements::Instruction;
use serde_json::{json, Value};
use std::rc::Rc;
use std::sync::Arc;
use svm_codec::Codec;
use svm_gas::{FixedGasError, GraphCycles, PriceResolver, ProgramPricing};
use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_program::{FuncIndex, Op, Program, ProgramError, ProgramVisitor};
use svm_runtime::{PriceResolverRegistry, Runtime, TemplatePriceCache, ValidateError};
use svm_state::GlobalState;
use svm_types::{CodeSection, Context, CtorsSection, DataSection, Envelope, Gas, RuntimeError, SpawnAccount, Template};

const HOSTS: [(&str, &str); 12] = [
    ("svm_static_alloc", "(param i32) (result i32)"), ("svm_calldata_offset", "(result i32)"), ("svm_calldata_len", "(result i32)"),
    ("svm_set_returndata", "(param i32 i32)"), ("svm_get32", "(param i32) (result i32)"), ("svm_set32", "(param i32 i32)"),
    ("svm_get64", "(param i32) (result i64)"), ("svm_set64", "(param i32 i64)"), ("svm_load160", "(param i32 i32)"),
    ("svm_store160", "(param i32 i32)"), ("svm_log", "(param i32 i32)"), ("svm_transfer", "(param i32 i32 i64)"),
];
const FLOATS: &str = "f32.load f64.load f32.store f64.store f32.const_0 f64.const_0 f32.eq f32.ne f32.lt f32.gt f32.le f32.ge f64.eq f64.ne f64.lt f64.gt f64.le f64.ge \
 f32.abs f32.neg f32.ceil f32.floor f32.trunc f32.nearest f32.sqrt f32.add f32.sub f32.mul f32.div f32.min f32.max f32.copysign \
 f64.abs f64.neg f64.ceil f64.floor f64.trunc f64.nearest f64.sqrt f64.add f64.sub f64.mul f64.div f64.min f64.max f64.copysign \
 i32.trunc_f32_s i32.trunc_f32_u i32.trunc_f64_s i32.trunc_f64_u i64.trunc_f32_s i64.trunc_f32_u i64.trunc_f64_s i64.trunc_f64_u \
 f32.convert_i32_s f32.convert_i32_u f32.convert_i64_s f32.convert_i64_u f32.demote_f64 f64.convert_i32_s f64.convert_i32_u f64.convert_i64_s f64.convert_i64_u f64.promote_f32 \
 i32.reinterpret_f32 i64.reinterpret_f64 f32.reinterpret_i32 f64.reinterpret_i64";

fn u(v: &Value) -> usize { v.as_u64().unwrap() as usize }

/// The module of a program. `n` varies what the specification leaves open.
fn wat(p: &Value, n: usize) -> String {
    let mut s = String::from("(module ");
    // the imports in another order
    if n % 3 == 1 { s += "(import \"svm\" \"glob\" (global $g i32)) "; }
    for i in 0..HOSTS.len() {
        let (name, sig) = HOSTS[(i * 5 + n) % HOSTS.len()];
        s += &format!("(import \"svm\" \"{}\" (func ${} {})) ", name, name, sig);
    }
    s += "(memory (export \"memory\") 1) (table 1 funcref) (type $void (func)) ";
    let floats: Vec<&str> = FLOATS.split_whitespace().collect();
    for (f, c) in p["code"].as_array().unwrap().iter().enumerate() {
        let kind = p["kind"][f].as_str().unwrap();
        let sig = match kind { "alloc" => "(param i32) (result i32)", "verify" => "(result i32)", _ => "" };
        // the function's own `end' comes with the text format
        s += &format!("\n(func $f{} (export \"f{}\") {} (local $l i32) ", f + 1, f + 1, sig);
        let c = c.as_array().unwrap();
        for t in &c[..c.len() - 1] {
            let k = u(&t["n"]);
            s += &match t["k"].as_str().unwrap() {
                "op" => ["nop", "i32.const 3 drop", "i32.const 1 i32.const 2 i32.add drop", "i32.const 0 i32.load drop", "i32.const 7 local.set $l"][k - 1].to_string(),
                "block" => "block".into(),
                "loop" => "loop".into(),
                "if" => "i32.const 1 if".into(),
                "else" => "else".into(),
                "end" => "end".into(),
                "br" => format!("br {}", k),
                "br_if" => format!("i32.const 0 br_if {}", k),
                "br_table" => format!("i32.const {} br_table {}", n % 5, t["l"].as_array().unwrap().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")),
                "return" => "return".into(),
                "unreachable" => "unreachable".into(),
                "result" => "i32.const 0".into(),
                "call" => match p["kind"][k - 1].as_str().unwrap() {
                    "alloc" => format!("i32.const 0 call $f{} drop", k),
                    "verify" => format!("call $f{} drop", k),
                    _ => format!("call $f{}", k),
                },
                "host" => {
                    let (name, sig) = HOSTS[k - 1];
                    let (params, result) = match sig.find("(result") { Some(i) => (&sig[..i], true), None => (sig, false) };
                    let args = params.matches("i32").count();
                    format!("{} {} call ${} {}", "i32.const 0 ".repeat(args), "i64.const 0 ".repeat(params.matches("i64").count()), name, if result { "drop" } else { "" })
                }
                "call_indirect" => "block unreachable call_indirect (type $void) end".into(),
                "float" => format!("block unreachable {} drop end", floats[k % floats.len()].replace("_0", " 0")),
                x => panic!("instruction {}", x),
            };
            s.push(' ');
        }
        s += ")";
    }
    for name in ["alloc", "verify"] {
        let f = p["kind"].as_array().unwrap().iter().position(|k| k == name).map(|x| x + 1);
        let svm = format!("svm_{}", name);
        s += &match (p["exps"][name].as_str().unwrap(), f) {
            ("ok", Some(f)) => format!("\n(export \"{}\" (func $f{}))", svm, f),
            ("missing", _) => ["", &format!("\n(func (export \"{}_\"))", svm), &format!("(export \"{}\" (memory 0))", svm.to_uppercase())][n % 3].to_string(),
            ("kind", _) => [format!("\n(export \"{}\" (memory 0))", svm), format!("\n(global (export \"{}\") i32 (i32.const 0))", svm), format!("\n(export \"{}\" (table 0))", svm)][n % 3].clone(),
            ("import", _) => format!("\n(export \"{}\" (func ${}))", svm, if name == "alloc" { "svm_static_alloc" } else { "svm_calldata_len" }),
            ("sig", _) => {
                let bad = ["", "(param i64) (result i32)", "(param i32) (result i64)", "(param i32 i32) (result i32)", if name == "alloc" { "(result i32)" } else { "(param i32) (result i32)" }, "(result i64)"][n % 6];
                format!("\n(func (export \"{}\") {} unreachable)", svm, bad)
            }
            x => panic!("export {:?}", x),
        };
    }
    s + ")"
}

struct Custom { pr: Value, hp: Value }
impl PriceResolver for Custom {
    fn op_price(&self, op: &Op) -> usize {
        let k = match op.raw() {
            Instruction::Nop => "nop",
            Instruction::I32Const(_) => "const",
            Instruction::I64Const(_) => "const64",
            Instruction::Drop => "drop",
            Instruction::Block(_) => "block",
            Instruction::I32Add => "add",
            Instruction::I32Load(..) => "load",
            Instruction::SetLocal(_) => "set",
            _ => return 7777, // nothing else costs anything
        };
        u(&self.pr[k])
    }
    fn import_price(&self, import: (&str, &str)) -> usize {
        match HOSTS.iter().position(|h| h.0 == import.1) { Some(i) if import.0 == "svm" => u(&self.hp[i]), _ => 7_777_777 }
    }
}

fn program_reason(e: &ProgramError) -> Vec<String> {
    let short = |n: &str| n.trim_start_matches("svm_").to_string();
    match e {
        ProgramError::FloatsNotAllowed => vec!["float".into()],
        ProgramError::FunctionNotFound(n) => vec![short(n) + "-missing"],
        ProgramError::InvalidExportFunctionSignature(n) => vec![short(n) + "-sig"],
        ProgramError::InvalidExportKind => ["alloc-kind", "alloc-import", "verify-kind", "verify-import"].iter().map(|x| x.to_string()).collect(),
        e => vec![format!("{:?}", e)],
    }
}
/// The reasons a verdict may stand for, and whether its details are right.
fn gas_reason(e: &FixedGasError, p: &Value, imports: usize) -> (Vec<String>, bool) {
    let calls = |a: FuncIndex, b: FuncIndex| {
        let (a, b) = (a.0 as usize, b.0 as usize);
        a >= imports && b >= imports && p["calls"].get(a - imports).and_then(|x| x.as_array()).map(|x| x.iter().any(|y| u(y) == b - imports + 1)).unwrap_or(false)
    };
    match e {
        FixedGasError::LoopNotAllowed => (vec!["loop".into()], true),
        FixedGasError::CallIndirectNotAllowed => (vec!["call_indirect".into()], true),
        FixedGasError::RecursiveCall { func, .. } => (vec!["recursive".into()], calls(*func, *func)),
        FixedGasError::CallCycle(GraphCycles::HasCycles(c)) => (vec!["cycle".into()], c.is_empty() || (c.len() > 1 && c.first() == c.last() && c.windows(2).all(|w| calls(w[0], w[1])))),
        e => (vec![format!("{:?}", e)], false),
    }
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    let through_runtime = args.u64("runtime", 1);
    let tok = Arc::new(tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
    for (n, p) in traces(&args.str("in", "")) {
        rep.count("behaviours", 1);
        let text = wat(&p, n);
        let wasm = wat::parse_str(&text).expect("text format");
        let reasons: Vec<&str> = p["reasons"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let wher = || json!({"trace": n, "module": text, "reasons": reasons});
        rep.count(if reasons.is_empty() { "acceptable" } else { "not_acceptable" }, 1);
        for r in &reasons { rep.count(&format!("reason_{}", r), 1); }

        // ---- the verdict
        let mut bad = false;
        let program = match no_panic(|| Program::new(&wasm, true)) {
            Err(e) => { rep.mismatch(&["G01"], "reading a program panics", json!("a verdict"), json!(e), wher()); continue; }
            Ok(Ok(x)) => Some(x),
            Ok(Err(e)) => {
                if !program_reason(&e).iter().any(|r| reasons.contains(&r.as_str())) { rep.mismatch(&["G01"], "verdict", json!(reasons), json!(format!("{:?}", e)), wher()); }
                None
            }
        };
        if let Some(program) = &program {
            for cycles in [false, true] {
                let v = no_panic(|| svm_gas::validate_wasm(program, cycles));
                rep.count("verdicts", 1);
                match v {
                    Err(e) => bad |= rep.mismatch(&["G01"], "validation panics", json!("a verdict"), json!(e), wher()),
                    Ok(Ok(())) => if !reasons.is_empty() { bad |= rep.mismatch(&["G01"], "program is accepted", json!(reasons), json!("accepted"), wher()); },
                    Ok(Err(e)) => {
                        let (r, details) = gas_reason(&e, &p, HOSTS.len());
                        if !r.iter().any(|r| reasons.contains(&r.as_str())) || !details { bad |= rep.mismatch(&["G01"], "verdict", json!(reasons), json!(format!("{:?}", e)), wher()); }
                    }
                }
            }
        }
        // ---- the same through the runtime
        let names: Vec<String> = (0..p["code"].as_array().unwrap().len()).map(|f| format!("f{}", f + 1)).collect();
        let template = Template::new(CodeSection::new_fixed(wasm.clone(), 0), DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, &[4, 8, 20]))), CtorsSection::new(names));
        let msg = svm_codec::template::encode(&template);
        let mut rt = None;
        if n as u64 % through_runtime == 0 {
            let gs = tok.block_on(GlobalState::in_memory(GenesisConfig::mainnet()));
            let mut r = Runtime::new(tok.clone(), gs, TemplatePriceCache::new(PriceResolverRegistry::default()));
            let v = no_panic(|| r.validate_deploy(&msg));
            rep.count("validate_deploy", 1);
            let ok = match &v {
                Ok(Ok(())) => reasons.is_empty(),
                Ok(Err(ValidateError::Program(e))) => program_reason(e).iter().any(|r| reasons.contains(&r.as_str())),
                Ok(Err(ValidateError::FixedGas(e))) => gas_reason(e, &p, HOSTS.len()).0.iter().any(|r| reasons.contains(&r.as_str())),
                _ => false,
            };
            if !ok { bad |= rep.mismatch(&["G01"], "validate_deploy", json!(reasons), json!(format!("{:?}", v)), wher()); }
            let _ = no_panic(|| r.commit());
            if ok && reasons.is_empty() { rt = Some(r); }
        }
        if bad || !reasons.is_empty() { continue; }

        // ---- the prices
        let program = match program { Some(x) => x, None => continue };
        let v0 = p["pr"].as_object().unwrap().values().all(|x| x == 1) && p["hp"][9] == 5_000_000;
        let mut resolvers: Vec<Rc<dyn PriceResolver>> = vec![Rc::new(Custom { pr: p["pr"].clone(), hp: p["hp"].clone() })];
        if v0 { resolvers.push(Rc::new(svm_gas::resolvers::V0PriceResolver::default())); }
        for r in resolvers {
            let got = no_panic(|| ProgramPricing::new(r).visit(&program).map(|fp| {
                (0..p["prices"].as_array().unwrap().len()).map(|i| fp.get(FuncIndex((HOSTS.len() + i) as u32))).collect::<Vec<_>>()
            }));
            rep.count("functions_priced", p["prices"].as_array().unwrap().len() as u64);
            let got = match got { Ok(Ok(v)) => json!(v), e => json!(format!("{:?}", e)) };
            if got != p["prices"] { bad |= rep.mismatch(&["G02"], "prices", p["prices"].clone(), got, wher()); }
        }
        // ---- the price of a constructor, as a spawn is charged for it
        if let (Some(mut rt), true, false) = (rt, v0, bad || rep.prop == "G01") {
            let addr = match no_panic(|| rt.deploy(&Envelope::default(), &msg, &Context::default()).addr) {
                Ok(Some(a)) => a,
                e => { rep.mismatch(&["G02"], "deployment", json!("ok"), json!(format!("{:?}", e)), wher()); continue; }
            };
            for f in 0..p["kind"].as_array().unwrap().len() {
                if p["kind"][f] != "fn" { continue; }
                let m = SpawnAccount::new(0, &addr, "x", &format!("f{}", f + 1), vec![]).encode_to_vec();
                let price = svm_gas::transaction::spawn(&m) + p["prices"][f].as_u64().unwrap();
                for (limit, oog) in [(price, true), (price + 1, false)] {
                    // (a constructor that fails or makes the host panic is no concern here)
                    let r = no_panic(|| rt.spawn(&Envelope::with_gas_limit(Gas::with(limit)), &m, &Context::default()));
                    rep.count("spawns", 1);
                    if let Ok(r) = r {
                        let got = matches!(r.error, Some(RuntimeError::OOG));
                        if got != oog { rep.mismatch(&["G02"], "out of gas", json!({"function": f + 1, "limit": limit, "oog": oog}), json!(got), wher()); }
                    }
                }
            }
        }
        if n < 1 { rep.sample(wher()); }
    }
    rep.finish();
}
