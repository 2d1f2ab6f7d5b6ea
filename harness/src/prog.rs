//! The scripts of Runtime.tla as Wasm modules, and the values they use.
use serde_json::Value;
use svm_layout::{FixedLayout, Layout};
use svm_types::{Address, BytesPrimitive, CodeKind, CodeSection, CtorsSection, DataSection, GasMode, HeaderSection, SpawnAccount, Template, TemplateAddr};

pub const KIND: [usize; 6] = [8, 4, 20, 8, 4, 20];
/// One unit of coins: fifteen fit in a balance, sixteen do not.
pub const COIN: u64 = (1 << 60) + 0x00AB_CDEF_1234_5678;
const PATS: usize = 33000; // byte patterns for logs and return data, 256 bytes each
const ADDRS: usize = 36000; // 20-byte patterns
const EXTS: usize = 37000; // addresses of existing accounts
const SCRATCH: usize = 40000;

pub fn v64(v: i64) -> u64 { (v as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) }
pub fn v32(v: i64) -> u32 { (v as u32).wrapping_mul(0x9E37_79B1) }
pub fn v20(v: i64) -> Vec<u8> {
    (0..20).map(|j| if v == 0 { 0 } else { (v * 37 + j * 11 + 1) as u8 }).collect()
}
pub fn pattern(k: i64) -> Vec<u8> {
    let n = [0usize, 1, 5, 32, 200, 255][k as usize];
    (0..n).map(|j| (k as usize * 91 + j * 7 + (j >> 6)) as u8).collect()
}
pub fn block(c: i64, n: i64) -> Vec<u8> { (0..n).map(|j| (c * 53 + j * 5 + 3) as u8).collect() }
pub fn var_bytes(i: usize, v: i64) -> Vec<u8> {
    match KIND[i] {
        8 => v64(v).to_le_bytes().to_vec(),
        4 => v32(v).to_le_bytes().to_vec(),
        _ => v20(v),
    }
}
pub fn payload(n: i64) -> Vec<u8> {
    let len = [0usize, 0, 1, 9, 120, 195][n as usize];
    (0..len).map(|j| (n as usize * 17 + j * 29 + 200) as u8).collect()
}
pub fn name(v: i64) -> String {
    match v { 1 => "".into(), 2 => "n".repeat(255), 3 => "\u{e9}\u{4e2d}".into(), _ => format!("account {}", v) }
}
pub fn ctr(v: i64) -> u128 { [0, 1, 1 << 64, u128::MAX][v as usize] }

/// Names of functions: easy to confuse.
pub fn fn_name(f: usize, profile: usize) -> String {
    match profile % 4 {
        0 => format!("f{}", f),
        1 => ["missing", "init", "Init", "initialize", "ini", "init2", "INIT"][f].to_string(),
        2 => format!("{}{}", "n".repeat(199), f),
        _ => ["\u{e9}x", "\u{e9}", "e\u{301}", "e", " e", "e ", "svm_init"][f].to_string(),
    }
}

fn esc(b: &[u8]) -> String { b.iter().map(|x| format!("\\{:02x}", x)).collect() }
fn n(o: &Value, k: &str) -> i64 { o[k].as_i64().unwrap() }

fn op_wat(o: &Value, first: u32) -> String {
    let (a, b, c) = (n(o, "a"), n(o, "b"), n(o, "c"));
    let id = |i: i64| first as i64 + i - 1;
    let w = |i: i64| if KIND[i as usize - 1] == 4 { (32, 4) } else { (64, 8) };
    let get = |i: i64| format!("(call $get{} (i32.const {}))", w(i).0, id(i));
    let cst = |i: i64, v: i64| if w(i).0 == 32 { format!("(i32.const {})", v32(v) as i32) } else { format!("(i64.const {})", v64(v) as i64) };
    let set = |i: i64, e: String| format!("(call $set{} (i32.const {}) {})", w(i).0, id(i), e);
    match o["o"].as_str().unwrap() {
        "set" => set(a, cst(a, b)),
        "copy" => set(a, get(b)),
        "inc" => set(a, format!("(i{}.add {} {})", w(a).0, get(a), cst(a, 1))),
        "log" => format!("(call $log (i32.const {}) (i32.const {}))", PATS + 256 * a as usize, pattern(a).len()),
        "logvar" if KIND[a as usize - 1] == 20 =>
            format!("(call $load160 (i32.const {}) (i32.const {})) (call $log (i32.const {}) (i32.const 20))", id(a), SCRATCH, SCRATCH),
        "logvar" => format!("(i{}.store (i32.const {}) {}) (call $log (i32.const {}) (i32.const {}))", w(a).0, SCRATCH, get(a), SCRATCH, w(a).1),
        "put" => format!("(call $store160 (i32.const {}) (i32.const {}))", ADDRS + 32 * b as usize, id(a)),
        "xfer" => {
            let slot = |s: i64| format!("(i32.add (call $cdoff) (i32.const {}))", 20 * (s - 1));
            format!("(call $transfer {} {} (i64.const {}))", slot(a), slot(b), (c as u64).wrapping_mul(COIN) as i64)
        }
        "ret" => format!("(call $setret (i32.const {}) (i32.const {}))", PATS + 256 * a as usize, pattern(a).len()),
        "echo" => "(call $setret (call $cdoff) (call $cdlen))".into(),
        "logcd" => "(call $log (call $cdoff) (call $cdlen))".into(),
        "trapif" => format!("(if (i{}.eq {} {}) (then unreachable))", w(a).0, get(a), cst(a, b)),
        "retif" => format!("(if (i{}.eq {} {}) (then return))", w(a).0, get(a), cst(a, b)),
        "call" => format!("(call $b{})", a),
        "alloc" => {
            let mut s = String::new();
            for (k, len) in [a, b].iter().enumerate() {
                s += &format!("(i32.store (i32.const {}) (call $alloc (i32.const {})))", SCRATCH + 64 + 4 * k, len);
            }
            for (k, len) in [a, b].iter().enumerate() {
                for (j, byte) in block(c + k as i64, *len).iter().enumerate() {
                    s += &format!("(i32.store8 (i32.add (i32.load (i32.const {})) (i32.const {})) (i32.const {}))", SCRATCH + 64 + 4 * k, j, byte);
                }
            }
            for (k, len) in [a, b].iter().enumerate() {
                s += &format!("(call $log (i32.load (i32.const {})) (i32.const {}))", SCRATCH + 64 + 4 * k, len);
            }
            s
        }
        "badvar" => "(drop (call $get64 (i32.const 9999)))".into(),
        "setbad" => format!("(call $set32 (i32.const {}) (i32.const 1))", id(a)),
        "memoob" => "(drop (i32.load (i32.const 10000000)))".into(),
        "allocbig" => "(drop (call $alloc (i32.const 70000)))".into(),
        "trap" => "unreachable".into(),
        x => panic!("operation {}", x),
    }
}

pub const IMPORTS: &str = r#"
 (import "svm" "svm_static_alloc" (func $alloc (param i32) (result i32)))
 (import "svm" "svm_calldata_offset" (func $cdoff (result i32)))
 (import "svm" "svm_calldata_len" (func $cdlen (result i32)))
 (import "svm" "svm_set_returndata" (func $setret (param i32 i32)))
 (import "svm" "svm_get32" (func $get32 (param i32) (result i32)))
 (import "svm" "svm_set32" (func $set32 (param i32 i32)))
 (import "svm" "svm_get64" (func $get64 (param i32) (result i64)))
 (import "svm" "svm_set64" (func $set64 (param i32 i64)))
 (import "svm" "svm_load160" (func $load160 (param i32 i32)))
 (import "svm" "svm_store160" (func $store160 (param i32 i32)))
 (import "svm" "svm_log" (func $log (param i32 i32)))
 (import "svm" "svm_transfer" (func $transfer (param i32 i32 i64)))
"#;

pub fn wat(p: &Value, first: u32, salt: &str, ext: &[Address], profile: usize) -> String {
    let mut s = String::from("(module");
    s += IMPORTS;
    s += " (memory (export \"memory\") 1)\n";
    for k in 0..6 { s += &format!(" (data (i32.const {}) \"{}\")\n", PATS + 256 * k, esc(&pattern(k as i64))); }
    for k in 0..5 { s += &format!(" (data (i32.const {}) \"{}\")\n", ADDRS + 32 * k, esc(&v20(k as i64))); }
    for (k, a) in ext.iter().enumerate() { s += &format!(" (data (i32.const {}) \"{}\")\n", EXTS + 32 * k, esc(a.as_slice())); }
    s += &format!(" (data (i32.const 50000) \"{}\")\n", salt);
    let good = "(call $alloc (local.get 0))";
    let sneaky = |w: &str| match w {
        "read" => format!("(drop (call $get64 (i32.const {})))", first),
        "write" => format!("(call $set64 (i32.const {}) (i64.const 77))", first),
        "write32" => format!("(call $set32 (i32.const {}) (i32.const 77))", first + 1),
        "read32" => format!("(drop (call $get32 (i32.const {})))", first + 1),
        "load" => format!("(call $load160 (i32.const {}) (i32.const {}))", first + 2, SCRATCH),
        "store" => format!("(call $store160 (i32.const {}) (i32.const {}))", EXTS, first + 2),
        "move" => format!("(call $transfer (i32.const {}) (i32.const {}) (i64.const 1))", EXTS, EXTS + 32),
        _ => String::new(),
    };
    let body = match p["alloc"].as_str().unwrap() {
        "good" => good.into(),
        "fixed" => "(i32.const 45000)".into(),
        "trap" => "unreachable".to_string(),
        "far" => "(i32.const 65500)".into(),
        x => { assert!(!sneaky(x).is_empty(), "alloc {}", x); format!("{} {}", sneaky(x), good) }
    };
    s += &format!(" (func (export \"svm_alloc\") (param i32) (result i32) {})\n", body);
    s += &match p["vfy"].as_str().unwrap() {
        "valid" => " (func (export \"svm_verify\") (result i32) (i32.const 0))\n".to_string(),
        "trap" => " (func (export \"svm_verify\") unreachable)\n".to_string(),
        x => { assert!(!sneaky(x).is_empty(), "verify {}", x); format!(" (func (export \"svm_verify\") {})\n", sneaky(x)) }
    };
    for (i, f) in p["fns"].as_array().unwrap().iter().enumerate() {
        let i = i + 1;
        let body: String = f["body"].as_array().unwrap().iter().map(|o| op_wat(o, first) + "\n   ").collect();
        s += &format!(" (func $b{} {})\n", i, body);
        if f["exp"].as_bool().unwrap() {
            let name = esc(fn_name(i, profile).as_bytes());
            if f["sig"] == "ok" { s += &format!(" (export \"{}\" (func $b{}))\n", name, i) }
            else { s += &format!(" (func (export \"{}\") (param i32) (call $b{}))\n", name, i) }
        }
    }
    s + ")"
}

/// A template of the specification, realised.
pub struct Tmpl { pub code: Vec<u8>, pub ctors: Vec<String>, pub first: u32, pub addr: TemplateAddr, pub account: Address }

impl Tmpl {
    pub fn new(p: &Value, first: u32, salt: &str, ext: &[Address], profile: usize) -> Self {
        let code = wat::parse_str(&wat(p, first, salt, ext, profile)).expect("wat");
        let code = pad(code, match profile % 24 { 3 => 300, 5 => 5000, 7 => 10_000, 23 => 40_000, _ => 0 }, profile);
        let mut ctors: Vec<String> = p["fns"].as_array().unwrap().iter().enumerate().filter(|(_, f)| f["ctor"].as_bool().unwrap()).map(|(i, _)| fn_name(i + 1, profile)).collect();
        if profile % 3 == 1 { ctors.reverse(); }
        if profile % 3 == 2 { for k in 0..40 { ctors.insert(0, format!("pad{}", k)); } }
        ctors.push("ghost".into());
        let addr = svm_types::compute_template_addr(&CodeSection::new(CodeKind::Wasm, code.clone(), 0, GasMode::Fixed, 0));
        let account = svm_runtime::compute_account_addr(&SpawnAccount::new(0, &addr, "x", "f1", vec![]));
        Tmpl { code, ctors, first, addr, account }
    }
    pub fn template(&self, hdr: i64) -> Template {
        let code = CodeSection::new(CodeKind::Wasm, self.code.clone(), CodeSection::new_fixed(vec![], 0).flags(), GasMode::Fixed, if hdr == 3 { 7 } else { 0 });
        let sizes: Vec<u32> = KIND.iter().map(|k| *k as u32).collect();
        let data = DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(self.first, &sizes)));
        let header = match hdr {
            1 => None,
            2 => Some(HeaderSection::new(1, "first".into(), "a template".into())),
            _ => Some(HeaderSection::new(u32::MAX, "\u{4e2d}".into(), "".into())),
        };
        Template::new(code, data, CtorsSection::new(self.ctors.clone())).with_header(header)
    }
    pub fn deploy_message(&self, hdr: i64) -> Vec<u8> { svm_codec::template::encode(&self.template(hdr)) }
}

/// The same code with a custom section of that size at the end.
fn pad(mut code: Vec<u8>, size: usize, salt: usize) -> Vec<u8> {
    if size > 0 {
        let mut body = vec![1, b'p'];
        body.extend((0..size).map(|i| (i * 31 + i / 256 + salt) as u8));
        code.push(0);
        let mut n = body.len();
        while n >= 128 { code.push((n % 128) as u8 | 128); n /= 128; }
        code.push(n as u8);
        code.extend(body);
    }
    code
}

pub fn calldata(cd: &Value, addr: &dyn Fn(usize) -> Address) -> Vec<u8> {
    if cd["n"].as_i64().unwrap() == 0 { return vec![]; }
    let mut b = vec![];
    for s in cd["slots"].as_array().unwrap() { b.extend_from_slice(addr(s.as_u64().unwrap() as usize).as_slice()); }
    b.extend(payload(cd["n"].as_i64().unwrap()));
    b
}
