//! Replays the cases of Codec.tla: encoding and decoding messages and receipts (C01, C02, C03).
use crate::common::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::Cursor;
use svm_codec::Codec;
use svm_layout::{FixedLayout, Layout};
use svm_types::*;

pub fn arr<const N: usize>(v: &Value) -> [u8; N] {
    let mut a = [0; N];
    a.copy_from_slice(&bytes_of(v));
    a
}
pub fn addr(v: &Value) -> Address { Address::new(arr::<20>(v)) }
pub fn taddr(v: &Value) -> TemplateAddr { TemplateAddr::new(arr::<20>(v)) }
fn u16_(v: &Value) -> u16 { u16::from_be_bytes(arr(v)) }
fn u32_(v: &Value) -> u32 { u32::from_be_bytes(arr(v)) }
pub fn u64_(v: &Value) -> u64 { u64::from_be_bytes(arr(v)) }
pub fn gas(v: &Value) -> Gas { match u64_(v) { 0 => Gas::new(), x => Gas::with(x) } }
pub fn text(v: &Value) -> String { String::from_utf8(bytes_of(v)).expect("the specification's text") }
pub fn list(v: &Value) -> &Vec<Value> { v.as_array().unwrap() }
pub fn b(x: impl AsRef<[u8]>) -> Value { json!(x.as_ref()) }
fn gas_b(g: Gas) -> Value { b(g.unwrap_or(0).to_be_bytes()) }

fn logs(v: &Value) -> Vec<ReceiptLog> { list(v).iter().map(|x| ReceiptLog::new(bytes_of(x))).collect() }
fn logs_v(l: &[ReceiptLog]) -> Value { json!(l.iter().map(|x| b(x.as_bytes())).collect::<Vec<_>>()) }
fn addrs(v: &Value) -> HashSet<Address> { list(v).iter().map(addr).collect() }
fn addrs_v(s: &HashSet<Address>) -> Value {
    let mut v: Vec<Vec<u8>> = s.iter().map(|a| a.as_slice().to_vec()).collect();
    v.sort();
    json!(v)
}

fn failure(v: &Value) -> (RuntimeError, Vec<ReceiptLog>) {
    let x = &v[1];
    let (template, target) = (|| taddr(&x[1]), || addr(&x[2]));
    let err = match v[0].as_u64().unwrap() {
        0 => RuntimeError::OOG,
        1 => RuntimeError::TemplateNotFound(template()),
        2 => RuntimeError::AccountNotFound(addr(&x[1])),
        3 => RuntimeError::CompilationFailed { template: template(), target: target(), msg: text(&x[3]) },
        4 => RuntimeError::InstantiationFailed { template: template(), target: target(), msg: text(&x[3]) },
        5 => RuntimeError::FuncNotFound { template: template(), target: target(), func: text(&x[3]) },
        6 => RuntimeError::FuncFailed { template: template(), target: target(), func: text(&x[3]), msg: text(&x[4]) },
        7 => RuntimeError::FuncNotCtor { template: template(), func: text(&x[2]) },
        8 => RuntimeError::FuncNotAllowed { template: template(), target: target(), func: text(&x[3]), msg: text(&x[4]) },
        9 => RuntimeError::FuncInvalidSignature { template: template(), target: target(), func: text(&x[3]) },
        e => panic!("failure {}", e),
    };
    (err, logs(&x[0]))
}
fn failure_v(e: &RuntimeError, l: &[ReceiptLog]) -> Value {
    let l = logs_v(l);
    let (t, a) = (|t: &TemplateAddr| b(t.as_slice()), |a: &Address| b(a.as_slice()));
    match e {
        RuntimeError::OOG => json!([0, [l]]),
        RuntimeError::TemplateNotFound(x) => json!([1, [l, t(x)]]),
        RuntimeError::AccountNotFound(x) => json!([2, [l, a(x)]]),
        RuntimeError::CompilationFailed { template, target, msg } => json!([3, [l, t(template), a(target), b(msg)]]),
        RuntimeError::InstantiationFailed { template, target, msg } => json!([4, [l, t(template), a(target), b(msg)]]),
        RuntimeError::FuncNotFound { template, target, func } => json!([5, [l, t(template), a(target), b(func)]]),
        RuntimeError::FuncFailed { template, target, func, msg } => json!([6, [l, t(template), a(target), b(func), b(msg)]]),
        RuntimeError::FuncNotCtor { template, func } => json!([7, [l, t(template), b(func)]]),
        RuntimeError::FuncNotAllowed { template, target, func, msg } => json!([8, [l, t(template), a(target), b(func), b(msg)]]),
        RuntimeError::FuncInvalidSignature { template, target, func } => json!([9, [l, t(template), a(target), b(func)]]),
    }
}
pub fn receipt(m: &Value) -> Receipt {
    let (kind, res) = (m[0][0].as_u64().unwrap(), &m[0][1][1]);
    let ok = res[0] == 1;
    let x = &res[1];
    match (kind, ok) {
        (0, false) => { let (e, l) = failure(&x[0]); Receipt::Deploy(DeployReceipt::from_err(e, l)) }
        (1, false) => { let (e, l) = failure(&x[0]); Receipt::Spawn(SpawnReceipt::from_err(e, l)) }
        (2, false) => { let (e, l) = failure(&x[0]); Receipt::Call(CallReceipt::from_err(e, l)) }
        (0, true) => Receipt::Deploy(DeployReceipt { version: 0, success: true, error: None, addr: Some(taddr(&x[0])), gas_used: gas(&x[1]), logs: logs(&x[2]) }),
        (1, true) => Receipt::Spawn(SpawnReceipt {
            version: 0, success: true, error: None, account_addr: Some(addr(&x[0])), init_state: Some(State::new(arr::<32>(&x[1]))), returndata: Some(bytes_of(&x[2])),
            gas_used: gas(&x[3]), touched_accounts: addrs(&x[4]), logs: logs(&x[5]) }),
        (2, true) => Receipt::Call(CallReceipt {
            version: 0, success: true, error: None, new_state: Some(State::new(arr::<32>(&x[0]))), returndata: Some(bytes_of(&x[1])),
            gas_used: gas(&x[2]), touched_accounts: addrs(&x[3]), logs: logs(&x[4]) }),
        x => panic!("receipt {:?}", x),
    }
}
/// The receipt as the specification writes it; anything a receipt of that kind should not have is added.
fn receipt_v(r: &Receipt) -> Value {
    let (kind, version, res, extra) = match r {
        Receipt::Deploy(r) if r.success => (0, r.version, json!([1, [b(r.addr.as_ref().unwrap().as_slice()), gas_b(r.gas_used), logs_v(&r.logs)]]), r.error.is_some()),
        Receipt::Spawn(r) if r.success => (1, r.version as u16, json!([1, [b(r.account_addr.as_ref().unwrap().as_slice()), b(r.init_state.as_ref().unwrap().as_slice()), b(r.returndata.as_ref().unwrap()),
                                                       gas_b(r.gas_used), addrs_v(&r.touched_accounts), logs_v(&r.logs)]]), r.error.is_some()),
        Receipt::Call(r) if r.success => (2, r.version as u16, json!([1, [b(r.new_state.as_ref().unwrap().as_slice()), b(r.returndata.as_ref().unwrap()), gas_b(r.gas_used), addrs_v(&r.touched_accounts), logs_v(&r.logs)]]), r.error.is_some()),
        Receipt::Deploy(r) => (0, r.version, json!([0, [failure_v(r.error.as_ref().unwrap(), &r.logs)]]), r.addr.is_some()),
        Receipt::Spawn(r) => (1, r.version as u16, json!([0, [failure_v(r.error.as_ref().unwrap(), &r.logs)]]), r.account_addr.is_some() || r.init_state.is_some() || r.returndata.is_some() || !r.touched_accounts.is_empty()),
        Receipt::Call(r) => (2, r.version as u16, json!([0, [failure_v(r.error.as_ref().unwrap(), &r.logs)]]), r.new_state.is_some() || r.returndata.is_some() || !r.touched_accounts.is_empty()),
    };
    let v = json!([[kind, [b(version.to_be_bytes()), res]]]);
    if extra { json!([v, "more"]) } else { v }
}

fn layout(v: &Value) -> Layout {
    let sizes: Vec<u32> = list(&v[1]).iter().map(|x| u16_(x) as u32).collect();
    Layout::Fixed(FixedLayout::from_byte_sizes(u32_(&v[0]), &sizes))
}
fn layout_v(l: &Layout) -> Value {
    let l = l.as_fixed();
    let vars: Vec<_> = l.iter().collect();
    let mut off = 0;
    for (i, v) in vars.iter().enumerate() {
        // the variables follow one another
        if v.id != l.first() + i as u32 || v.offset != off || l.try_get(v.id).map(|x| (x.id, x.offset, x.byte_size)) != Some((v.id, v.offset, v.byte_size)) { return json!("not contiguous"); }
        off += v.byte_size;
    }
    json!([b(if vars.is_empty() { 0 } else { l.first() }.to_be_bytes()), vars.iter().map(|v| b((v.byte_size as u16).to_be_bytes())).collect::<Vec<_>>()])
}
fn section(s: &Value) -> Section {
    let x = &s[1];
    match s[0].as_u64().unwrap() {
        1 => CodeSection::new(CodeKind::Wasm, bytes_of(&x[4]), u64_(&x[1]), GasMode::Fixed, u32_(&x[3])).into(),
        2 => {
            let mut d = DataSection::with_capacity(1);
            for l in list(&x[0]) { d.add_layout(layout(l)); }
            d.into()
        }
        3 => CtorsSection::new(list(&x[0]).iter().map(text).collect()).into(),
        6 => HeaderSection::new(u32_(&x[0]), text(&x[1]), text(&x[2])).into(),
        7 => DeploySection::new(TransactionId::new(arr::<32>(&x[0])), Layer(u64_(&x[1])), addr(&x[2]), taddr(&x[3])).into(),
        k => panic!("section {}", k),
    }
}
fn section_v(s: &Section) -> Value {
    match s.kind() {
        SectionKind::Code => { let c = s.as_code(); json!([1, [[0, 1], b(c.flags().to_be_bytes()), b(if c.gas_mode() == GasMode::Fixed { 1u64 } else { 0 }.to_be_bytes()), b(c.svm_version().to_be_bytes()), b(c.code())]]) }
        SectionKind::Data => json!([2, [s.as_data().layouts().iter().map(layout_v).collect::<Vec<_>>()]]),
        SectionKind::Ctors => json!([3, [s.as_ctors().ctors().iter().map(b).collect::<Vec<_>>()]]),
        SectionKind::Header => { let h = s.as_header(); json!([6, [b(h.code_version().to_be_bytes()), b(h.name()), b(h.desc())]]) }
        SectionKind::Deploy => { let d = s.as_deploy(); json!([7, [b(d.tx_id().as_slice()), b(d.layer().0.to_be_bytes()), b(d.deployer().as_slice()), b(d.template().as_slice())]]) }
        k => json!(format!("{:?}", k)),
    }
}
const KINDS: [SectionKind; 7] = [SectionKind::Code, SectionKind::Data, SectionKind::Ctors, SectionKind::Schema, SectionKind::Api, SectionKind::Header, SectionKind::Deploy];

pub enum Msg { Envelope(Envelope), Context(Context), Call(Transaction), Spawn(SpawnAccount), Receipt(Receipt), Sections(Sections), Template(Template) }
pub fn build(ty: &str, m: &Value) -> Msg {
    let sections = || { let mut s = Sections::with_capacity(4); for x in list(m) { s.insert(section(x)); } s };
    match ty {
        "envelope" => Msg::Envelope(Envelope::new(addr(&m[0]), u64_(&m[1]), u128::from_be_bytes(arr(&m[2])), gas(&m[3]), u64_(&m[4]))),
        "context" => Msg::Context(Context::new(TransactionId::new(arr::<32>(&m[0])), Layer(u64_(&m[1])), State::new(arr::<32>(&m[2])))),
        "call" => Msg::Call(Transaction { version: u16_(&m[0]), target: addr(&m[1]), func_name: text(&m[2]), verifydata: bytes_of(&m[3]), calldata: bytes_of(&m[4]) }),
        "spawn" => Msg::Spawn(SpawnAccount { version: u16_(&m[0]), account: Account { name: text(&m[2]), template_addr: taddr(&m[1]) }, ctor_name: text(&m[3]), calldata: bytes_of(&m[4]) }),
        "receipt" => Msg::Receipt(receipt(m)),
        "sections" => Msg::Sections(sections()),
        "template" => Msg::Template(Template::from_sections(sections())),
        x => panic!("type {}", x),
    }
}
pub fn value(m: &Msg) -> Value {
    let sections = |s: &Sections| json!(s.iter().map(section_v).collect::<Vec<_>>());
    match m {
        Msg::Envelope(e) => json!([b(e.principal().as_slice()), b(e.amount().to_be_bytes()), b(e.nonce().to_be_bytes()), gas_b(e.gas_limit()), b(e.gas_fee().to_be_bytes())]),
        Msg::Context(c) => json!([b(c.tx_id().as_slice()), b(c.layer().0.to_be_bytes()), b(c.state().as_slice())]),
        Msg::Call(t) => json!([b(t.version.to_be_bytes()), b(t.target().as_slice()), b(t.func_name()), b(t.verifydata()), b(t.calldata())]),
        Msg::Spawn(s) => json!([b((s.version as u16).to_be_bytes()), b(s.template_addr().as_slice()), b(s.account_name()), b(s.ctor_name()), b(&s.calldata)]),
        Msg::Receipt(r) => receipt_v(r),
        Msg::Sections(s) => sections(s),
        Msg::Template(t) => sections(t.sections()),
    }
}
pub fn encode(m: &Msg) -> Vec<u8> {
    match m {
        Msg::Envelope(x) => x.encode_to_vec(),
        Msg::Context(x) => x.encode_to_vec(),
        Msg::Call(x) => x.encode_to_vec(),
        Msg::Spawn(x) => x.encode_to_vec(),
        Msg::Receipt(x) => x.encode_to_vec(),
        Msg::Sections(x) => x.encode_to_vec(),
        Msg::Template(x) => svm_codec::template::encode(x),
    }
}
/// The message and how many bytes it took.
pub fn decode(ty: &str, want: Option<HashSet<SectionKind>>, bytes: &[u8]) -> Result<(Msg, u64), String> {
    let mut c = Cursor::new(bytes);
    let e = |e: svm_codec::ParseError| format!("{:?}", e);
    let m = match ty {
        "envelope" => Msg::Envelope(Envelope::decode(&mut c).map_err(e)?),
        "context" => Msg::Context(Context::decode(&mut c).map_err(e)?),
        "call" => Msg::Call(Transaction::decode(&mut c).map_err(e)?),
        "spawn" => Msg::Spawn(SpawnAccount::decode(&mut c).map_err(e)?),
        "receipt" => Msg::Receipt(Receipt::decode(&mut c).map_err(e)?),
        "sections" if want.is_none() => Msg::Sections(Sections::decode(&mut c).map_err(e)?),
        "template" => Msg::Template(svm_codec::template::decode(&mut c, want).map_err(e)?),
        // partially: one section after the other
        "sections" => {
            let want = want.unwrap();
            let mut s = Sections::with_capacity(4);
            let mut d = svm_codec::SectionsDecoder::new(&mut c).map_err(e)?;
            while !d.is_eof() {
                let k = d.next_preview().map_err(e)?.kind();
                if want.contains(&k) { s.insert(d.decode_section().map_err(e)?); } else { d.skip_section().map_err(e)?; }
            }
            Msg::Sections(s)
        }
        x => panic!("type {}", x),
    };
    Ok((m, c.position()))
}

pub fn run(args: Args) {
    let mut rep = Report::new(&args);
    // decoding a message needs little memory, whatever lengths it claims
    unsafe {
        let l = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    let tok = std::sync::Arc::new(rt());
    let gs = tok.block_on(svm_state::GlobalState::in_memory(svm_genesis_config::GenesisConfig::mainnet()));
    let runtime = svm_runtime::Runtime::new(tok.clone(), gs, svm_runtime::TemplatePriceCache::new(svm_runtime::PriceResolverRegistry::default()));
    for (n, c) in traces(&args.str("in", "")) {
        let ty = c["ty"].as_str().unwrap();
        let bytes = bytes_of(&c["b"]);
        let fresh = c["fresh"] == true;
        let want: Option<HashSet<SectionKind>> = if c["all"] == true { None } else { Some(list(&c["want"]).iter().map(|k| KINDS[k.as_u64().unwrap() as usize - 1]).collect()) };
        // an intact message concerns its round trip, anything else the treatment of malformed messages
        let props: &[&str] = match (ty, fresh) { ("receipt", true) => &["C02"], (_, true) => &["C01"], ("receipt", false) => &["C02", "C03"], _ => &["C03"] };
        let wher = || json!({"case": n, "type": ty, "bytes": hex(&bytes), "want": c["want"]});
        rep.count("cases", 1);
        rep.count(&format!("{}_{}", ty, if fresh { "intact" } else if c["ok"] == true { "damaged_ok" } else { "damaged_bad" }), 1);
        if fresh {
            match no_panic(|| { let m = build(ty, &c["m"]); (value(&m), encode(&m)) }) {
                Ok((v, e)) => {
                    assert!(v == c["m"], "the harness misrepresents a message: {} {}", v, c["m"]);
                    if e != bytes { rep.mismatch(props, "encoding", json!(hex(&bytes)), json!(hex(&e)), wher()); }
                }
                Err(e) => { rep.mismatch(props, "encoding panics", json!(hex(&bytes)), json!(e), wher()); }
            }
            // a part of a message is not a message
            let step = 1 + bytes.len() / 300;
            for k in (0..bytes.len()).rev().step_by(step) {
                rep.count("prefixes", 1);
                match no_panic(|| decode(ty, None, &bytes[..k]).map(|(m, _)| value(&m))) {
                    Ok(Err(_)) => {}
                    x => { rep.mismatch(if ty == "receipt" { &["C02", "C03"] } else { &["C03"] }, "decoding a truncated message", json!("an error"), json!(format!("{:?}", x)), json!({"length": k, "of": wher()})); break; }
                }
            }
        }
        let got = no_panic(|| decode(ty, want.clone(), &bytes).map(|(m, used)| (value(&m), used, m)));
        match got {
            Err(e) => { rep.mismatch(&[props, &["C03"][..]].concat(), "decoding panics", json!(c["ok"]), json!(e), wher()); continue; }
            Ok(Err(e)) => if c["ok"] == true { rep.mismatch(props, "decoding", c["v"].clone(), json!(e), wher()); },
            Ok(Ok((v, used, m))) => {
                if c["ok"] != true { rep.mismatch(props, "decoding", json!("an error"), v, wher()); }
                else if v != c["v"] || json!(used) != c["used"] { rep.mismatch(props, "decoding", json!([c["v"], c["used"]]), json!([v, used]), wher()); }
                else {
                    // what was accepted can be encoded and decoded again
                    match no_panic(|| { let e = encode(&m); decode(ty, None, &e).map(|(m, u)| (value(&m), u as usize == e.len())) }) {
                        Ok(Ok((w, true))) if w == v => {}
                        x => { rep.mismatch(&[if ty == "receipt" { "C02" } else { "C01" }, "C03"], "encoding and decoding again", v, json!(format!("{:?}", x)), wher()); }
                    }
                }
            }
        }
        // the runtime's verdict
        if ty == "call" || ty == "spawn" {
            let ok = no_panic(|| if ty == "call" { runtime.validate_call(&bytes).is_ok() } else { runtime.validate_spawn(&bytes).is_ok() });
            if ok != Ok(c["ok"] == true) { rep.mismatch(&["C03"], "validation", c["ok"].clone(), json!(format!("{:?}", ok)), wher()); }
        }
        if n < 1 { rep.sample(c.clone()); }
    }
    rep.finish();
}
