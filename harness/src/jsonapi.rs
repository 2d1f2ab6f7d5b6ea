//! Replays the cases of JsonApi.tla: messages and receipts as JSON (J01).
use crate::codec::{list, text};
use crate::common::*;
use serde_json::{json, Value};
use svm_codec::api::{json as api, wasm};

fn hex_up(v: &Value) -> String { hex(&bytes_of(v)).to_uppercase() }
/// The JSON text of a value; nothing if it is absent.
fn render(v: &Value) -> Option<String> {
    Some(match v["j"].as_str().unwrap() {
        "absent" => return None,
        "null" => "null".into(),
        "bool" => (v["b"][0] == 1).to_string(),
        "int" => {
            let b = bytes_of(&v["b"]);
            let mag = b[1..].iter().fold(0u64, |a, x| a << 8 | *x as u64);
            format!("{}{}", if b[0] == 1 { "-" } else { "" }, mag)
        }
        "float" => v["t"].as_str().unwrap().into(),
        "text" => json!(text(&v["b"])).to_string(),
        "word" => json!(v["t"]).to_string(),
        "list" => format!("[{}]", list(&v["e"]).iter().map(|x| render(x).unwrap()).collect::<Vec<_>>().join(",")),
        "input" => object(&[("abi", &v["e"][0]), ("data", &v["e"][1])]),
        k => panic!("json {}", k),
    })
}
fn object(fields: &[(&str, &Value)]) -> String {
    let fs: Vec<String> = fields.iter().filter_map(|(k, v)| render(v).map(|v| format!("{}: {}", json!(k), v))).collect();
    format!("{{{}}}", fs.join(", "))
}
/// The values as JSON shows them: types and contents.
fn shown(vs: &Value) -> Value {
    fn ty(v: &Value) -> Value {
        if v["t"] == "array" { list(&v["e"]).last().map_or(Value::Null, |x| json!([x["t"]])) } else { v["t"].clone() }
    }
    fn val(v: &Value) -> Value {
        let b = || bytes_of(&v["b"]);
        let bits = || b().iter().fold(0u64, |a, x| a << 8 | *x as u64);
        match v["t"].as_str().unwrap() {
            "array" => json!(list(&v["e"]).iter().map(val).collect::<Vec<_>>()),
            "bool" => json!(v["b"][0] == 1),
            "address" => json!(hex_up(&v["b"])),
            "i8" => json!(bits() as i8),
            "i16" => json!(bits() as i16),
            "i32" => json!(bits() as i32),
            "i64" => json!(bits() as i64),
            _ => json!(bits()),
        }
    }
    json!({"abi": list(vs).iter().map(ty).collect::<Vec<_>>(), "data": list(vs).iter().map(val).collect::<Vec<_>>()})
}
fn num(v: &Value) -> u64 { bytes_of(v).iter().fold(0u64, |a, x| a << 8 | *x as u64) }
fn message(ty: &str, x: &Value) -> Value {
    match ty {
        "inputdata" => shown(x),
        "call" => json!({"version": num(&x[0]), "target": hex_up(&x[1]), "func_name": text(&x[2]), "verifydata": shown(&x[3]), "calldata": shown(&x[4])}),
        "spawn" => json!({"version": num(&x[0]), "template": hex_up(&x[1]), "name": text(&x[2]), "ctor_name": text(&x[3]), "calldata": shown(&x[4])}),
        _ => {
            let mut o = serde_json::Map::new();
            for f in list(x) {
                let x = &f["x"];
                o.insert(f["f"].as_str().unwrap().into(), match f["k"].as_str().unwrap() {
                    "word" => x.clone(),
                    "bool" => json!(*x == 1),
                    "hex" => json!(hex_up(x)),
                    "text" => json!(text(x)),
                    "gas" => if num(x) == 0 { json!(-1) } else { json!(num(x)) },
                    "addrs" => json!(list(x).iter().map(hex_up).collect::<Vec<_>>()),
                    // what a log that is no text looks like is open
                    "logs" => json!(list(x).iter().map(|l| json!({"data": String::from_utf8(bytes_of(l)).map_or(Value::Null, |s| json!(s))})).collect::<Vec<_>>()),
                    k => panic!("field {}", k),
                });
            }
            Value::Object(o)
        }
    }
}
/// Makes what is open equal: the order of addresses, and logs that are no text.
fn settle(mut got: Value, want: &Value) -> Value {
    if let Some(a) = got.get_mut("touched_accounts").and_then(|x| x.as_array_mut()) { a.sort_by_key(|x| x.to_string()); }
    if let (Some(g), Some(w)) = (got.get_mut("logs").and_then(|x| x.as_array_mut()), want.get("logs").and_then(|x| x.as_array())) {
        for (g, w) in g.iter_mut().zip(w) {
            if w["data"].is_null() && g["data"].is_string() { g["data"] = Value::Null; }
        }
    }
    got
}
type Res = Result<Result<Vec<u8>, String>, String>;
fn call(op: &str, ty: &str, s: &str) -> Res {
    let js = |r: Result<Value, api::JsonError>| r.map(|v| v.to_string().into_bytes()).map_err(|e| e.to_string());
    no_panic(|| match (op, ty) {
        ("encode", "inputdata") => js(api::encode_inputdata(s)),
        ("encode", "call") => api::encode_call_raw(s).map_err(|e| e.to_string()),
        ("encode", "call-json") => js(api::encode_call(s)),
        ("encode", "spawn") => api::encode_spawn(s).map_err(|e| e.to_string()),
        ("decode", "inputdata") => js(api::decode_inputdata(s)),
        ("decode", "call") => js(api::decode_call(s)),
        ("decode", "spawn") => js(api::decode_spawn(s)),
        ("decode", "receipt") => js(api::decode_receipt(s)),
        x => panic!("operation {:?}", x),
    })
}
/// The same through buffers, as a Wasm client does it.
fn call_wasm(op: &str, ty: &str, s: &[u8]) -> Res {
    let f = match (op, ty) {
        ("encode", "inputdata") => wasm::wasm_encode_inputdata,
        ("encode", "call") => wasm::wasm_encode_call,
        ("encode", "spawn") => wasm::wasm_encode_spawn,
        ("decode", "inputdata") => wasm::wasm_decode_inputdata,
        ("decode", "call") => wasm::wasm_decode_call,
        ("decode", "spawn") => wasm::wasm_decode_spawn,
        ("decode", "receipt") => wasm::wasm_decode_receipt,
        x => panic!("operation {:?}", x),
    };
    no_panic(|| unsafe {
        let p = wasm::wasm_alloc(s.len() as i32);
        assert_eq!(wasm::wasm_buffer_length(p) as usize, s.len(), "length of a new buffer");
        std::ptr::copy_nonoverlapping(s.as_ptr(), wasm::wasm_buffer_data(p), s.len());
        let q = f(p);
        let n = wasm::wasm_buffer_length(q) as usize;
        let out = std::slice::from_raw_parts(wasm::wasm_buffer_data(q), n).to_vec();
        let intact = std::slice::from_raw_parts(wasm::wasm_buffer_data(p), s.len()) == s;
        wasm::wasm_free(p);
        wasm::wasm_free(q);
        assert!(intact, "the input buffer was changed");
        match out[0] {
            1 => Ok(out[1..].to_vec()),
            0 => Err(String::from_utf8(out[1..].to_vec()).expect("the message is a text")),
            m => panic!("marker {}", m),
        }
    })
}

pub fn run(args: Args) {
    let mut r = Report::new(&args);
    for (i, t) in traces(&args.str("in", "")) {
        let (op, ty) = (t["op"].as_str().unwrap(), t["ty"].as_str().unwrap());
        let mut fields: Vec<(&str, &Value)> = t["doc"].as_object().unwrap().iter().map(|(k, v)| (k.as_str(), v)).collect();
        if i % 2 == 1 { fields.reverse(); }
        let doc = object(&fields);
        let ok = t["ok"] == true;
        let here = json!({"line": i, "op": op, "type": ty, "document": doc.chars().take(2000).collect::<String>()});
        r.count("cases", 1);
        r.count(&format!("{} {} {}", op, ty, if ok { "succeeds" } else { "fails" }), 1);
        if ok { r.sample(here.clone()); }
        let bad = |r: &mut Report, what: &str, want: Value, got: &dyn std::fmt::Debug| { let mut g = format!("{:?}", got); g.truncate(2000); r.mismatch(&["J01"], what, want, json!(g), here.clone()); };
        // what is expected of the operation's output
        let check = |r: &mut Report, what: &str, got: &Res, as_json: bool| {
            if !ok {
                match got { Ok(Err(m)) if !m.is_empty() => (), g => bad(r, what, json!("an error"), g) }
                return;
            }
            let want = if op == "encode" { if as_json { json!({"data": hex_up(&t["x"])}) } else { Value::Null } } else { message(ty, &t["x"]) };
            match got {
                Ok(Ok(x)) if op == "encode" && !as_json => if *x != bytes_of(&t["x"]) { bad(r, what, json!(hex_up(&t["x"])), &hex(x)) },
                Ok(Ok(x)) => match serde_json::from_slice::<Value>(x) {
                    Ok(v) => { let v = settle(v, &want); if v != want { bad(r, what, want, &v.to_string()) } }
                    Err(e) => bad(r, what, want, &e),
                },
                g => bad(r, what, want, g),
            }
        };
        let json_out = op == "decode" || ty == "inputdata";
        let direct = call(op, ty, &doc);
        check(&mut r, "result", &direct, json_out);
        check(&mut r, "result through buffers", &call_wasm(op, ty, doc.as_bytes()), json_out);
        if (op, ty) == ("encode", "call") { check(&mut r, "result as JSON", &call(op, "call-json", &doc), true); }
        // documents that are no objects, or not whole
        let whole = doc.trim_end();
        let mut texts = vec![format!("[{}]", doc), String::new(), "null".into(), "12".into(), json!(doc).to_string()];
        let step = 1 + whole.len() / 24;
        let mut k = i % step;
        while k < whole.len() { if whole.is_char_boundary(k) { texts.push(whole[..k].to_string()); } k += step; }
        for s in &texts {
            r.count("broken documents", 1);
            match call(op, ty, s) { Ok(Err(_)) => (), g => bad(&mut r, "result of a document that is not whole or no object", json!([s, "an error"]), &g) }
        }
        let mut raw = doc.clone().into_bytes();
        let at = i % raw.len();
        raw.insert(at, 0xff);
        match call_wasm(op, ty, &raw) { Ok(Err(_)) => (), g => bad(&mut r, "result of a buffer that is no text", json!("an error"), &g) }
        // what was encoded is decoded to the same
        if op == "encode" && ok {
            let back = json!({"data": hex_up(&t["x"])}).to_string();
            let got = call("decode", ty, &back);
            if t["again"]["ok"] == true {
                let want = message(ty, &t["again"]["x"]);
                match &got { Ok(Ok(x)) if serde_json::from_slice::<Value>(x).ok().as_ref() == Some(&want) => (), g => bad(&mut r, "encoded and decoded", want, g) }
            } else if !matches!(got, Ok(Err(_))) { bad(&mut r, "encoded and decoded", json!("an error"), &got) }
        }
    }
    r.finish();
}
