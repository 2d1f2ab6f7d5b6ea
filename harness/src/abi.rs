//! Replays the cases of Abi.tla: function arguments and results as bytes (B01).
use crate::codec::{arr, list};
use crate::common::*;
use serde_json::{json, Value};
use svm_abi_decoder::{CallData, Cursor, Decoder};
use svm_abi_encoder::{ByteSize, Encoder};
use svm_sdk_types::value::{Composite, Primitive, Value as Sdk};
use svm_sdk_types::{Address, Amount};

type Buf = svm_sdk_std::Vec<u8>;
type Opt<T> = svm_sdk_std::Option<T>;

/// A Rust type that can be an argument.
trait Arg: Encoder + ByteSize + Clone + PartialEq + 'static
where
    Sdk: From<Self>,
{
    const T: &'static str;
    fn of(v: &Value) -> Self;
    fn bits(&self) -> Vec<u8>;
}
macro_rules! arg_num { ($($t:ty: $n:expr),*) => { $(impl Arg for $t {
    const T: &'static str = $n;
    fn of(v: &Value) -> Self { <$t>::from_be_bytes(arr(&v["b"])) }
    fn bits(&self) -> Vec<u8> { self.to_be_bytes().to_vec() }
})* } }
arg_num!(i8: "i8", u8: "u8", i16: "i16", u16: "u16", i32: "i32", u32: "u32", i64: "i64", u64: "u64");
impl Arg for Amount {
    const T: &'static str = "amount";
    fn of(v: &Value) -> Self { Amount(u64::from_be_bytes(arr(&v["b"]))) }
    fn bits(&self) -> Vec<u8> { self.0.to_be_bytes().to_vec() }
}
impl Arg for bool {
    const T: &'static str = "bool";
    fn of(v: &Value) -> Self { v["b"][0] == 1 }
    fn bits(&self) -> Vec<u8> { vec![*self as u8] }
}
impl Arg for Address {
    const T: &'static str = "address";
    fn of(v: &Value) -> Self { Address::from(arr::<20>(&v["b"])) }
    fn bits(&self) -> Vec<u8> { self.as_slice().to_vec() }
}
macro_rules! with_type { ($name:expr, $f:ident ( $($a:expr),* )) => { match $name {
    "i8" => $f::<i8>($($a),*), "u8" => $f::<u8>($($a),*), "i16" => $f::<i16>($($a),*), "u16" => $f::<u16>($($a),*),
    "i32" => $f::<i32>($($a),*), "u32" => $f::<u32>($($a),*), "i64" => $f::<i64>($($a),*), "u64" => $f::<u64>($($a),*),
    "amount" => $f::<Amount>($($a),*), "bool" => $f::<bool>($($a),*), "address" => $f::<Address>($($a),*),
    x => panic!("type {}", x),
} } }

/// The SDK's value.
pub fn sdk(v: &Value) -> Sdk {
    fn prim<T: Arg>(v: &Value) -> Sdk where Sdk: From<T> { T::of(v).into() }
    match v["t"].as_str().unwrap() {
        "none" => Sdk::none(),
        "unit" => Sdk::unit(),
        "array" => {
            let e = list(&v["e"]);
            let mut x = svm_sdk_std::Vec::with_capacity(e.len());
            e.iter().for_each(|y| x.push(sdk(y)));
            x.into()
        }
        t => with_type!(t, prim(v)),
    }
}
/// The specification's value.
pub fn spec(v: &Sdk) -> Value {
    let p = |t: &str, b: Vec<u8>| json!({"t": t, "b": b, "e": []});
    match v {
        Sdk::Primitive(x) => match x {
            Primitive::None => p("none", vec![]),
            Primitive::Unit => p("unit", vec![]),
            Primitive::Bool(x) => p("bool", x.bits()),
            Primitive::Address(x) => p("address", x.bits()),
            Primitive::Amount(x) => p("amount", x.bits()),
            Primitive::I8(x) => p("i8", x.bits()),
            Primitive::U8(x) => p("u8", x.bits()),
            Primitive::I16(x) => p("i16", x.bits()),
            Primitive::U16(x) => p("u16", x.bits()),
            Primitive::I32(x) => p("i32", x.bits()),
            Primitive::U32(x) => p("u32", x.bits()),
            Primitive::I64(x) => p("i64", x.bits()),
            Primitive::U64(x) => p("u64", x.bits()),
        },
        Sdk::Composite(Composite::Vec(x)) => json!({"t": "array", "b": [], "e": x.as_slice().iter().map(spec).collect::<Vec<_>>()}),
    }
}
/// The specification prints an empty function as an empty record or sequence alike.
fn norm(v: &Value) -> Value {
    json!({"t": v["t"], "b": bytes_of(&v["b"]), "e": list(&v["e"]).iter().map(norm).collect::<Vec<_>>()})
}

/// The size the value says it has and its bytes; the room is exactly that size.
fn typed<T: Encoder + ByteSize>(x: &T) -> (usize, usize, Vec<u8>) {
    let mut w = Buf::with_capacity(x.byte_size());
    x.encode(&mut w);
    (x.byte_size(), T::max_byte_size(), w.as_slice().to_vec())
}
fn untyped(x: &impl Encoder, room: usize) -> Vec<u8> {
    let mut w = Buf::with_capacity(room);
    x.encode(&mut w);
    w.as_slice().to_vec()
}
/// Everything the Rust types say about a value: size, largest size, bytes; alone, present in an option, in an array.
fn by_type<T: Arg>(v: &Value) -> Vec<(usize, usize, Vec<u8>)>
where
    Sdk: From<T>,
{
    let x = T::of(v);
    vec![typed(&x), typed(&Opt::Some(x.clone())), typed(&(x,))]
}
fn arr_by_type<T: Arg>(e: &[Value]) -> Vec<(usize, usize, Vec<u8>)>
where
    Sdk: From<T>,
{
    let x: Vec<T> = e.iter().map(T::of).collect();
    macro_rules! fixed { ($($n:literal)*) => { match x.len() {
        $($n => { let a: [T; $n] = x.try_into().ok().unwrap(); vec![typed(&a), typed(&Opt::Some(a))] })*
        n => panic!("array of {}", n),
    } } }
    fixed!(0 1 2 3 4 5 6 7 8 9 10)
}
fn none_of<T: Arg>() -> (usize, usize, Vec<u8>)
where
    Sdk: From<T>,
{
    typed(&Opt::<T>::None)
}
/// Reading a value as a type: the value as the specification writes it, or a panic.
macro_rules! read_arrays { ($v:expr, $n:expr, $($t:ident $name:literal),*; $ns:tt) => { match $n.0 {
    $($name => read_arrays!(@len $v, $n, $t, $ns),)*
    x => panic!("type {}", x),
} };
(@len $v:expr, $n:expr, $t:ident, [$($k:literal)*]) => { match $n.1 {
    $($k => { let a: [$t; $k] = $v.into(); json!({"t": "array", "b": [], "e": a.iter().map(|x| spec(&Sdk::from(x.clone()))).collect::<Vec<_>>()}) })*
    n => panic!("array of {}", n),
} } }
fn read(v: Sdk, t: &str, n: u64, opt: bool) -> Value {
    macro_rules! prims { ($($t:ty: $name:literal),*) => { match t {
        $($name => if opt {
            match Opt::<$t>::from(v) { Opt::None => spec(&Sdk::none()), Opt::Some(x) => spec(&x.into()) }
        } else { spec(&<$t>::from(v).into()) })*
        x => panic!("type {}", x),
    } } }
    if n != 99 {
        return read_arrays!(v, (t, n), Amount "amount", Address "address", bool "bool", i8 "i8", u8 "u8", i16 "i16", u16 "u16", i32 "i32", u32 "u32", i64 "i64", u64 "u64"; [1 2 3 4 5 6 7 8 9 10]);
    }
    prims!(Amount: "amount", Address: "address", bool: "bool", i8: "i8", u8: "u8", i16: "i16", u16: "u16", i32: "i32", u32: "u32", i64: "i64", u64: "u64")
}
/// All values of `bytes` with `next`; with `decode_value`; the number of bytes a failed one leaves does not matter.
fn values(bytes: &[u8]) -> (Vec<Value>, bool) {
    let (mut c, d) = (Cursor::new(bytes), Decoder::new());
    let mut out = vec![];
    while !c.is_eof() {
        match d.decode_value(&mut c) {
            svm_sdk_std::Result::Ok(v) => out.push(spec(&v)),
            svm_sdk_std::Result::Err(_) => return (out, false),
        }
    }
    (out, true)
}
struct Any(Value);
impl From<Sdk> for Any { fn from(v: Sdk) -> Self { Any(spec(&v)) } }
fn tupled(bytes: &[u8], k: usize) -> Vec<Value> {
    let mut c = CallData::new(bytes);
    let v = match k {
        1 => { let a: Any = c.next_1(); vec![a.0] }
        2 => { let (a, b): (Any, Any) = c.next_2(); vec![a.0, b.0] }
        3 => { let (a, b, d): (Any, Any, Any) = c.next_3(); vec![a.0, b.0, d.0] }
        4 => { let (a, b, d, e): (Any, Any, Any, Any) = c.next_4(); vec![a.0, b.0, d.0, e.0] }
        5 => { let (a, b, d, e, f): (Any, Any, Any, Any, Any) = c.next_5(); vec![a.0, b.0, d.0, e.0, f.0] }
        6 => { let (a, b, d, e, f, g): (Any, Any, Any, Any, Any, Any) = c.next_6(); vec![a.0, b.0, d.0, e.0, f.0, g.0] }
        _ => vec![],
    };
    v
}
macro_rules! tuple_of { ($v:expr; $a:ty, $b:ty, $c:ty, $d:ty, $e:ty, $f:expr) => { match $v.len() {
    1 => typed(&(<$a>::of(&$v[0]),)),
    2 => typed(&(<$a>::of(&$v[0]), <$b>::of(&$v[1]))),
    3 => typed(&(<$a>::of(&$v[0]), <$b>::of(&$v[1]), <$c>::of(&$v[2]))),
    4 => typed(&(<$a>::of(&$v[0]), <$b>::of(&$v[1]), <$c>::of(&$v[2]), <$d>::of(&$v[3]))),
    5 => typed(&(<$a>::of(&$v[0]), <$b>::of(&$v[1]), <$c>::of(&$v[2]), <$d>::of(&$v[3]), <$e>::of(&$v[4]))),
    _ => typed(&(<$a>::of(&$v[0]), <$b>::of(&$v[1]), <$c>::of(&$v[2]), <$d>::of(&$v[3]), <$e>::of(&$v[4]), $f)),
} } }

pub fn run(args: &Args) {
    let mut r = Report::new(args);
    for (i, t) in traces(&args.str("in", "")) {
        let vs: Vec<Value> = list(&t["vs"]).iter().map(norm).collect();
        let bytes = bytes_of(&t["b"]);
        let here = json!({"line": i, "values": vs, "bytes": hex(&bytes)});
        r.count("cases", 1);
        r.count(if t["fresh"] == true { "encoded and decoded" } else if t["ok"] == true { "damaged, decodable" } else { "damaged" }, 1);
        r.sample(here.clone());
        let largest = |ty: &str| t["max"][ty].as_u64().unwrap() as usize;
        if t["fresh"] == true {
            let mut all = vec![];
            for (v, e) in vs.iter().zip(list(&t["encs"])) {
                let e = bytes_of(e);
                let mut cmp = |r: &mut Report, what: &str, got: Result<Vec<u8>, String>| {
                    if got.as_ref().ok() != Some(&e) { r.mismatch(&["B01"], what, json!(hex(&e)), json!(format!("{:?}", got.map(|x| hex(&x)))), json!({"value": v, "case": here})); }
                };
                cmp(&mut r, "bytes of a value", no_panic(|| untyped(&sdk(v), e.len())));
                let ty = v["t"].as_str().unwrap().to_string();
                let elems = list(&v["e"]);
                let (forms, top) = match ty.as_str() {
                    "none" => (no_panic(|| vec![none_of::<bool>(), none_of::<Address>(), none_of::<u64>()]), None),
                    "unit" => (no_panic(|| vec![typed(&())]), Some(largest("unit"))),
                    "array" => {
                        let et = elems.first().map(|x| x["t"].as_str().unwrap()).unwrap_or("u8");
                        if ["none", "unit"].contains(&et) || elems.iter().any(|x| x["t"] != et) { (Ok(vec![]), None) }
                        else { (no_panic(|| with_type!(et, arr_by_type(elems))), Some(1 + elems.len() * largest(et))) }
                    }
                    ty => (no_panic(|| with_type!(ty, by_type(v))), Some(largest(ty))),
                };
                match forms {
                    Err(m) => { r.mismatch(&["B01"], "encoding a value of a Rust type panics", json!(hex(&e)), json!(m), json!({"value": v, "case": here})); }
                    Ok(fs) => for (size, most, got) in fs {
                        r.count("typed encodings", 1);
                        cmp(&mut r, "bytes of a Rust value", Ok(got));
                        if size != e.len() || e.len() > most || top.map_or(false, |x| x != most) {
                            r.mismatch(&["B01"], "declared size, largest size", json!([e.len(), top]), json!([size, most]), json!({"value": v, "case": here}));
                        }
                    },
                }
                all.extend_from_slice(&e);
            }
            // several values in a row
            if all != bytes { panic!("the specification's bytes"); }
            let s: Vec<Sdk> = vs.iter().map(sdk).collect();
            let got = no_panic(|| {
                let mut w = Buf::with_capacity(all.len());
                let mut s = s.into_iter();
                let mut n = || s.next().unwrap();
                match vs.len() {
                    0 => (),
                    1 => (n(),).encode(&mut w),
                    2 => (n(), n()).encode(&mut w),
                    3 => (n(), n(), n()).encode(&mut w),
                    4 => (n(), n(), n(), n()).encode(&mut w),
                    5 => (n(), n(), n(), n(), n()).encode(&mut w),
                    _ => (n(), n(), n(), n(), n(), n()).encode(&mut w),
                }
                w.as_slice().to_vec()
            });
            if got.as_ref().ok() != Some(&all) { r.mismatch(&["B01"], "bytes of a tuple", json!(hex(&all)), json!(format!("{:?}", got.map(|x| hex(&x)))), here.clone()); }
            if t["tup"] != 0 {
                let got = no_panic(|| if t["tup"] == 1 { tuple_of!(vs; i8, u16, i32, u64, Address, bool::of(&vs[5])) } else { tuple_of!(vs; Amount, i64, u32, i16, u8, Opt::<Address>::None) });
                let top: usize = vs.iter().map(|v| match v["t"].as_str().unwrap() { "none" => largest("address"), x => largest(x) }).sum();
                r.count("typed tuples", 1);
                match got {
                    Ok((size, most, x)) if size == all.len() && most == top && x == all => (),
                    x => { r.mismatch(&["B01"], "declared size, largest size and bytes of a tuple", json!([all.len(), top, hex(&all)]), json!(format!("{:?}", x)), here.clone()); }
                }
            }
            let got = no_panic(|| tupled(&bytes, vs.len()));
            if got.as_ref().ok() != Some(&vs) { r.mismatch(&["B01"], "values read as a tuple", json!(vs), json!(got), here.clone()); }
        }
        // reading
        match no_panic(|| values(&bytes)) {
            Ok((got, ok)) if got == vs && ok == (t["ok"] == true) => (),
            x => { r.mismatch(&["B01"], "values decoded, whether all are good", json!([vs, t["ok"]]), json!(x), here.clone()); }
        }
        for (k, a) in list(&t["asks"]).iter().enumerate() {
            let got = no_panic(|| {
                let mut c = CallData::new(&bytes);
                for _ in 0..k { c.next(); }
                let v: Option<Sdk> = c.next().into();
                v
            });
            let v = match got {
                Ok(Some(v)) if spec(&v) == vs[k] => v,
                x => { r.mismatch(&["B01"], "next value", vs[k].clone(), json!(format!("{:?}", x)), here.clone()); continue; }
            };
            let got = no_panic(|| read(v, a["t"].as_str().unwrap(), a["n"].as_u64().unwrap(), a["opt"] == true));
            r.count(if a["fits"] == true { "read as a Rust type" } else { "refused as a Rust type" }, 1);
            let want = if a["fits"] == true { Some(&vs[k]) } else { None };
            if got.as_ref().ok() != want { r.mismatch(&["B01"], "read as a Rust type", json!([a, want]), json!(got), here.clone()); }
        }
    }
    r.finish();
}
