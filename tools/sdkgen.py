#!/usr/bin/env python3
"""Writes the template declarations of the K checks three times over, from one table: for the
specification (spec/SdkDecls.tla), for the mock (sdk-mock/src/bin) and for Wasm (sdk-wasm/src)."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WIDTH = dict(bool=1, i8=1, u8=1, i16=2, u16=2, i32=4, u32=4, i64=8, u64=8, Amount=8, Address=20)

# a field: (type, length); length 0 is no array
DECLS = {
    "Scalars": [(t, 0) for t in ("bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "Amount", "Address")],
    "Arrays": [("u8", 3), ("Address", 2), ("bool", 4), ("i64", 1), ("u16", 5), ("Amount", 3), ("i8", 2), ("u32", 4), ("i16", 3), ("u64", 2), ("i32", 6)],
    "Mixed": [("Address", 3), ("u8", 0), ("bool", 7), ("Amount", 0), ("u16", 1), ("Address", 0), ("i64", 4), ("u32", 0), ("Amount", 2), ("bool", 0), ("i32", 2), ("i16", 0)],
    "Alike": [("u32", 0), ("u32", 2), ("u32", 0), ("u32", 3), ("u32", 0), ("Address", 0), ("Address", 2), ("Address", 0), ("u64", 2), ("Amount", 0), ("Amount", 2)],
    "Long": [("u8", 40), ("Address", 0), ("Amount", 33), ("bool", 0), ("Address", 17), ("u16", 0)],
}


def path(t, i):
    # both spellings of the SDK's own types
    return "svm_sdk::" + t if t in ("Amount", "Address") and i % 2 else t


def declaration(name, mock):
    fs = DECLS[name]
    o = ["#[template]", "mod %s {" % name, "    #[storage]", "    struct Storage {"]
    for i, (t, n) in enumerate(fs):
        o.append("        f%d: %s," % (i, "[%s; %d]" % (path(t, i), n) if n else path(t, i)))
    o += ["    }", "", "    #[ctor]", "    fn initialize() {}", ""]
    for i, (t, n) in enumerate(fs):
        ref = "&" if t == "Address" else ""
        if n:
            o += ["    #[endpoint]", "    fn read_f%d(i: u32) -> %s { Storage::get_f%d(i as usize) }" % (i, t, i),
                  "    #[endpoint]", "    fn write_f%d(i: u32, v: %s) { Storage::set_f%d(i as usize, %sv); }" % (i, t, i, ref)]
        else:
            o += ["    #[endpoint]", "    fn read_f%d() -> %s { Storage::get_f%d() }" % (i, t, i),
                  "    #[endpoint]", "    fn write_f%d(v: %s) { Storage::set_f%d(%sv); }" % (i, t, i, ref)]
    o += ["}"]
    return "\n".join(o) + "\n"


def mock(name):
    fs = DECLS[name]
    o = ["// Written by tools/sdkgen.py.", "#![allow(warnings)]",
         "use svm_sdk_mock::{template, Address, Amount};", "use svm_sdk_conf::*;", "", declaration(name, True), "",
         "fn get(f: usize, i: usize) -> Vec<u8> {", "    match f {"]
    for i, (t, n) in enumerate(fs):
        o.append("        %d => Storage::get_f%d(%s).bytes()," % (i, i, "i" if n else ""))
    o += ["        _ => unreachable!(),", "    }", "}", "", "fn set(f: usize, i: usize, v: &[u8]) {", "    match f {"]
    for i, (t, n) in enumerate(fs):
        o.append("        %d => Storage::set_f%d(%s%s<%s>::of(v))," % (i, i, "i, " if n else "", "&" if t == "Address" else "", t))
    o += ["        _ => unreachable!(),", "    }", "}", "", "fn main() {", "    run(get, set, raw_meta);", "}"]
    return "\n".join(o).replace("&<Address>::of(v)", "&<Address as Cell>::of(v)").replace("<", "<") + "\n"


def tla():
    o = ["----------------------------- MODULE SdkDecls -----------------------------",
         "(* Written by tools/sdkgen.py: the storage declarations of the templates in sdk-mock and sdk-wasm. *)"]
    for name, fs in DECLS.items():
        o.append("%s == << %s >>" % (name, ", ".join('[ty |-> "%s", len |-> %d]' % f for f in fs)))
    o.append("Decls == [%s]" % ", ".join("%s |-> %s" % (n, n) for n in DECLS))
    o.append("=" * 77)
    return "\n".join(o) + "\n"


def write(p, text):
    p = os.path.join(HERE, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)


if __name__ == "__main__":
    write("spec/SdkDecls.tla", tla())
    lib = ["// Written by tools/sdkgen.py.", "#![allow(warnings)]"]
    for n in DECLS:
        write("sdk-mock/src/bin/%s.rs" % n.lower(), mock(n))
        write("sdk-wasm/src/%s.rs" % n.lower(), "use svm_sdk::{template, Address, Amount};\n\n" + declaration(n, False))
        lib.append('#[cfg(feature = "%s")]\nmod %s;' % (n.lower(), n.lower()))
    lib.append('#[cfg(feature = "app")]\nmod app;')
    write("sdk-wasm/src/lib.rs", "\n".join(lib) + "\n")
