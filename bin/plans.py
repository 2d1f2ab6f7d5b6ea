"""What each check does: which specifications are model checked, which behaviours are generated
from them, and how these are replayed on the code."""
from vlib import *

PLANS = {}
TECH = {"*": "TLA+ specification checked with TLC; TLC-generated behaviours replayed on the code and compared step by step",
        "S06": "TLA+ specification checked with TLC; TLC-generated behaviours replayed on the code, killed at every file-system call"}
NOTES = {"*": "The specification is model checked exhaustively within small bounds; the code is compared with it on the generated behaviours (all transitions of a small instance and random larger ones). Trusts the harness's mapping between the two.",
         "S06": "Every file-system call of the operation under way is a crash point (process death; the operating system survives). Trusts SQLite's recovery of single statements."}


def plan(prop, level="model_checking"):
    def deco(f):
        PLANS[prop] = (f, level)
        return f
    return deco


def M(o, scratch, module, consts, timeout=800, **kw):
    o.model(check_model(module, cfg_text(consts, **kw), scratch, timeout=timeout))


# ------------------------------------------------------------------------------------ storage

ALLOPS = {"set", "checkpoint", "rollback", "commit", "rewind", "reopen", "seal"}


def storage_models(o, s, deep):
    c = dict(Keys=range(1, 3), Vals=range(0, 2), MaxLayers=4 if deep else 3)
    M(o, s, "Storage", c, spec="Spec", invariants=["ReadLatest", "Monotone"],
      properties=["DirtyRefused", "OneLayerAtATime", "HistoryImmutable", "RewindExact"])
    M(o, s, "StorageDisk", c, spec="Spec", invariants=["FingerprintIsContent", "NoGaps", "NoOrphans", "NextIsFresh"],
      properties=["Refines"])


def storage_check(prop, ops=ALLOPS, db="file", salt=0):
    def run(o, s, deep):
        storage_models(o, s, deep)
        # all transitions of a small instance
        small = dict(Keys=range(1, 3), Vals={0}, MaxLayers=3, Depth=100, Ops=(ops | {"commit", "set"}) - {"seal"})
        tr, st = explore("StorageGen", small, s)
        n = len(tr)
        if not deep:
            tr = tr[(SEED + salt) % 6::6]
        rep = replay("storage", tr, prop, s, ["--db", db])
        o.add("all transitions of the 2-key, 1-value, 3-layer instance (%d of %d behaviours)" % (len(tr), n), len(tr), rep)
        # long random behaviours of larger instances
        for i, (keys, vals, layers, depth, num) in enumerate([(4, 4, 6, 30, 90), (7, 7, 12, 60, 32)] if not deep else
                                                           [(4, 4, 6, 40, 1500), (7, 7, 12, 80, 500), (12, 10, 25, 150, 100)]):
            tr = simulate("StorageGen", dict(Keys=range(1, keys + 1), Vals=range(0, vals), MaxLayers=layers, Depth=depth, Ops=ops),
                          s, num, depth + 5, seed=SEED * 10 + i + 100 * salt, next_="GNextW", jobs=8)
            o.add("random behaviours, %d keys, %d values, %d layers, %d steps" % (keys, vals, layers, depth), len(tr),
                  replay("storage", tr, prop, s, ["--db", db]))
        o.rules.append("every operation's outcome and every observable (latest reads, reads at every layer, dirty flag, layer number, root) is compared with the specification after every step")
        o.assumptions += ["keys are realised as account variables (1 and 3 segments), balances, counters, whole accounts, and both section groups of templates",
                          "no hash collisions"]
    return run


for i, p in enumerate(["S01", "S02", "S03", "S04", "S05", "S07"]):
    plan(p)(storage_check(p, db="file" if p in ("S07", "S04") else "mem", salt=i))


@plan("S06", "fault_enumeration")
def s06(o, s, deep):
    storage_models(o, s, deep)
    for i, (keys, vals, layers, depth, num, pts) in enumerate([(5, 3, 5, 24, 64, 60)] if not deep else [(3, 3, 5, 14, 400, 400), (7, 7, 8, 30, 120, 400)]):
        tr = simulate("StorageGen", dict(Keys=range(1, keys + 1), Vals=range(0, vals), MaxLayers=layers, Depth=depth, Ops=ALLOPS | {"crash"}),
                      s, num, depth + 5, seed=SEED * 10 + i + 900, next_="GNextC", jobs=8)
        tr = [t for t in tr if '"crash' in t]
        o.add("crashes in random behaviours, %d keys, %d layers, up to %d crash points each" % (keys, layers, pts), len(tr),
              replay("crash", tr, "S06", s, ["--points", str(pts), "--inits", "1" if not deep else "3"]))
    o.rules.append("the process is killed before the n-th file-system call of the operation, for every n (sampled evenly when there are more than the stated number), and everything observable after reopening must be the state before or the state after")
    o.assumptions.append("a crash is the death of the process (the operating system survives); SQLite's own atomicity for a single statement")


# ----------------------------------------------------------------------------------- accounts

def accounts_check(prop, salt):
    def run(o, s, deep):
        M(o, s, "Segments", dict(Seg=3, Sizes={1, 2, 4, 5} if not deep else {1, 2, 3, 4, 7}, MaxVars=2 if not deep else 3, Bytes={0, 1}),
          spec="Spec", invariants=["Disjoint", "Covered"], properties=["Refines"])
        M(o, s, "Accounts", dict(Tmpls={1}, Accts={1, 2}, NVars={1, 2}, Vals={1}, MaxLayers=2), spec="Spec",
          invariants=["HasTemplate"], properties=["OneVarAtATime", "Independent"])
        sizes = {1, 2, 3, 4, 7, 8, 15, 16, 20, 31, 32, 33, 63, 64, 65, 100}
        for i, (t, a, v, depth, num) in enumerate([(2, 3, 6, 40, 320), (4, 6, 10, 50, 80)] if not deep else
                                                  [(2, 3, 6, 40, 4000), (4, 6, 10, 80, 1500), (3, 4, 30, 150, 300)]):
            tr = simulate("AccountsGen", dict(Tmpls=range(1, t + 1), Accts=range(1, a + 1), NVars=range(1, v + 1), Vals=range(1, 9),
                                              MaxLayers=8, Depth=depth, Sizes=sizes if i == 0 else {4, 8, 20, 1, 30, 45}, Inits=200),
                          s, num, depth + 5, seed=SEED * 10 + i + 100 * salt, next_="GNextW", jobs=8)
            o.add("random behaviours, %d templates with random layouts, %d accounts, %d variables each" % (t, a, v), len(tr), replay("accounts", tr, prop, s))
        o.rules.append("after every operation all sections, records and variables (through every access function) are compared with the specification, at the latest state and at a past layer")
        o.assumptions.append("variables have at least one byte; addresses are realised as bytes that differ in one place")
    return run


for i, p in enumerate(["A01", "A02"]):
    plan(p)(accounts_check(p, 20 + i))


# ------------------------------------------------------------------------------------ runtime

MCPROPS = ["FailedChangesNothing", "Conserved", "CtorsOnlyAtSpawn", "OneLayer", "Durable", "OogChangesNothing", "VerifyNoEffect",
           "OnlyThatAccount", "OnlyThatVar", "OnlyThatTemplate"]


def runtime_check(prop, salt):
    def run(o, s, deep):
        M(o, s, "RuntimeMC", dict(NT=2, NA=3, MaxLayers=4 if deep else 3, Cap=3), spec="MSpec", constraint="Small", view="View",
          invariants=["Bounded", "CodeExists"], properties=MCPROPS)
        for i, (depth, num) in enumerate([(40, 800 if prop != "R08" else 480)] if not deep else [(40, 6000), (100, 1000)]):
            tr = simulate("RuntimeGen", dict(NT=3, NA=6, MaxLayers=25 if depth < 50 else 60, Cap=15, Depth=depth, Inits=40), s, num, depth + 5,
                          seed=SEED * 10 + i + 100 * salt, next_="GNextW", jobs=8)
            o.add("random behaviours of random templates, %d steps" % depth, len(tr), replay("runtime", tr, prop, s, timeout=3000 if deep else 700))
        o.rules.append("every receipt, and after every operation every account, variable, template, layer number and root (also at a past layer), is compared with the specification"
                       if prop != "R08" else "every receipt, layer number and root of a second node (with detours, restarts, rewinds and re-execution) is compared with the first node's, and its accounts with the specification")
        o.assumptions.append("template code is drawn from the scripts of Runtime.tla, compiled to Wasm")
    return run


for i in range(1, 10):
    plan("R0%d" % i)(runtime_check("R0%d" % i, 30 + i))


# ---------------------------------------------------------------------------------- fixed gas

def gas_check(prop, salt):
    def run(o, s, deep):
        for nf, n, d in [(1, 4, 2), (2, 2, 1)] if not deep else [(1, 5, 2), (2, 3, 1), (3, 2, 1)]:
            M(o, s, "FixedGasMC", dict(NF=nf, MaxLen=n, MaxDepth=d), spec="MSpec", invariants=["Bounded", "Attained"],
              properties=["Terminates"] if not deep or nf == 1 else [], timeout=800 if not deep else 7000)
        tr = enumerate_all("FixedGasAll", dict(NF=3, MaxLen=4 if not deep else 5, MaxDepth=2), s, "AInit", "ANext", "EmitAll", timeout=600 if not deep else 3000)
        n = len(tr)
        if not deep:
            tr = tr[(SEED + salt) % 5::5]
        o.add("all functions of up to %d instructions (%d of %d)" % (4 if not deep else 5, len(tr), n), len(tr),
              replay("gas", tr, prop, s, ["--runtime", "200"], timeout=700 if not deep else 7000))
        for i, (ln, d, wild, num) in enumerate([(30, 6, 0, 640 if prop == "G02" else 160), (14, 4, 1, 1600 if prop == "G01" else 200)] if not deep else
                                               [(30, 6, 0, 8000), (80, 10, 0, 1600), (14, 4, 1, 16000), (40, 6, 1, 2000)]):
            tr = simulate("FixedGasGen", dict(NF=6, MaxLen=ln, MaxDepth=d, Inits=20, Wild=wild), s, num, 600, seed=SEED * 10 + i + 100 * salt, next_="GNextW", jobs=8, timeout=600 if not deep else 6000)
            o.add("random programs of 6 functions of up to %d instructions%s" % (ln, ", with forbidden instructions, calls and exports" if wild else ""), len(tr),
                  replay("gas", tr, prop, s, timeout=700 if not deep else 7000))
        o.rules.append("the verdict (and that its reason applies) by Program::new, validate_wasm and Runtime::validate_deploy is compared with the specification's" if prop == "G01" else
                       "the price of every function, by ProgramPricing with the version-0 and with random prices and by the gas limit at which a spawn runs out, is compared with the specification's")
        o.assumptions.append("conditions may go either way; leaving by `unreachable' counts as leaving the function")
    return run


for i, p in enumerate(["G01", "G02"]):
    plan(p)(gas_check(p, 50 + i))


# -------------------------------------------------------------------------------------- codec

NARROW = dict(U16=1, U32=1, U64=1, U128=1, Addr=1, Hash=1, MaxText=2)
WIDE = dict(U16=2, U32=4, U64=8, U128=16, Addr=20, Hash=32, MaxText=255)
MESSAGES = {"envelope", "context", "call", "spawn", "sections", "template"}


def codec_check(prop, types, mixes, salt):
    def run(o, s, deep):
        M(o, s, "CodecMC", dict(NARROW, MaxEdits=1, MaxWild=0, Damage={0, 1, 255} if not deep else {0, 1, 2, 3, 7, 128, 194, 255}), spec="MSpec",
          invariants=["RoundTrip", "PrefixFails", "Partial", "Delimited", "Canonical"], timeout=800 if not deep else 5000)
        M(o, s, "CodecMC", dict(NARROW, MaxEdits=0, MaxWild=7 if not deep else 9, Damage={0}), spec="WSpec", invariants=["Delimited", "Canonical"], timeout=800 if not deep else 5000)
        for i, (damaged, depth) in enumerate(mixes):
            tr = simulate("CodecGen", dict(WIDE, GenTypes=types, Damaged=damaged), s, 8 if not deep else 64, depth, seed=SEED * 10 + i + 100 * salt, next_="GNextW", jobs=8, timeout=600 if not deep else 5000)
            o.add("random %s, %d%% damaged" % ("receipts" if prop == "C02" else "messages", damaged), len(tr), replay("codec", tr, prop, s, timeout=700 if not deep else 5000))
        o.rules.append("the bytes of every intact message, the outcome of decoding (the message and the bytes it took, or an error), every proper prefix, and what is encoded and decoded again are compared with the specification")
        o.assumptions.append("the kind of error is not compared")
    return run


plan("C01")(codec_check("C01", MESSAGES, [(0, 1200), (30, 600)], 60))
plan("C02")(codec_check("C02", {"receipt"}, [(0, 1200), (40, 600)], 61))
plan("C03")(codec_check("C03", MESSAGES | {"receipt"}, [(90, 2400)], 62))


# ---------------------------------------------------------------------------------------- abi

MARKERS = set(range(0, 128, 16)) | {1, 17, 113, 2, 18, 34, 50, 66, 82, 3, 51, 67, 115, 4, 20, 116, 5, 21, 6, 22, 38, 118, 7, 39, 55, 255}


@plan("B01")
def abi(o, s, deep):
    M(o, s, "AbiMC", dict(AddrLen=3, Digits={0, 255} if not deep else {0, 1, 255}, MaxWild=0, Wild={0}, Small={1, 2, 10} if not deep else range(1, 11)), spec="VSpec",
      invariants=["RoundTrip", "Minimal", "Bounded", "Delimited", "Shortest", "Unambiguous"], timeout=800 if not deep else 5000)
    M(o, s, "AbiMC", dict(AddrLen=2, Digits={0}, MaxWild=3 if not deep else 5, Wild=MARKERS, Small={1}), spec="WSpec", invariants=["Delimited", "Shortest"], timeout=800 if not deep else 5000)
    tr = enumerate_all("AbiGen", dict(AddrLen=20, Damaged=0), s, "AllInit", "AllNext", "Emit")
    o.add("every marker with payloads of every length", len(tr), replay("abi", tr, "B01", s))
    for i, (damaged, depth) in enumerate([(0, 2000), (60, 1000)]):
        tr = simulate("AbiGen", dict(AddrLen=20, Damaged=damaged), s, 8 if not deep else 160, depth, seed=SEED * 10 + i + 7000, jobs=8, timeout=600 if not deep else 5000)
        o.add("random sequences of up to 6 values, %d%% of the bytes damaged" % damaged, len(tr), replay("abi", tr, "B01", s, timeout=700 if not deep else 5000))
    o.rules.append("the bytes, the declared and the largest size of every value (untyped, as its Rust type, in an option, an array and a tuple), what is decoded of intact and damaged bytes, and every reading as a Rust type are compared with the specification")
    o.assumptions.append("reading a value as another type aborts, which is a panic outside Wasm")


@plan("J01")
def json_api(o, s, deep):
    M(o, s, "JsonApiMC", NARROW, spec="Spec", invariants=["HexInverse", "RoundTrip", "Complete"])
    for i, (bad, damaged, depth) in enumerate([(0, 0, 300), (3, 20, 500), (10, 40, 200)]):
        tr = simulate("JsonApiGen", dict(WIDE, GenTypes={"call", "spawn", "inputdata", "receipt"}, Damaged=damaged, Bad=bad), s, 8 if not deep else 160, depth,
                      seed=SEED * 10 + i + 7100, init="GJInit", next_="GJNext", invariants=["EmitJ"], jobs=8, timeout=600 if not deep else 5000)
        o.add("random documents, %d%% of the fields bad, %d%% of the encoded messages damaged" % (bad, damaged), len(tr), replay("json", tr, "J01", s, timeout=700 if not deep else 5000))
    o.rules.append("the encoded bytes or the decoded document, by the JSON functions and through the Wasm buffers, is compared with the specification; broken documents, documents that are no objects and buffers that are no text must be errors")
    o.assumptions.append("the kind of error is not compared; nor is what a log that is no text looks like")


# ---------------------------------------------------------------------------------------- ffi

@plan("F01")
def ffi(o, s, deep):
    inv = dict(spec="Spec", invariants=["DiskIsCommitted", "OneUser", "CountIsHandedOut"],
               properties=["ErrorsChangeNothing", "Isolated", "FailuresChangeNothing", "DurableUntilRewound", "CountSteps"])
    M(o, s, "FfiMC", dict(NH=2, NA=1, MaxLayers=2, Cap=1), **inv)
    M(o, s, "FfiMC", dict(NH=1, NA=2, MaxLayers=2 if not deep else 3, Cap=1), timeout=800 if not deep else 3000, **inv)
    for i, (nh, depth, num) in enumerate([(3, 60, 120), (2, 25, 64)] if not deep else [(3, 60, 2000), (2, 25, 1500), (5, 200, 200)]):
        tr = simulate("FfiGen", dict(NH=nh, NA=3, MaxLayers=9, Cap=15, Depth=depth), s, num, depth + 3, seed=SEED * 10 + i + 7200, init="GInit", next_="GNext",
                      invariants=["Emit"], jobs=8, timeout=600 if not deep else 5000)
        o.add("random behaviours of a library with %d runtimes, %d calls" % (nh, depth), len(tr), replay("ffi", tr, "F01", s, ["--concurrent", "6"], timeout=700 if not deep else 5000))
    o.rules.append("every answer (its shape, kind and receipt) and, after every call, the number of runtimes and everything that can be read of each are compared with the specification; a watched allocator counts how often the memory of each result is given back; the threads and open files of a destroyed runtime must go")
    o.rules.append("some behaviours are replayed again by four threads at once, each with runtimes of its own")
    o.assumptions += ["no two live runtimes use the same file, and a runtime is used by one thread at a time", "the current layer of a runtime that has committed none, and what verification answers, are left open"]


# ---------------------------------------------------------------------------------------- sdk

DECLS = ["Scalars", "Arrays", "Mixed", "Alike", "Long"]


def sdk_check(prop, salt):
    def run(o, s, deep):
        M(o, s, "SdkMC", dict(Fields=("", "<- MCFields"), Values=("", "<- MCValues")), spec="SSpec",
          invariants=["Disjoint", "Covered", "Agree", "ReadsLatest"], properties=["OneCell"])
        for i, d in enumerate(DECLS):
            tr = simulate("SdkGen", dict(Decl=d, Depth=60), s, 40 if not deep else 600, 65, seed=SEED * 10 + i + 100 * salt, next_="GNextW", jobs=8)
            o.add("random accesses to the storage declaration %s, on the mock and as Wasm in the runtime" % d, len(tr), replay("sdk", tr, prop, s, timeout=700 if not deep else 5000))
        o.rules.append("every value read, whether an access aborts, and after every access all variables are compared with the specification, on the SDK's mock and as compiled Wasm in the runtime"
                       if prop == "K01" else "the described variables are compared with the specification; the compiled templates must be crafted by the command line tool, pass the validation, deploy and spawn")
        o.assumptions.append("five storage declarations with all types and many array lengths, compiled with the settings of the repository's own templates")
    return run


plan("K01")(sdk_check("K01", 75))
plan("K02")(sdk_check("K02", 76))
