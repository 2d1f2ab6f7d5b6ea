"""Plumbing of the checks: building, running TLC, replaying behaviours on the real code, evidence."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(REPO, "target", "conf")     # ours: libsvm_codec has no hash in its file name
BIN = os.path.join(TARGET, "debug", "svm-conf")
NCPU = os.cpu_count() or 1
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TLA = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    pass


def cargo_env():
    e = dict(os.environ)
    for k in ("TRYBUILD", "RUSTFLAGS", "TERM"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="nightly-2022-02-16", CARGO_HOME="/opt/svm-env/cargo-home",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_OPT_LEVEL="1", RUSTC_WRAPPER="",
             PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


def sh(cmd, cwd, env, what, timeout=850):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise ToolError("%s failed (%d)" % (what, p.returncode))
    return p.stdout


def fixture(d, name, dest, env):
    sh(["cargo", "build", "--release", "--offline", "--locked", "--target", "wasm32-unknown-unknown"], d, env, "building " + name)
    src = "%s/target/wasm32-unknown-unknown/release/%s.wasm" % (d, name)
    if not (os.path.exists(dest) and open(dest, "rb").read() == open(src, "rb").read()):
        shutil.copyfile(src, dest)


def source_hash():
    h = hashlib.sha256()
    for top in (REPO + "/crates", HARNESS, REPO + "/simple-coin-transfer-template", VERIF + "/sdk-mock", VERIF + "/sdk-wasm"):
        for r, ds, fs in os.walk(top):
            ds[:] = sorted(d for d in ds if d not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".wasm", ".lock")):
                    p = os.path.join(r, f)
                    h.update(p.encode() + b"\0")
                    h.update(open(p, "rb").read())
    return h.hexdigest()


WASM = os.path.join(TARGET, "sdk")
VARIANTS = ("scalars", "arrays", "mixed", "alike", "long")


def forget(d, prefixes):
    for e in os.listdir(d) if os.path.isdir(d) else []:
        if e.startswith(prefixes):
            shutil.rmtree(os.path.join(d, e), ignore_errors=True)


def build_sdk(env):
    """Templates written with the SDK: on the mock, and compiled to Wasm."""
    sh(["cargo", "build", "--offline", "--locked"], VERIF + "/sdk-mock", env, "building the SDK on the mock")
    env = dict(env, CARGO_TARGET_DIR=WASM)
    for v in VARIANTS:
        sh(["cargo", "build", "--release", "--offline", "--locked", "--target", "wasm32-unknown-unknown", "--features", v], VERIF + "/sdk-wasm", env, "building the template " + v)
        shutil.copyfile(WASM + "/wasm32-unknown-unknown/release/sdk_wasm.wasm", "%s/%s.wasm" % (WASM, v))


def build(sdk=False):
    """Builds the code under test, as it is in /repo now, and the replay harness."""
    t0 = time.time()
    env = cargo_env()
    env.pop("CARGO_TARGET_DIR", None)
    with open(os.path.join(tempfile.gettempdir(), "svm-conf-build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = REPO + "/simple-coin-transfer-template"
        fixture(t, "simple_coin_transfer_template", t + "/simple_coin_transfer_template.wasm", env)
        env["CARGO_TARGET_DIR"] = TARGET
        # not only modification times decide what is rebuilt
        stamp, h = TARGET + "/source.hash", source_hash()
        if os.path.exists(stamp) and open(stamp).read() != h:
            forget(TARGET + "/debug/.fingerprint", ("svm", "sdk"))
            forget(WASM + "/release/.fingerprint", ("svm", "sdk"))
            forget(WASM + "/wasm32-unknown-unknown/release/.fingerprint", ("svm", "sdk"))
        if os.path.exists(stamp):
            os.remove(stamp)
        sh(["cargo", "build", "--offline", "--locked"], HARNESS, env, "building the harness")
        if sdk:
            build_sdk(env)
        with open(stamp, "w") as f:
            f.write(h)
    return time.time() - t0


class Scratch:
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="svm-conf-", dir=base)
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------------------------------- TLC

def tla_val(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla_val(x) for x in v)) + "}"
    if isinstance(v, range):
        return "{" + ", ".join(str(x) for x in v) + "}"
    raise TypeError(v)


def cfg_text(consts, init=None, next_=None, spec=None, invariants=(), properties=(), constraint=None,
             action_constraint=None, view=None):
    o = []
    if spec:
        o.append("SPECIFICATION " + spec)
    else:
        o += ["INIT " + init, "NEXT " + next_]
    if consts:
        o.append("CONSTANTS")
        for k, v in consts.items():
            o.append("  %s %s" % (k, v[1] if isinstance(v, tuple) else "= " + tla_val(v)))
    for n, x in (("INVARIANT", invariants), ("PROPERTY", properties)):
        for y in x:
            o.append("%s %s" % (n, y))
    if constraint:
        o.append("CONSTRAINT " + constraint)
    if action_constraint:
        o.append("ACTION_CONSTRAINT " + action_constraint)
    if view:
        o.append("VIEW " + view)
    o.append("CHECK_DEADLOCK FALSE")
    return "\n".join(o) + "\n"


def run_tlc(module, cfg, scratch, extra=(), timeout=800, heap="3g", workers="1"):
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    cp = os.path.join(d, module + ".cfg")
    with open(cp, "w") as f:
        f.write(cfg)
    out = os.path.join(d, "out")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d,
           "-cp", TLA + ":/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/CommunityModules.jar",
           "tlc2.TLC", "-config", cp, "-metadir", os.path.join(d, "md"), "-workers", str(workers), "-noGenerateSpecTE"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise ToolError("TLC %s: timed out after %ss" % (module, timeout))
    return rc, out, d


def check_model(module, cfg, scratch, **kw):
    """Exhaustive check of a specification.  A violated invariant is a defect of the specification itself."""
    t0 = time.time()
    rc, out, d = run_tlc(module, cfg, scratch, workers=kw.pop("workers", "auto"), heap=kw.pop("heap", "8g"), **kw)
    txt = open(out).read()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
    dep = re.search(r"depth of the complete state graph search is (\d+)", txt)
    if rc != 0 or not m:
        sys.stderr.write(txt[-5000:])
        raise ToolError("TLC found an error in the specification %s" % module)
    shutil.rmtree(d, ignore_errors=True)
    return dict(module=module, generated=int(m.group(1)), distinct=int(m.group(2)),
                depth=int(dep.group(1)) if dep else None, wall_s=round(time.time() - t0, 1))


def parse_traces(out):
    res = []
    with open(out, errors="replace") as f:
        for l in f:
            if l.startswith('"TRACE'):
                res.append(json.loads(l)[5:].strip())
    return res


def simulate(module, consts, scratch, num, depth, seed=None, jobs=4, init="GInit", next_="GNext", invariants=("Emit",), timeout=600):
    """Random behaviours of a specification, as JSON strings, in a reproducible order."""
    seed = SEED if seed is None else seed
    jobs = max(1, min(jobs, num))
    cfg = cfg_text(consts, init=init, next_=next_, invariants=invariants)
    per = (num + jobs - 1) // jobs

    def one(j):
        rc, out, d = run_tlc(module, cfg, scratch, extra=["-simulate", "num=%d" % per, "-depth", str(depth), "-seed", str(seed * 1000 + j)], timeout=timeout)
        tr = parse_traces(out)
        if rc != 0 or not tr:
            txt = open(out, errors="replace").read()
            i = txt.find("Error:")
            sys.stderr.write(txt[i:i + 1500] if i >= 0 else txt[-1500:])
            raise ToolError("TLC simulation of %s failed" % module)
        shutil.rmtree(d, ignore_errors=True)
        return tr
    with cf.ThreadPoolExecutor(jobs) as ex:
        return [t for ts in ex.map(one, range(jobs)) for t in ts]


def enumerate_all(module, consts, scratch, init, next_, invariant, timeout=600):
    """Everything the invariant prints while TLC explores all states of a bounded specification."""
    rc, out, d = run_tlc(module, cfg_text(consts, init=init, next_=next_, invariants=[invariant]), scratch, timeout=timeout, heap="8g")
    tr = sorted(set(parse_traces(out)))
    if rc != 0 or not tr:
        sys.stderr.write(open(out, errors="replace").read()[-3000:])
        raise ToolError("TLC exploration of %s failed" % module)
    shutil.rmtree(d, ignore_errors=True)
    return tr


def explore(module, consts, scratch, init="GInit", next_="GNext", timeout=600, **kw):
    """Every transition of a bounded specification, each with a shortest behaviour that leads to it."""
    cfg = cfg_text(consts, init=init, next_=next_, action_constraint="EmitStep", view="View", **kw)
    rc, out, d = run_tlc(module, cfg, scratch, timeout=timeout, heap="6g")
    tr = parse_traces(out)
    txt = open(out, errors="replace").read()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
    if rc != 0 or not tr or not m:
        sys.stderr.write(txt[-5000:])
        raise ToolError("TLC exploration of %s failed" % module)
    shutil.rmtree(d, ignore_errors=True)
    # a behaviour that is a prefix of another one adds nothing
    tr = sorted(set(x.rstrip("]") for x in tr))
    keep = [a for a, b in zip(tr, tr[1:] + [""]) if not b.startswith(a + ",")]
    return [x + "]" for x in keep], dict(generated=int(m.group(1)), distinct=int(m.group(2)), transitions=len(tr))


# ------------------------------------------------------------------------------------- replay

def merge(reports):
    m = dict(stats={}, violations=[], known=[], other={}, samples=[])
    for r in reports:
        for k, v in r["stats"].items():
            m["stats"][k] = m["stats"].get(k, 0) + v
        m["violations"] += r["violations"]
        m["known"] += [k for k in r["known"] if k not in m["known"]]
        for k, v in r["other_properties"].items():
            m["other"][k] = m["other"].get(k, 0) + v
        m["samples"] += r["samples"]
    m["samples"] = m["samples"][:3]
    return m


def replay(sub, traces, prop, scratch, args=(), shards=None, timeout=700):
    """Runs the harness on the behaviours, in several processes, each pinned to one CPU."""
    shards = max(1, min(shards or NCPU, len(traces)))
    cpus = sorted(os.sched_getaffinity(0))
    wd = tempfile.mkdtemp(prefix="replay-", dir=scratch)

    def one(i):
        mine = traces[i::shards]
        inp, out, err = (os.path.join(wd, "%s%d" % (n, i)) for n in ("in", "out", "err"))
        with open(inp, "w") as f:
            f.write("\n".join(mine) + "\n")
        sd = os.path.join(wd, "scratch%d" % i)
        os.mkdir(sd)
        env = dict(os.environ, CONF_SCRATCH=sd, CONF_KNOWN=os.path.join(VERIF, "known_findings.json"), RUST_BACKTRACE="0", VERIF_SEED=str(SEED))
        cpu = cpus[i % len(cpus)]
        cmd = ["taskset", "-c", str(cpu), BIN, sub, "--in", inp, "--out", out, "--prop", prop] + list(args)
        with open(err, "wb") as ef:
            try:
                rc = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=ef, timeout=timeout, cwd=sd).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        shutil.rmtree(sd, ignore_errors=True)
        if rc == 0 and os.path.exists(out):
            return json.load(open(out))
        tail = open(err, errors="replace").read()[-1500:]
        return dict(stats={}, known=[], other_properties={}, samples=[],
                    violations=[dict(props=[prop], what="the code under test took the process down (%s)" % rc, expected="an answer",
                                     got=tail, where=dict(inputs=[json.loads(x) for x in mine[:3]]))])
    with cf.ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    shutil.rmtree(wd, ignore_errors=True)
    return merge(rs)


# ----------------------------------------------------------------------------------- evidence

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


class Outcome:
    """What a check did: models checked, behaviours replayed, violations found."""

    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.models, self.parts, self.viol, self.known, self.samples = [], [], [], [], []
        self.stats, self.rules, self.assumptions, self.other = {}, [], [], {}
        self.traces = 0
        self.transitions = 0

    def model(self, m):
        self.models.append(m)

    def add(self, name, ntraces, rep):
        self.traces += ntraces
        self.parts.append(dict(part=name, behaviours=ntraces, stats=rep["stats"]))
        for k, v in rep["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.viol += rep["violations"]
        for k in rep["known"]:
            if k not in self.known:
                self.known.append(k)
        for k, v in rep["other"].items():
            self.other[k] = self.other.get(k, 0) + v
        self.samples += rep["samples"]

    def finish(self):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        states = sum(m["distinct"] for m in self.models)
        trans = sum(m["generated"] for m in self.models)
        steps = self.stats.get("steps", 0) or self.stats.get("cases", 0) or self.traces
        doc = dict(property=self.prop, tier=self.tier, seed=SEED, level=self.level,
                   coverage=dict(states=states, transitions=trans, traces_validated_against_impl=self.traces,
                                 evaluations=steps, distinct_nontrivial=self.traces,
                                 rule="; ".join(self.rules) or "every step of every behaviour is compared with the specification",
                                 samples=self.samples[:3] or [dict(note="no sample")],
                                 models=self.models, parts=self.parts),
                   wall_s=round(time.time() - self.t0, 1), violations=len(self.viol),
                   assumptions=self.assumptions or ["the bounds and value domains of the specification's configurations"])
        if self.other:
            doc["coverage"]["mismatches_of_other_properties"] = self.other
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.viol:
            rd = os.path.join(ev, "replays")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.prop + ".json")
            with open(rp, "w") as f:
                json.dump(self.viol[:20], f, indent=1)
            v = self.viol[0]
            print("%s: expected %s, got %s" % (v["what"], json.dumps(v["expected"])[:300], json.dumps(v["got"])[:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s models=%d states=%d behaviours=%d steps=%d wall=%.1fs" % (
            self.prop, len(self.models), states, self.traces, steps, time.time() - self.t0))
        return 0
