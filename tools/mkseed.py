#!/usr/bin/env python3
"""mkseed.py DEF.py: writes /verif/seeded/<id>/ from a definition (id, prop, needs, breaks, edits, main)."""
import os, subprocess, sys, tempfile, json, shutil
d = {}
exec(open(sys.argv[1]).read(), d)
out = "/verif/seeded/" + d["id"]
shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
wt = tempfile.mkdtemp(prefix="mk-")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt + "/w"])
try:
    for f, a, b in d["edits"]:
        p = wt + "/w/" + f
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.check_output(["git", "-C", wt + "/w", "diff"])
    open(out + "/patch.diff", "wb").write(diff)
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", wt + "/w"])
    shutil.rmtree(wt, ignore_errors=True)
json.dump(dict(property=d["prop"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
open(out + "/main.rs", "w").write(d["main"])
open(out + "/demo.sh", "w").write(open("/verif/tools/demo.sh").read())
shutil.copyfile("/verif/harness/Cargo.lock", out + "/Cargo.lock")
toml = open("/verif/harness/Cargo.toml").read().replace('name = "svm-conf"', 'name = "svm-conf"').replace("[workspace]", '[workspace]\n\n[[bin]]\nname = "demo"\npath = "main.rs"')
open(out + "/Cargo.toml", "w").write(toml)
