#!/usr/bin/env python3
"""Regenerate /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, denv.hpp, meta.json) from the specifications in seeds/*.py against /repo's HEAD."""
import difflib, glob, json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
def src(f): return subprocess.check_output(["git", "-C", REPO, "show", "HEAD:" + f], text=True)
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, env=True): SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, env=env))
for f in sorted(glob.glob(ROOT + "/tools/seeds/*.py")): exec(compile(open(f).read(), f, "exec"))
want = set(sys.argv[1:])
for s in SEEDS:
    if want and s["id"] not in want: continue
    d = ROOT + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    out = ""; new = {}
    for f, a, b in s["edits"]:
        t = new.get(f) or src(f)
        if t.count(a) != 1: sys.exit("%s: %d matches in %s of:\n%s" % (s["id"], t.count(a), f, a))
        new[f] = t.replace(a, b)
    for f in new:
        out += "".join(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n" for l in difflib.unified_diff(src(f).splitlines(True), new[f].splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    shutil.copy(ROOT + "/tools/seed/demo.sh", d + "/demo.sh")
    if s["env"]: shutil.copy(ROOT + "/tools/seed/denv.hpp", d + "/denv.hpp")
    open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
print("\n".join(s["id"] + " " + s["prop"] for s in SEEDS if not want or s["id"] in want))
