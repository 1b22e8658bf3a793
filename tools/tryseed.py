#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy: builds, passes the stable tests, demo passes without / fails with it; then run its property's check (or all with --all)."""
import glob, json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.path.basename(d) for d in glob.glob(ROOT + "/seeded/*"))
W = "/tmp/seedwork"; os.makedirs(W, exist_ok=True); C = W + "/repo"
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
if os.path.exists(C): shutil.rmtree(C)
run("cp -a /repo %s && rm -rf %s/_build && git -C %s checkout -q -- ." % (C, C, C))
B = "cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_COMPILER=g++ -DBUILD_TESTS=ON -DCCACHE_FOUND=CCACHE_FOUND-NOTFOUND && ninja -C %s/_build cornerstone testr" % (C, C, C)
def build(): r = run(B); return r.returncode, r.stdout
def tests():
    names = run("grep -v '^ *#' %s/tests/src/test_runner.cxx | grep -o '__run_test__([A-Za-z0-9_]*)' | sed 's/.*(\\(.*\\))/\\1/' | sort -u" % C).stdout.split(); bad = []
    for n in names:
        d = W + "/t_" + n; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        pre = "" if n.startswith("raft_server") else "LD_PRELOAD=/opt/vp/support/fixed_random_device.so"
        r = run("cd %s && timeout -k 5 60 taskset -c 0 chrt -f 1 env %s %s/_build/testr %s" % (d, pre, C, n))
        if r.returncode or ("test %s passed." % n) not in r.stdout: bad.append(n)
    return bad
rc, o = build(); assert rc == 0, o[-2000:]
def demo(i): r = run("bash %s/seeded/%s/demo.sh" % (ROOT, i), cwd=C); return r.returncode, r.stdout[-300:]
clean = {i: demo(i) for i in ids} if "--nodemo" not in sys.argv else {}
for i in ids:
    d = ROOT + "/seeded/" + i; m = json.load(open(d + "/meta.json")); line = "%s %s " % (i, m["property"])
    r = run("git -C %s apply %s/patch.diff" % (C, d))
    if r.returncode: print(line + "PATCH FAILS " + r.stdout); continue
    if clean:
        rc, o = build()
        if rc: line += "BUILD-FAILS " + o[-600:]
        else:
            line += "clean-demo=%d " % clean[i][0]; dm = demo(i); line += "demo=%d " % dm[0]
            if clean[i][0]: line += clean[i][1]
            if dm[0] == 0 or dm[0] == 2: line += dm[1]
            if "--notest" not in sys.argv: line += "tests-failing=%s " % tests()
    if "--nocheck" not in sys.argv:
        props = [m["property"]] if "--all" not in sys.argv else [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
        for p in props:
            t = time.time(); r = run("VP_REPO=%s VP_BUILD=%s/vb VP_EVID=%s/ev python3 %s/check.py %s" % (C, W, W, ROOT, p))
            if p == m["property"] or r.returncode: line += "%s:rc=%d(%.0fs) %s " % (p, r.returncode, time.time() - t, next((l.strip() for l in r.stdout.split("\n") if l.startswith("  ") or l.startswith("NO-ANSWER")), "")[:160])
    print(line, flush=True); run("git -C %s checkout -q -- ." % C)
shutil.rmtree(C)
