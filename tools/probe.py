#!/usr/bin/env python3
"""Which language and library features does the engine execute? (tools/h_probe.cpp) Not a check: a regression test of the engine."""
import os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT); os.environ.setdefault("VP_BUILD", "/tmp/vpprobe")
av = sys.argv[1:]; sys.argv = ["x"]
import check, concurrent.futures as cf
eng = check.build_engine(); src = ROOT + "/tools/h_probe.cpp"
es = [e for e in re.findall(r"HARNESS\((\w+)\)", open(src).read()) if not av or e in av]
u = check.build_unit(dict(name="probe", harness=["../tools/h_probe.cpp"], repo=[]), "quick", eng)
nat = check.build_native(u, eng, False)
def one(e):
    try: m = check.run_engine(eng, u["sym"], dict(entry=e, time=dict(quick=60)), "quick", 1, 1)
    except check.NoAnswer as x: return e, "ENGINE " + str(x)[-400:]
    bad = []
    if m["errs"]: bad.append(str(m["errs"]))
    for v in m["viols"]: bad.append("%s %s at %s" % (v["kind"], v["msg"], v["where"]))
    for s in m["samples"]:
        rc, out = check.run_native(nat, e, [x[1] for x in s["in"]])
        if rc: bad.append("native %d %s" % (rc, out[-300:]))
    return e, "; ".join(bad) or "ok (%d paths)" % m["paths"]
with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, es): print("%-12s %s" % r)
