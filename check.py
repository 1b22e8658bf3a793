#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code (see DESIGN.md).

  check.py setup            build the engine and the run-time shim
  check.py <ID> [--entry E] [-v]   decide property <ID>
  check.py --replay FILE    run a recorded counterexample against the real code

Exit 0: held on everything explored; 1: VIOLATION (replayed natively); 2: no answer (engine error, unmodelled code, bound not exhausted).
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(ROOT, "build"))
EVID = os.environ.get("VP_EVID", ROOT + "/evidence")
CXX = "/usr/bin/clang++-18"; CC = "/usr/bin/clang-18"; LINK = "/usr/bin/llvm-link-18"
sys.path.insert(0, ROOT)
NCPU = max(1, os.cpu_count() or 1)
CFLAGS = [os.environ.get("VP_OPT", "-O1"), "-std=c++17", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-DASIO_STANDALONE", "-DASIO_HAS_STD_CHRONO"]
verbose = "-v" in sys.argv

T0 = time.time()
class NoAnswer(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise NoAnswer("command failed: %s\n%s" % (" ".join(cmd), "\n".join([l for l in p.stdout.split("\n") if "error" in l][:12]) or p.stdout[-2000:]))
    return p.stdout

def filehash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def once(out, key, fn):
    """run fn() unless `out` was already produced for the same inputs"""
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key: return
    if os.path.exists(stamp): os.unlink(stamp)
    fn()
    open(stamp, "w").write(key)

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    eng = os.path.join(BUILD, "symx"); srcs = glob.glob(ROOT + "/engine/*")
    def mk():
        flags = sh(["llvm-config-18", "--cppflags"]).split()
        sh([CXX, "-O2", "-std=c++17", "-w"] + flags + [ROOT + "/engine/main.cpp", "-o", eng + ".tmp", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"]); os.rename(eng + ".tmp", eng)
    rts = glob.glob(ROOT + "/rt/*")
    def mkrt(): sh([CXX, "-O1", "-std=c++17", "-emit-llvm", "-c", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-fno-jump-tables", "-fno-access-control", ROOT + "/rt/rt.cpp", "-o", BUILD + "/rt.bc"])
    def mkrtc(): sh([CC, "-O1", "-emit-llvm", "-c", "-fno-builtin", "-fno-jump-tables", ROOT + "/rt/rt_c.c", "-o", BUILD + "/rt_c.bc"])
    def mknat(): sh([CXX, "-O1", "-std=c++17", "-w", "-fno-access-control", "-c", "-I" + ROOT + "/rt", ROOT + "/rt/native.cpp", "-o", BUILD + "/native.o"])
    def mknata(): sh([CXX, "-O1", "-std=c++17", "-w", "-fno-access-control", "-fsanitize=address", "-c", "-I" + ROOT + "/rt", ROOT + "/rt/native.cpp", "-o", BUILD + "/native_asan.o"])
    k = filehash(rts) + "2"
    with cf.ThreadPoolExecutor(5) as ex:
        fs = [ex.submit(once, eng, filehash(srcs), mk), ex.submit(once, BUILD + "/rt.bc", k, mkrt), ex.submit(once, BUILD + "/rt_c.bc", k, mkrtc),
              ex.submit(once, BUILD + "/native.o", k, mknat), ex.submit(once, BUILD + "/native_asan.o", k, mknata)]
        for f in fs: f.result()
    return eng

def repo_headers():
    return [os.path.join(d, f) for d, _, fs in os.walk(REPO + "/include") for f in fs]

def build_unit(unit, tier, eng):
    """unit: dict(name, harness=[...], repo=[...], flags=[...]). Returns paths of the symbolic and native modules."""
    out = os.path.join(BUILD, "u_" + unit["name"] + "_" + tier); os.makedirs(out, exist_ok=True)
    flags = CFLAGS + unit.get("flags", []) + ["-I" + ROOT + "/rt", "-I" + ROOT + "/harness", "-I" + REPO + "/include", "-DVP_THOROUGH=%d" % (tier == "thorough")]
    hdrs = repo_headers() + glob.glob(ROOT + "/rt/*.h") + glob.glob(ROOT + "/harness/**/*.h*", recursive=True)
    base = filehash(hdrs, " ".join(flags))
    jobs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        bcs = []
        # the library's sources are compiled once for all units with the same flags, the harness per unit and tier
        rflags = CFLAGS + unit.get("flags", []) + ["-I" + REPO + "/include"]; rbase = filehash(repo_headers() + glob.glob(ROOT + "/harness/mock/**", recursive=False) if unit.get("flags") else repo_headers(), " ".join(rflags))
        robj = os.path.join(BUILD, "obj_" + hashlib.sha256(" ".join(rflags).encode()).hexdigest()[:8]); os.makedirs(robj, exist_ok=True)
        for s in [REPO + "/src/" + r for r in unit.get("repo", [])] + [ROOT + "/harness/" + h for h in unit["harness"]]:
            lib = s.startswith(REPO); o = os.path.join(robj if lib else out, os.path.basename(s) + ".bc"); bcs.append(o)
            def mk(s=s, o=o, fl=rflags if lib else flags): sh([CXX] + fl + ["-emit-llvm", "-c", s, "-o", o])
            jobs.append(ex.submit(once, o, filehash([s], rbase if lib else base), mk))
        for j in jobs: j.result()
    sym, nat = out + "/sym.bc", out + "/nat.bc"
    sh([LINK] + bcs + [BUILD + "/rt.bc", BUILD + "/rt_c.bc", "-o", sym])
    sh([LINK] + bcs + ["-o", nat])
    return {"sym": sym, "nat": nat, "dir": out}

def build_native(u, eng, asan):
    exe = u["dir"] + ("/native_asan" if asan else "/native")
    key = filehash([u["nat"], BUILD + ("/native_asan.o" if asan else "/native.o")])
    def mk():
        i = exe + ".i.bc"; sh([eng, "--instrument", u["nat"], i] + (["asan"] if asan else []))
        sh([CXX, "-O0" if not asan else "-O1", "-w", "-c", i, "-o", exe + ".o"] + (["-fsanitize=address"] if asan else []))
        sh([CXX, "-rdynamic", BUILD + ("/native_asan.o" if asan else "/native.o"), exe + ".o", "-o", exe, "-ldl", "-lpthread"] + (["-fsanitize=address"] if asan else []))
    once(exe, key, mk)
    return exe

def run_native(exe, entry, values):
    with tempfile.TemporaryDirectory(prefix="vpn") as d:
        f = d + "/v"; open(f, "w").write("\n".join(str(v) for v in values))
        env = dict(os.environ, TMPDIR=d, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=11:allocator_may_return_null=1")
        try: p = subprocess.run([exe, entry, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=90, env=env)
        except subprocess.TimeoutExpired: return 78, "timeout"
        return p.returncode, p.stdout

def reproduces(u, eng, entry, v):
    """replay a counterexample against the machine-code build of the real code"""
    vals = [x[1] for x in v["in"]]
    rc, out = run_native(build_native(u, eng, False), entry, vals)
    if rc == 10 or rc < 0: return True, out[-1500:]
    if v["kind"] == "memory" or rc not in (0, 77):
        rc2, out2 = run_native(build_native(u, eng, True), entry, vals)
        if rc2 in (10, 11) or rc2 < 0: return True, out2[-2500:]
        out += out2
    return False, out[-1500:]

def run_engine(eng, sym, e, tier, seed, jobs):
    with tempfile.TemporaryDirectory(prefix="vpe") as d:
        out = d + "/r"; T = e.get("time", {}).get(tier, 240 if tier == "quick" else 3000)
        if tier == "quick": T = max(20, min(T, 780 - (time.time() - T0)))
        cmd = [eng, sym, "--entry", e["entry"], "--out", out, "-j", str(jobs), "--time", str(T), "--seed", str(seed), "--samples", str(e.get("samples", 6))] + e.get("args", [])
        if verbose: cmd.append("-v")
        t0 = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if verbose and p.stdout: sys.stderr.write(p.stdout)
        if p.returncode: raise NoAnswer("engine failed on %s: %s" % (e["entry"], p.stdout[-2000:]))
        rs = [json.load(open(f)) for f in glob.glob(out + ".*")]; main = json.load(open(out))
        if "entry" in main: rs = [main]
        elif main.get("crashed"): raise NoAnswer("engine worker crashed on " + e["entry"])
        m = {"entry": e["entry"], "wall_s": round(time.time() - t0, 2)}
        for k in ["paths", "killed", "forks", "steps", "asserts_sym", "asserts_conc", "concretisations", "incomplete", "errors", "queries", "sat", "unsat", "unknown", "guessed", "core_hits", "z3_calls", "solver_s"]: m[k] = sum(r[k] for r in rs)
        for k in ["reach", "errs", "branch_at"]:
            a = {}
            for r in rs:
                for x, n in r[k].items(): a[x] = a.get(x, 0) + n
            m[k] = a
        a = {}
        for r in rs:
            for x, n in r["asserts"].items(): o = a.get(x, [0, 0]); a[x] = [o[0] + n[0], o[1] + n[1]]
        m["asserts"] = a
        m["fns"] = sorted(set(f for r in rs for f in r["fns"])); m["viols"] = [v for r in rs for v in r["viols"]]; m["samples"] = [s for r in rs for s in r["samples"]]
        return m

def load_known():
    r = []
    p = ROOT + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) match=\"([^\"]*)\" (.*)", l.strip())
            if m: r.append(dict(property=m[1], entry=m[2], match=m[3], what=m[4]))
    return r

def main():
    import props
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == "setup":
        eng = build_engine()
        return 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2])); eng = build_engine(); u = build_unit(props.UNITS[r["unit"]], r["tier"], eng)
        ok, out = reproduces(u, eng, r["entry"], r); print(out); print("reproduced" if ok else "not reproduced"); return 1 if ok else 0
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in sys.argv: tier = "thorough"
    t0 = time.time(); spec = props.PROPS[pid]; entries = spec["entries"]
    if "--entry" in sys.argv: entries = [e for e in entries if e["entry"] == sys.argv[sys.argv.index("--entry") + 1]]
    entries = [e for e in entries if tier == "thorough" or not e.get("thorough_only")]
    try:
        eng = build_engine()
        units = {n: build_unit(props.UNITS[n], tier, eng) for n in sorted(set(e["unit"] for e in entries))}
        res = []; noans = []
        light = [e for e in entries if e.get("jobs", 1) == 1]; heavy = [e for e in entries if e.get("jobs", 1) > 1]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fs = [(e, ex.submit(run_engine, eng, units[e["unit"]]["sym"], e, tier, seed, 1)) for e in light]
            for e, f in fs: res.append((e, f.result()))
        known = [k for k in load_known() if k["property"] == pid]; hits = set(); nviol = 0; unrepro = []; valid = 0; mism = []
        rdir = EVID + "/replay"; os.makedirs(rdir, exist_ok=True)
        for f in glob.glob(rdir + "/%s-*.json" % pid): os.unlink(f)
        def results():
            """all results, one entry after another; once a violation is confirmed the remaining entries are not run"""
            for r in list(res): yield r
            for e in heavy:
                if nviol: return
                res.append((e, run_engine(eng, units[e["unit"]]["sym"], e, tier, seed, min(NCPU, e["jobs"])))); yield res[-1]
        for e, m in results():
            u = units[e["unit"]]
            if verbose: print("  %-28s paths %d killed %d queries %d solver %.1fs wall %.1fs steps %.1fM reach %s errs %s asserts %s" % (e["entry"], m["paths"], m["killed"], m["queries"], m["solver_s"], m["wall_s"], m["steps"] / 1e6, m["reach"], m["errs"], m["asserts"]), file=sys.stderr)
            seen = set()
            for v in m["viols"]:
                key = (v["kind"], v["msg"])
                if key in seen: continue
                kf = [k for k in known if k["entry"] == e["entry"] and k["match"] in v["msg"]]
                if kf: hits.add(kf[0]["what"]); continue
                ok, out = reproduces(u, eng, e["entry"], v)
                rec = dict(v, property=pid, unit=e["unit"], entry=e["entry"], tier=tier, native=out)
                if ok:
                    seen.add(key); nviol += 1
                    f = "%s/%s-%d.json" % (rdir, pid, nviol); json.dump(rec, open(f, "w"), indent=1)
                    print("VIOLATION property=%s replay=%s" % (pid, f)); print("  %s: [%s] %s\n  at %s\n  inputs %s" % (e["entry"], v["kind"], v["msg"], v["where"], v["in"][:60]))
                else:
                    unrepro.append((e["entry"], v["kind"], v["msg"])); json.dump(rec, open("%s/%s-unreproduced-%d.json" % (rdir, pid, len(unrepro)), "w"), indent=1)
            if m["incomplete"] or m["unknown"] or m["errors"]: noans.append("%s: not exhausted / unmodelled: %s" % (e["entry"], dict(list(m["errs"].items())[:4])))
            for t in e.get("reach", []):
                if t not in m["reach"]: noans.append("%s: vacuous, never reached '%s'" % (e["entry"], t))
            if not m["asserts"] and not e.get("noassert"): noans.append("%s: no assertion evaluated" % e["entry"])
        if not nviol:
            def val(e, s):
                rc, out = run_native(build_native(units[e["unit"]], eng, False), e["entry"], [x[1] for x in s["in"]])
                outs = [[a, int(b)] for a, b in re.findall(r"^OUT (\S+) (\d+)$", out, re.M)]
                return rc == 0 and outs == [[a, b] for a, b in s["outs"]], (e["entry"], s, rc, out[-600:])
            for n in units: build_native(units[n], eng, False)
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for ok, info in ex.map(lambda a: val(*a), [(e, s) for e, m in res for s in m["samples"][:e.get("samples", 6)]]):
                    if ok: valid += 1
                    else: mism.append(info)
        for u in unrepro: noans.append("counterexample did not reproduce natively: %s" % (u,))
        for x in mism[:3]: noans.append("model and machine code disagree: %s" % (x,))
        for h in sorted(hits): print("KNOWN-FINDING: property=%s %s" % (pid, h))
        fns = sorted(set(f for e, m in res for f in m["fns"] if f.startswith("cornerstone::")))
        S = lambda k: sum(m[k] for e, m in res)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": nviol,
              "assumptions": spec.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
              "coverage": {"states": S("paths") + S("killed"), "transitions": S("forks"), "traces_validated_against_impl": valid,
                           "samples": [{"entry": e["entry"], "inputs": s["in"], "outputs": s["outs"]} for e, m in res for s in m["samples"][:1]][:8],
                           "explanation": "states = symbolic paths (each stands for every input satisfying its path condition); transitions = solver-decided forks; every assertion on every path was discharged by the solver for all remaining values",
                           "bounds": spec["bounds"], "outside_bounds": spec.get("outside", ""), "functions_encoded": fns, "functions_encoded_count": len(fns),
                           "instructions_executed": S("steps"), "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_answered_by_checked_model": S("guessed"), "queries_answered_by_known_unsat_core": S("core_hits"), "queries_sent_to_z3": S("z3_calls"), "solver_s": round(S("solver_s"), 3),
                           "assertions_symbolic": S("asserts_sym"), "assertions_concrete": S("asserts_conc"), "paths_cut_by_assumptions": S("killed"), "exhaustive": not noans,
                           "per_entry": {e["entry"]: {"paths": m["paths"], "queries": m["queries"], "solver_s": round(m["solver_s"], 2), "wall_s": m["wall_s"], "witnesses": m["reach"], "assertions": m["asserts"]} for e, m in res}, "not_answered": noans}}
        json.dump(ev, open(EVID + "/%s.json" % pid, "w"), indent=1)
        if nviol: return 1
        if noans:
            for n in noans: print("NO-ANSWER %s" % n)
            return 2
        print("OK property=%s paths=%d queries=%d solver_s=%.1f validated=%d wall=%.1fs" % (pid, S("paths"), S("queries"), S("solver_s"), valid, time.time() - t0))
        return 0
    except NoAnswer as x:
        print("NO-ANSWER %s" % x); return 2

if __name__ == "__main__":
    sys.exit(main())
