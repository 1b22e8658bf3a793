#!/usr/bin/env python3
"""Mutation testing of the checks: every mutant of a source file is compiled and given to the checks that look at this file.
   mutate.py list FILE...            number and show the mutants
   mutate.py run FILE[:i,j,..] ...   run them; results are appended to /tmp/mut/results.jsonl (skips what is already there)"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"; W = os.environ.get("MUT", "/tmp/mut")
CHECKS = {"raft_server.cxx": "C07 C05 C13 C14 C11 C10 C12 C08 C03 C09 C25 C22 C21 C06 C04 C02 C01", "raft_server_req_handlers.cxx": "C07 C04 C03 C10 C12 C11 C08 C06 C13 C09 C25 C21 C22 C02 C01", "raft_server_resp_handlers.cxx": "C07 C05 C12 C10 C08 C13 C14 C25 C09 C22 C21 C02 C01",
          "peer.cxx": "C14 C05 C12 C10 C22 C25", "peer.hxx": "C14 C05 C12 C10 C22 C25 C13", "fs_log_store.cxx": "C19 C26 C18", "asio_service.cxx": "C15 C23 C22", "buffer.cxx": "C17 C16 C15", "async.hxx": "C20", "delayed_task.hxx": "C22",
          "snapshot_sync_ctx.hxx": "C10 C12", "log_entry.hxx": "C17 C19", "raft_server.hxx": "C07 C21 C22 C12 C05 C09"}
DEF = "C17 C16 C10 C12 C07 C15"
NOISE = re.compile(r"wptr<|executor|handler_type|l_->|logger|^\s*//|^\s*\*|#include|^\s*#|static_assert|sstrfmt|lstrfmt|\.fmt\(|ctx_->event_listener|raise_event")
def mutants(path):
    L = open(path).read().split("\n"); out = []
    def add(i, new, what):
        if re.match(r"negate|flip (\+\+|--)", what) and not os.environ.get("ALLOPS"): return
        if new != L[i]: out.append((i, new, what))
    depth = 0
    for i, l in enumerate(L):
        s = l.strip()
        if not s or NOISE.search(l) or s.startswith("*") or s.startswith("/*"): continue
        for m in re.finditer(r"(?<![<>=\-!])(<=|>=|<|>)(?![<>=])", l):
            if re.search(r"\b(template|ptr<|vector|cast|make_shared|cs_new|std::|unique_lock|lock_guard|operator|recur|function|map|list<|->)", l) and m.group(1) in "<>": continue
            if l[m.start() - 1] == "-" : continue
            r = {"<": "<=", "<=": "<", ">": ">=", ">=": ">"}[m.group(1)]; add(i, l[:m.start()] + r + l[m.end():], m.group(1) + " -> " + r)
        for m in re.finditer(r"==|!=", l): add(i, l[:m.start()] + ("!=" if m.group() == "==" else "==") + l[m.end():], "negate " + m.group())
        for m in re.finditer(r"&&|\|\|", l): add(i, l[:m.start()] + ("||" if m.group() == "&&" else "&&") + l[m.end():], "swap " + m.group())
        for m in re.finditer(r"\s*[+-] 1\b(?!\d)", l): add(i, l[:m.start()] + l[m.end():], "drop " + m.group().strip())
        for m in re.finditer(r"\btrue\b|\bfalse\b", l): add(i, l[:m.start()] + ("false" if m.group() == "true" else "true") + l[m.end():], "flip " + m.group())
        for m in re.finditer(r"\+\+|--", l): add(i, l[:m.start()] + ("--" if m.group() == "++" else "++") + l[m.end():], "flip " + m.group())
        if s.endswith(";") and not re.match(r"(return\b|break|continue|using|typedef|throw|else|public|private|[\w:<>,\s\*&]+\s+\w+;$|case|\})", s) and (re.match(r"[\w:>\-\.\[\]\(\)\*]+\s*(=|\+=|-=|\()", s) or re.match(r"(recur_lock|auto_lock|read_lock|write_lock|std::lock_guard|std::unique_lock)", s)) and s.count("(") == s.count(")"):
            if not re.match(r"(ptr<|auto\b|bool\b|int|ulong|char|size_t|std::string)", s): add(i, re.match(r"\s*", l).group() + ";", "delete")
        if re.match(r"(return;|break;|continue;)$", s): add(i, re.match(r"\s*", l).group() + ";", "delete " + s)
    return L, out
def apply(path, L, m): T = list(L); T[m[0]] = m[1]; open(path, "w").write("\n".join(T))
def rel(f): return "src/" + f if f.endswith(".cxx") else "include/" + f
def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            L, ms = mutants(REPO + "/" + rel(f))
            for k, m in enumerate(ms): print("%s:%d line %d [%s] %s" % (f, k, m[0] + 1, m[2], L[m[0]].strip()[:110]))
        return
    os.makedirs(W, exist_ok=True); res = W + "/results.jsonl"; done = {}
    if os.path.exists(res):
        for l in open(res): r = json.loads(l); done[r["key"]] = r
    repo = W + "/repo"; shutil.rmtree(repo, ignore_errors=True); shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns(".git", "build", "third_party"))
    env = dict(os.environ, VP_REPO=repo, VP_BUILD=W + "/build", VP_EVID=W + "/ev", VERIF_TIER="quick", VERIF_SEED="1")
    for a in sys.argv[2:]:
        f, _, sel = a.partition(":"); L, ms = mutants(REPO + "/" + rel(f)); sel = [int(x) for x in sel.split(",")] if sel else range(len(ms)); p = repo + "/" + rel(f)
        for k in sel:
            m = ms[k]; key = "%s|%d|%s|%s|%s" % (f, m[0], L[m[0]].strip(), m[2], m[1].strip())
            if key in done: continue
            t = time.time(); apply(p, L, m); r = "survived"; notes = []
            for c in CHECKS.get(f, DEF).split():
                q = subprocess.run(["python3", ROOT + "/check.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if q.returncode == 1: r = "killed " + c; notes = [x.strip() for x in q.stdout.split("\n")[1:2]]; break
                if q.returncode == 2:
                    notes.append(c + ": " + q.stdout[-300:])
                    if "command failed" in q.stdout: r = "no build"; break
            if r == "survived" and notes: r = "no answer"
            rec = dict(key=key, id="%s:%d" % (f, k), line=m[0] + 1, what=m[2], code=L[m[0]].strip(), result=r, notes=notes, s=round(time.time() - t))
            open(res, "a").write(json.dumps(rec) + "\n"); print(rec["id"], rec["line"], rec["what"], "|", rec["code"][:80], "=>", r, rec["s"], flush=True)
        apply(p, L, (0, L[0], ""))
main()
