#!/usr/bin/env python3
"""Bugs written from the properties' texts and the code alone; each is given to its own property's check.
   outsider.py [ID|NAME ...]   run those (default all), results in $OB/results.jsonl (default /tmp/ob)"""
import json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get("OREPO", "/repo"); W = os.environ.get("OB", "/tmp/ob")
B = []
def bug(prop, name, *edits): B.append((prop, name, edits))
RS, RQ, RP, PH, PC, FS, AS = "src/raft_server.cxx", "src/raft_server_req_handlers.cxx", "src/raft_server_resp_handlers.cxx", "include/peer.hxx", "src/peer.cxx", "src/fs_log_store.cxx", "src/asio_service.cxx"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "outsider_bugs.py")).read())
def main():
    sel = sys.argv[1:]; os.makedirs(W, exist_ok=True); repo = W + "/repo"
    env = dict(os.environ, VP_REPO=repo, VP_BUILD=W + "/build", VP_EVID=W + "/ev", VERIF_TIER="quick", VERIF_SEED="1")
    for prop, name, edits in B:
        if sel and prop not in sel and name not in sel: continue
        shutil.rmtree(repo, ignore_errors=True); shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns(".git", "build", "third_party"))
        bad = None
        for f, old, new in edits:
            p = repo + "/" + f; s = open(p).read()
            if s.count(old) != 1: bad = "%s: %d matches of %r" % (f, s.count(old), old[:60]); break
            open(p, "w").write(s.replace(old, new))
        t = time.time()
        if bad: r, note = "BAD EDIT", bad
        else:
            q = subprocess.run(["python3", ROOT + "/check.py", prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r = {0: "MISSED", 1: "caught", 2: "NO ANSWER"}.get(q.returncode, "rc%d" % q.returncode); note = q.stdout[-200:] if r != "caught" else q.stdout.split("\n")[0][:150]
        print(prop, name, r, round(time.time() - t), note.replace("\n", " | "), flush=True)
        open(W + "/results.jsonl", "a").write(json.dumps(dict(prop=prop, name=name, r=r, note=note)) + "\n")
main()
