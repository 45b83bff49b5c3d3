#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in dev/seeds*.py.  usage: mkseed.py [pattern]"""
import os, sys, re, json, subprocess, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "dev"))
import seeds
W = "/tmp/seedwt"
pat = sys.argv[1] if len(sys.argv) > 1 else "."
subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W], stderr=subprocess.DEVNULL)
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W, "HEAD"])
try:
    for s in seeds.S:
        if not re.search(pat, s["id"]): continue
        subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
        good = True
        for f, old, new in s["edits"]:
            p = os.path.join(W, f); t = open(p).read()
            if t.count(old) < 1: print("?? %s: not found in %s: %s" % (s["id"], f, old[:70])); good = False; break
            open(p, "w").write(t.replace(old, new, 1))
        if not good: continue
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
        for n, t in s["files"].items(): open(os.path.join(d, n), "w").write(t)
        shutil.copy(os.path.join(V, "dev/seedlib/build_demo.sh"), d)
        open(d + "/demo.sh", "w").write("#!/bin/bash\n. \"$(dirname \"$0\")/build_demo.sh\"\n" + s["run"] + "\n")
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("wrote", s["id"])
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W])
