#!/usr/bin/env python3
"""Development harness: apply each mutant of dev/mutants.py to a scratch copy of /repo and run the checks on it.
usage: mut.py [-c C12,C14] [-k] [pattern]     (benign edits have expected = "" and must leave all named checks quiet)"""
import os, sys, subprocess, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUTREPO", "/tmp/mutrepo")
sys.path.insert(0, os.path.join(V, "dev"))
from mutants import M

def copy():
    if not os.path.exists(W):
        os.makedirs(W)
        for d in ("libraries", "hilapp", "applications", "unit_tests"):
            subprocess.check_call(["cp", "-a", "/repo/" + d, W + "/" + d])
    for d in ("libraries", "hilapp", "applications"):
        subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "build", "/repo/" + d + "/", W + "/" + d + "/"]) if shutil.which("rsync") else \
            (shutil.rmtree(W + "/" + d), subprocess.check_call(["cp", "-a", "/repo/" + d, W + "/" + d]))

def main():
    a = sys.argv[1:]
    only = None
    if "-c" in a:
        i = a.index("-c"); only = a[i + 1].split(","); del a[i:i + 2]
    pat = a[0] if a else "."
    import fcntl
    lk = open(W + ".lock", "w")
    fcntl.flock(lk, fcntl.LOCK_EX)
    copy()
    bad = 0
    for m in M:
        if not re.search(pat, m["id"]): continue
        checks = m["checks"]
        if only and not set(only) & set(checks): continue
        saved = {}
        ok = True
        for f, old, new in m["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            saved.setdefault(p, s)
            n = s.count(old)
            if n < 1: print("?? %s: text not found in %s: %s" % (m["id"], f, old[:60])); ok = False; break
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        if ok:
            for c in checks:
                if only and c not in only: continue
                env = dict(os.environ, HILA_REPO=W, VERIF_CACHE=os.environ.get("MUTCACHE", "/tmp/mutcache"), VERIF_TIER="quick")
                p = subprocess.run(["python3", "%s/checks/%s.py" % (V, c.lower())], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                want = 1 if m["bug"] else 0
                st = "ok  " if p.returncode == want else "MISS" if m["bug"] else "FALSE"
                if p.returncode not in (0, 1): st = "ERR "
                if st != "ok  ": bad += 1
                f = [l.strip() for l in p.stdout.splitlines() if l.startswith("  finding") or l.startswith("ERROR")]
                print("%s %s %s rc=%d %s" % (st, m["id"], c, p.returncode, (f[0][:200] if f else "")), flush=True)
        for p, s in saved.items(): open(p, "w").write(s)
    print("bad:", bad)
main()
