"""Shared by the check scripts: running the analyser, known findings, evidence, verdict."""
import os, sys, json, time, subprocess, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pipeline
from pipeline import VERIF, REPO, BuildError, build, tool, hilapp, lock
import groups

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Unresolved(Exception):
    """The analysis lost the constructs it is about: no verdict."""


class Finding:
    def __init__(self, rule, key, where, msg, group=""):
        self.rule, self.key, self.where, self.msg, self.group = rule, key, where, msg, group

    def ident(self):
        return self.rule + "|" + self.key


class Result:
    def __init__(self):
        self.findings, self.stats, self.insts, self.notes = [], {}, [], []


def known(pid):
    """{identity: text} of the findings recorded for this property."""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                body = l[len("known: property=%s " % pid):]
                ident, _, text = body.partition(" -- ")
                r[ident.strip()] = text.strip()
    return r


def run_tool(binary, check, files, timeout=800):
    p = subprocess.run([binary, check] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace", timeout=timeout)
    if p.returncode != 0 or not p.stdout.rstrip().endswith("DONE"):
        raise RuntimeError("analyser failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
    r = Result()
    for l in p.stdout.splitlines():
        f = l.split("\t")
        if f[0] == "FINDING":
            r.findings.append(Finding(*f[1:5]))
        elif f[0] == "STAT":
            r.stats[f[1]] = int(f[2])
        elif f[0] == "INST":
            r.insts.append(f[1])
        elif f[0] == "NOTE":
            r.notes.append(f[1])
    return r


def irc(check, gnames):
    """Run one IR analysis over whole-program groups; returns {group: Result}."""
    with ThreadPoolExecutor(2) as ex:
        ft = ex.submit(tool, "irc")
        fh = ex.submit(hilapp)
        binary = ft.result()
        fh.result()
    units, per = [], {}
    for g in gnames:
        us = groups.group(g)
        per[g] = [u.name for u in us]
        units += us
    seen, uniq = set(), []
    for u in units:
        if u.name not in seen:
            seen.add(u.name)
            uniq.append(u)
    bc = build(uniq)
    pipeline.unlock()
    out = {}
    with ThreadPoolExecutor(3) as ex:
        fs = {g: ex.submit(run_tool, binary, check, [bc[n] for n in per[g]]) for g in gnames}
        for g in gnames:
            out[g] = fs[g].result()
            for f in out[g].findings:
                f.group = g
    return out


def main(pid, level, explanation, body, assumptions=()):
    """body() -> (findings, coverage dict).  Prints the verdict, writes evidence, exits."""
    t0 = time.time()
    try:
        findings, cov = body()
    except BuildError as e:
        print("ERROR: cannot build what %s analyses: %s" % (pid, e))
        sys.exit(3)
    except Unresolved as e:
        print("ERROR: %s has no verdict: %s" % (pid, e))
        sys.exit(4)
    except Exception:
        traceback.print_exc()
        sys.exit(5)
    kn = known(pid)
    uniq = {}
    for f in findings:
        uniq.setdefault(f.ident(), f)
    new, old = [], []
    for k, f in sorted(uniq.items()):
        (old if k in kn else new).append(f)
    cov = dict(cov)
    cov["explanation"] = explanation
    cov["known_findings_seen"] = [f.ident() for f in old]
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
          "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k, v in cov.items():
        if isinstance(v, (int, str, float)) and k != "explanation":
            print("  %s: %s" % (k, v))
    for f in old:
        print("KNOWN-FINDING: property=%s %s (%s) %s" % (pid, f.ident(), f.where, kn[f.ident()]))
    if new:
        rp = os.path.join(evdir, "replay", pid + ".json")
        with open(rp, "w") as fh:
            json.dump({"property": pid, "repo": REPO, "how_to_replay": "run /verif/checks/%s.py on the same tree" % pid.lower(),
                       "violations": [{"rule": f.rule, "key": f.key, "where": f.where, "message": f.msg,
                                       "group": f.group} for f in new]}, fh, indent=1)
        for f in new[:25]:
            print("  finding %s [%s] at %s: %s" % (f.rule, f.key, f.where, f.msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("OK property=%s (%.1f s)" % (pid, time.time() - t0))
    sys.exit(0)


def merge(results, sample=12):
    """Findings and coverage of several group runs."""
    fs, cov = [], {"groups": {}}
    for g, r in results.items():
        fs += r.findings
        cov["groups"][g] = dict(r.stats)
        for k, v in r.stats.items():
            cov[k] = cov.get(k, 0) + v
    insts = sorted(set(i for r in results.values() for i in r.insts))
    cov["distinct_instances"] = len(insts)
    step = max(1, len(insts) // sample)
    cov["samples"] = insts[::step][:sample]
    return fs, cov


def join(runs, rules=None):
    """Findings (of the given rules) and summed coverage of several irc() runs."""
    fs, cov = [], {"groups": {}, "samples": []}
    for r in runs:
        f, c = merge(r)
        fs += [x for x in f if rules is None or x.rule in rules]
        for k, v in c.items():
            if k == "groups":
                for g, d in v.items():
                    while g in cov["groups"]: g += "+"
                    cov["groups"][g] = d
            elif k == "samples": cov[k] += [x for x in v if x not in cov[k]]
            else: cov[k] = cov.get(k, 0) + v
    return fs, cov


def need(cov, **mins):
    """Anchors must not have vanished: a rule that no longer sees its constructs has no verdict."""
    for k, m in mins.items():
        if cov.get(k, 0) < m:
            raise Unresolved("only %d %s found (at least %d expected)" % (cov.get(k, 0), k, m))
