#!/usr/bin/env python3
"""C07: compile-fail witnesses run through the hilapp built from /repo's current source."""
import os, sys, re, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "lib"), os.path.join(HERE, "..", "witness")]
from common import *
from loops import W, PRE
import seqs
import pipeline

TAIL = "int main(int argc, char **argv) { hila::initialize(argc, argv); }\n"


def text(i, decl, body, tmpl):
    T = "T" if tmpl else "double"
    s = PRE % dict(decl="", tmpl="template <typename T> " if tmpl else "", T=T, id=i, body=body)
    s = s.replace('#include "hila.h"\n\n', "")
    s = "namespace ns_%s {\n%s\n%s" % (i, decl, s)
    if tmpl:
        s += "template void wit_%s<double>(Field<double>&,Field<double>&,Field<double>&,double,Direction);\n" % i
    return s + "} // namespace\n"


def body():
    hp = pipeline.hilapp()
    flavours = [("vanilla", 3)] if TIER == "quick" else [("vanilla", 3), ("vanilla", 4), ("openmp", 3), ("avx", 3)]
    findings, samples = [], []
    ev = {"witness_programs": len(W), "illegal_runs": 0, "refused": 0, "legal_functions": 0, "legal_accepted": 0,
          "individual_runs": 0, "crashes": 0}
    d = tempfile.mkdtemp(prefix="c07_")

    def run(src, flavour, ndim, nolimit=False):
        h, defs, _ = pipeline.FLAVOUR[flavour]
        out = src + "." + flavour + ".cpt"
        std = pipeline.clang_builtin_inc() if flavour == "openmp" else []
        opts = ["-std=c++17", "-DNDIM=%d" % ndim] + defs + pipeline.inc()
        rc, so, se = pipeline.sh([hp] + h + std + opts + [src, "-o", out] +
                                 (["--", "-ferror-limit=0"] + std + opts if nolimit else []), cwd=d)
        errs = {}
        for l in (so + se).splitlines():
            m = re.match(r"(?:\S*/)?(\S+?):(\d+):\d+: (?:fatal )?error: ?(.*)", l)
            if m and m.group(1) == os.path.basename(src):
                errs.setdefault(int(m.group(2)), m.group(3))
        if rc < 0:
            ev["crashes"] += 1     # ended without a diagnosis
            errs = {}
        return (rc != 0 or not os.path.exists(out)), errs, (so + se)[-1500:]

    def line(i, decl, b, tmpl):
        T = "T" if tmpl else "double"
        r = "namespace ns_%s { %s %svoid w(Field<%s> &a, Field<%s> &b, Field<%s> &c, double ext, Direction d) { %s }" % (
            i, decl, "template <typename T> " if tmpl else "", T, T, T, b)
        if tmpl:
            r += " template void w<double>(Field<double> &, Field<double> &, Field<double> &, double, Direction);"
        return r.replace("\n", " ") + " }\n"

    def batch(lst, name, flavour, ndim, tmpl):
        """runs the witnesses in one file; {id: refused} (the front end's error limit is lifted)"""
        if not lst:
            return {}
        p = os.path.join(d, name + ".cpp")
        open(p, "w").write('#include "hila.h"\n' + "".join(line(i, dc, b, tmpl) for i, dc, b in lst) + TAIL)
        ev["batch_runs"] = ev.get("batch_runs", 0) + 1
        n0 = ev["crashes"]
        ref, errs, log = run(p, flavour, ndim, True)
        if ev["crashes"] > n0:          # no complete diagnosis: halve
            if len(lst) == 1:
                return {lst[0][0]: "no output"}
            m = len(lst) // 2
            r = batch(lst[:m], name + "l", flavour, ndim, tmpl)
            r.update(batch(lst[m:], name + "r", flavour, ndim, tmpl))
            return r
        out = {}
        for k, w in enumerate(lst):
            if k + 2 in errs:
                out[w[0]] = errs[k + 2]
        if not ref and out or ref and not out:
            raise BuildError("hilapp: no diagnosis of the batch:\n" + log)
        return out

    def systematic(flavour, ndim, tmpl):
        tag = "%s%d%s" % (flavour, ndim, "t" if tmpl else "p")
        bad, good = [], []
        for i, dc, b, g in seqs.gen(SEQLEN):
            if b:
                bad.append((i, dc, b))
            if g:
                good.append((i, dc, g))
        q = max(1, (len(bad) + 3) // 4)
        fs = []
        with ThreadPoolExecutor(pipeline.NJ) as ex:
            jb = [ex.submit(batch, bad[k:k + q], "sb%d_%s" % (k, tag), flavour, ndim, tmpl) for k in range(0, len(bad), q)]
            jg = [ex.submit(lambda k: batch(good[k:k + q], "sg%d_%s" % (k, tag), flavour, ndim, tmpl), k)
                  for k in range(0, len(good), q)]
            rb, rg = {}, {}
            for j in jb:
                rb.update(j.result())
            for j in jg:
                try:
                    rg.update(j.result())
                except BuildError:
                    raise
            ev["systematic_illegal"] = ev.get("systematic_illegal", 0) + len(bad)
            ev["systematic_legal"] = ev.get("systematic_legal", 0) + len(good)
            # a witness with no error of its own is run alone before it is reported
            left = [w for w in bad if w[0] not in rb]
            for w, r in zip(left, ex.map(lambda w: batch([w], "s1_%s_%s" % (w[0], tag), flavour, ndim, tmpl)
                                         if left.index(w) < 40 else {}, left)):
                if w[0] not in r:
                    fs.append(Finding("illegal-loop-accepted", w[0], "witness %s (%s)" % (w[0], tag),
                                      "hilapp accepts: %s %s" % (w[1], w[2]), tag))
                else:
                    ev["refused_alone"] = ev.get("refused_alone", 0) + 1
            left = [w for w in good if w[0] in rg]
            for w, r in zip(left, ex.map(lambda w: batch([w], "s2_%s_%s" % (w[0], tag), flavour, ndim, tmpl)
                                         if left.index(w) < 40 else rg, left)):
                if w[0] in r:
                    fs.append(Finding("legal-loop-refused", w[0], "witness %s (%s)" % (w[0], tag),
                                      "a legal loop is refused: %s %s -- %s" % (w[1], w[2], r[w[0]][:200]), tag))
        samples.append("%s [%s]: %s  =>  refused: %s" % (bad[len(bad) // 2][0], tag, bad[len(bad) // 2][2],
                                                        rb.get(bad[len(bad) // 2][0], "")[:120]))
        return fs

    SEQLEN = 3 if TIER == "quick" else 4
    try:
        for flavour, ndim in flavours:
            for tmpl in (False, True):
                findings += systematic(flavour, ndim, tmpl)
                tag = "%s%d%s" % (flavour, ndim, "t" if tmpl else "p")
                # legal counterparts: all of them must be accepted together
                good = os.path.join(d, "good_%s.cpp" % tag)
                with open(good, "w") as f:
                    f.write('#include "hila.h"\n' + "".join(text(i, dc, ok, tmpl) for i, dc, bad, ok in W) + TAIL)
                ref, errs, log = run(good, flavour, ndim)
                ev["legal_functions"] += len(W)
                if not ref:
                    ev["legal_accepted"] += len(W)
                else:
                    # which ones?
                    def one(w):
                        p = os.path.join(d, "g_%s_%s.cpp" % (w[0], tag))
                        open(p, "w").write('#include "hila.h"\n' + text(w[0], w[1], w[3], tmpl) + TAIL)
                        return w, run(p, flavour, ndim)
                    with ThreadPoolExecutor(pipeline.NJ) as ex:
                        rs = list(ex.map(one, W))
                    badones = [(w, r) for w, r in rs if r[0]]
                    if not badones or len(badones) == len(W):
                        raise BuildError("hilapp refuses the legal control programs:\n" + log)
                    for w, r in badones:
                        findings.append(Finding("legal-loop-refused", "%s" % w[0], "witness %s (%s)" % (w[0], tag),
                                                "a legal loop is refused: %s -- %s" % (w[3], "; ".join(r[1].values())[:300]), tag))
                    ev["legal_accepted"] += len(W) - len(badones)
                # illegal loops: one program each, so that no witness can hide another
                ev["illegal_runs"] += len(W)
                def single(w):
                    p = os.path.join(d, "b_%s_%s.cpp" % (w[0], tag))
                    open(p, "w").write('#include "hila.h"\n' + text(w[0], w[1], w[2], tmpl) + TAIL)
                    return w, run(p, flavour, ndim)
                with ThreadPoolExecutor(pipeline.NJ) as ex:
                    for w, (r, e, lg) in ex.map(single, W):
                        ev["individual_runs"] += 1
                        if r:
                            ev["refused"] += 1
                            samples.append("%s [%s]: %s  =>  refused: %s" % (w[0], tag, w[2], "; ".join(e.values())[:120]))
                        else:
                            findings.append(Finding("illegal-loop-accepted", w[0], "witness %s (%s)" % (w[0], tag),
                                                    "hilapp accepts: %s" % w[2], tag))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ev["samples"] = samples[::max(1, len(samples) // 12)][:12]
    return findings, ev


main("C07", "other",
     "Each loop rule is encoded as a witness program that breaks only that rule (in a plain and in a template function) and "
     "a legal counterpart; hilapp built from the current source must refuse the first (error located in it, no output) and "
     "accept the second.", body,
     ["a rule is represented by its witnesses: other spellings of the same violation are covered only as far as they take "
      "the same path through hilapp"])
