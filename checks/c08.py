#!/usr/bin/env python3
"""C08: systematic compile-fail witnesses for the algebra types, against an independent typing oracle."""
import os, sys, re, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "lib"), os.path.join(HERE, "..", "witness")]
from common import *
import pipeline, algebra

HDR = ('struct tstruct { double a; int b; }; struct ntstruct { double a; ntstruct() : a(1) {} ~ntstruct() {} };\n'
       'struct vstruct { std::vector<int> v; };\ntemplate <typename A> inline void use(const A &) {}\n')
LOC = re.compile(r"(?:^|\s|\()(?:\S*/)?(w_\w+\.cpp):(\d+):\d+: ")


def body():
    hp = pipeline.hilapp()
    d = tempfile.mkdtemp(prefix="c08_")
    findings, samples = [], []
    cs = algebra.cases(TIER == "thorough")
    ev = {"expressions": len(cs), "ill_typed": sum(not c[3] for c in cs), "well_typed": sum(c[3] for c in cs),
          "typing_rules": len(set(c[1] for c in cs)), "refused": 0, "accepted": 0, "single_compilations": 0,
          "batch_compilations": 0}
    try:
        fl = ["--std=c++17", "-w", "-DNDIM=4"] + pipeline.inc() + pipeline.mpi_inc()
        src = os.path.join(d, "base.cpp")
        open(src, "w").write('#include "hila.h"\nint main(int argc, char **argv) { hila::initialize(argc, argv); }\n')
        rc, o, e = pipeline.sh([hp, "-std=c++17", "-DNDIM=4"] + pipeline.inc() + [src, "-o", src + ".cpt"], cwd=d)
        if rc or not os.path.exists(src + ".cpt"):
            raise BuildError("hilapp fails on the empty program: " + (o + e)[-2000:])
        hpp = os.path.join(d, "base.hpp")
        open(hpp, "w").write(open(src + ".cpt").read().replace("int main(", "int main_unused(") + HDR)
        rc, o, e = pipeline.sh([pipeline.CLANG, "-x", "c++-header"] + fl + [hpp, "-o", hpp + ".pch"], cwd=d)
        if rc:
            raise BuildError("the headers do not compile: " + e[-2000:])
        base = [pipeline.CLANG, "-fsyntax-only", "-fno-caret-diagnostics", "-include-pch", hpp + ".pch"] + fl

        def compile_(name, chunk, limit):
            """-> (ok, {line: first message attributed to that line})"""
            f = os.path.join(d, "w_%s.cpp" % name)
            open(f, "w").write("".join("void wit_%d() { %s }\n" % (k, c[2]) for k, c in enumerate(chunk)))
            rc, o, e = pipeline.sh(base + ["-ferror-limit=%d" % limit, f], cwd=d)
            hits, cur = {}, None
            for l in e.splitlines():
                if ": error: " in l or ": fatal error: " in l:
                    cur = l.split("error: ", 1)[1]
                elif ": note: " in l:
                    # only the instantiation chain belongs to the error's own cause
                    if "in instantiation of" not in l and "while substituting" not in l and "requested here" not in l:
                        continue
                else:
                    continue
                m = LOC.search(l)
                if m and cur:
                    hits.setdefault(int(m.group(2)), cur)
            os.remove(f)
            return rc == 0, hits, e

        good = [c for c in cs if c[3]]
        bad = [c for c in cs if not c[3]]

        def chunks(l, n):
            return [l[i:i + n] for i in range(0, len(l), n)]

        def dogood(a):
            k, ch = a
            ok, hits, log = compile_("g%d" % k, ch, 0)
            if ok:
                return [(c, True, "") for c in ch]
            r = []
            for i, c in enumerate(ch):
                ok1, h1, lg = compile_("g%d_%d" % (k, i), [c], 2)
                r.append((c, ok1, "; ".join(x.split("error: ", 1)[1] for x in lg.splitlines() if "error: " in x)[:300]))
            return r

        def dobad(a):
            k, ch = a
            ok, hits, log = compile_("b%d" % k, ch, 0)
            return [(c, hits.get(i + 1)) for i, c in enumerate(ch)]

        def dosingle(a):
            k, c = a
            ok, hits, log = compile_("s%d" % k, [c], 2)
            return c, (None if ok else "; ".join(x.split("error: ", 1)[1] for x in log.splitlines() if "error: " in x)[:200])

        with ThreadPoolExecutor(pipeline.NJ) as ex:
            gs = chunks(good, 48)
            bs = chunks(bad, 48)
            ev["batch_compilations"] = len(gs) + len(bs)
            fg = ex.map(dogood, list(enumerate(gs)))
            fb = ex.map(dobad, list(enumerate(bs)))
            ng = 0
            for rs in fg:
                for c, ok, msg in rs:
                    if ok:
                        ev["accepted"] += 1
                    else:
                        ng += 1
                        findings.append(Finding("well-typed-refused", c[0], "witness %s" % c[0],
                                                "a well-typed expression does not compile: %s -- %s" % (c[2], msg)))
            if ng > len(good) // 2:
                raise BuildError("most well-typed control expressions do not compile: the headers are broken")
            todo = []
            for rs in fb:
                for c, h in rs:
                    if h:
                        ev["refused"] += 1
                        samples.append("%s: %s  =>  %s" % (c[1], c[2], h[:160]))
                    else:
                        todo.append(c)
            ev["single_compilations"] = len(todo)
            for c, msg in ex.map(dosingle, list(enumerate(todo))):
                if msg:
                    ev["refused"] += 1
                    samples.append("%s: %s  =>  %s" % (c[1], c[2], msg[:160]))
                else:
                    findings.append(Finding("ill-typed-accepted", c[0], "witness %s" % c[0],
                                            "compiles although its types do not fit (%s): %s" % (c[1], c[2])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ev["samples"] = samples[::max(1, len(samples) // 12)][:12]
    return findings, ev


main("C08", "other",
     "Witness expressions are generated from a table of types (matrices, vectors, arrays, diagonal matrices, SU(N), complex, "
     "fields, broadcasts) crossed with shapes, element types and operations; a typing oracle written independently of the "
     "headers says which must compile (and with which result type); clang decides each against the headers as they are now.",
     body, ["an operation is represented by the sizes and element types of the table (sizes 1-3, in thorough 1-5)"])
