#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
RULES = {"stale-copies", "not-dropped", "mask", "not-marked", "use-before-mark", "wrong-parity"}
OPS = os.path.join(VERIF, "data", "c02_ops.txt")


def body():
    thorough = TIER != "quick"
    runs = [irc("halo,max=%d,twodirs" % (3 if thorough else 1), ["d3"]),
            irc("mark,ops=" + OPS, ["v3", "v4", "omp3", "avx3"] if thorough else ["v3"])]
    if thorough:
        runs += [irc("halo,max=1,alldirs", ["d2"]), irc("halo,max=1", ["d3o"])]
    fs, cov = [], {}
    for r in runs:
        f, c = merge(r)
        fs += [x for x in f if x.rule in RULES]
        for k, v in c.items():
            cov[k] = cov.get(k, 0) + v if isinstance(v, int) else v if k not in cov else cov[k]
    need(cov, protocol_states=60, operation_runs=600, element_changes=150, change_records=150, functions_summarised=150)
    return fs, cov


main("C02", "other",
     "Two parts. (1) Interprocedural may-changed/must-recorded dataflow over LLVM IR: from every write to field storage to the "
     "end of the operation (and to the next fetch) the change is recorded on every path, for the parity of the loop or "
     "coordinate that was changed. (2) Abstract interpretation of the recording and fetching operations themselves over all "
     "reachable states of one field and direction: after a recorded change no copy older than it counts as up to date and no "
     "older fetch stays in flight.", body,
     ["copies are written only by the halo exchange routines", "DIRICHLET boundary condition is not analysed (documented as not working)"])
