#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
RULES = {"request-reused", "wait-without-start", "freed-in-flight", "not-waited", "send-unpacked", "send-buffer-reused",
         "used-in-flight", "wait-count", "ends-run"}


def body():
    thorough = TIER != "quick"
    runs = [irc("halo,max=%d,twodirs" % (3 if thorough else 1), ["d3"]), irc("reqs,max=%d" % (4 if thorough else 2), ["d3"])]
    if thorough:
        runs += [irc("halo,max=1,alldirs", ["d2"]), irc("halo,max=1", ["d3o"]), irc("reqs,max=2", ["d4", "d3o"])]
    fs, cov = [], {}
    for r in runs:
        f, c = merge(r)
        fs += [x for x in f if x.rule in RULES]
        for k, v in c.items():
            cov[k] = cov.get(k, 0) + v if isinstance(v, int) else v if k not in cov else cov[k]
    need(cov, protocol_states=60, operation_runs=600, message_starts=100, local_operations=8, local_starts=100, object_states=60,
         object_starts=20)
    return fs, cov


main("C05", "other",
     "Abstract interpretation of the inlined LLVM IR. Halo exchange: all abstract states of one field and direction reachable "
     "by any sequence of allocate, start_gather, wait_gather, gather, mark_changed, set_boundary_condition and clear with any "
     "parity, on every path through each operation. Reduction objects: all abstract states reachable by any sequence of their "
     "public operations. Other operations that start messages: every path, loops followed exactly for up to two rounds.", body,
     ["a wait on a fetch is called only after the fetch was started, with no change of the field in between",
      "references obtained from a reduction vector are not used while its reduction is in flight",
      "DIRICHLET boundary condition is not analysed (documented as not working)",
      "the pencil partner list of the Fourier transform contains the own rank exactly once"])
