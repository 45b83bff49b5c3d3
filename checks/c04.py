#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
RULES = {"not-neutral", "partial-lost", "accumulated-late", "wrong-operation", "previous-value", "combined-in-loop",
         "combined-twice", "not-combined", "result-lost"}


def body():
    thorough = TIER != "quick"
    runs = [irc("loops,sums", ["v3", "v4", "v2", "omp3", "avx3"] if thorough else ["v3", "v4"]),
            irc("reqs,max=%d" % (4 if thorough else 2), ["d3"])]
    runs.append(irc("omp", ["omp3", "d3o"] if thorough else ["d3o"]))
    fs, cov = join(runs, RULES)
    need(cov, site_loops=400, sum_partials=140, product_partials=10, Reduction_partials=30, reduction_vectors=20, object_states=60, thread_reductions=100)
    return fs, cov


main("C04", "other",
     "Path-sensitive typestate analysis over LLVM IR of the code hilapp (built from the current source) generates for every "
     "reduction in a site loop: the partial starts from the neutral value, is changed only by the operation it is combined "
     "with, receives the previous value on exactly one rank, is combined over ranks exactly once on every path, outside the "
     "loop, and goes back to the same variable. Reduction and ReductionVector objects: abstract interpretation of all states "
     "reachable by any sequence of their public operations (combined once, with the operation prepared). Effect analysis of OpenMP regions: the threads' partials start from the "
     "neutral value of the operation that combines them.", body,
     ["two address expressions with the same text denote the same variable within one loop statement"])
