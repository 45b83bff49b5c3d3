#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
RULES = {"shared-write", "global-write", "unknown-write", "other-site", "not-shared-out"}


def body():
    thorough = TIER != "quick"
    fs, cov = join([irc("omp", ["d3o", "omp3"] if thorough else ["d3o"])], RULES)
    need(cov, parallel_regions=250, parallel_loops=250, writes_judged=2000, element_writes=120, thread_reductions=100, functions_called_in_regions=400)
    return fs, cov


main("C11", "other",
     "Interprocedural effect analysis over LLVM IR of the code hilapp (built from the current source) generates for the OpenMP "
     "target: for every parallel region and everything called in it, each write is traced to the storage it may reach "
     "(thread-local, fresh, argument, global, unknown). Shared storage may be written only at the element of the thread's own "
     "iteration, through a declared thread-combined reduction, atomically or in a critical section.", body,
     ["a table of field elements used by the library's own packing loops has no repeated entry",
      "library functions of the C and C++ runtime listed in omp.cpp do not write shared storage",
      "an object reached through a pointer kept in memory is not also reached as a thread's own local"])
