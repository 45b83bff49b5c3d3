#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *


def body():
    runs = [irc("fin", [g]) for g in (["v3"] if TIER == "quick" else ["v3", "v4", "v2", "omp3", "avx3"])]
    fs, cov = join(runs, None)
    need(cov, ending_functions=4, ending_paths=8, ends_judged=15, error_call_sites=40, normal_end_call_sites=12)
    return fs, cov


main("C16", "other",
     "Abstract interpretation of hila::terminate, hila::error and hila::finishrun over LLVM IR (every path, every status "
     "argument, first and other ranks): no return, and the status of the process' end is certainly non-zero (zero for the normal end). Every other "
     "call that ends the process in the library has a status that is certainly not zero, followed through parameters to all "
     "callers. The normal end is called only from set-up, parameter reading and command line (call graph closure).", body,
     ["exits are direct calls of exit, _exit, quick_exit, abort or MPI_Abort",
      "mistakes in parameters, options or lattice sizes deliberately end the run in the normal way and are not judged"])
