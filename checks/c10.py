#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *


def body():
    n = 2 if TIER == "quick" else 9
    runs = [irc("io,what=c10,max=%d" % n, [g]) for g in (["d3"] if TIER == "quick" else ["d3", "d4", "d2", "d3a"])]
    fs, cov = join(runs, None)
    need(cov, file_operations=24, situations=300, outcomes_judged=700, events=3000)
    return fs, cov


main("C10", "other",
     "Abstract interpretation of whole inlined file operations over LLVM IR for the first rank and another rank, with the "
     "outcome of opening, reading/writing and closing the file enumerated; the other rank receives by broadcast what the "
     "first one sent. No path with a failure returns as if all was well, no rank disagrees with the first one, none but the first touches the file.", body,
     ["failures of streams are seen through their state (fail, good, is_open, ...); failures of single text outputs are seen when closing"])
