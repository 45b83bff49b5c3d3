#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *


def body():
    n = 2 if TIER == "quick" else 9
    runs = [irc("io,what=c09,max=%d" % n, [g]) for g in (["d3"] if TIER == "quick" else ["d3", "d4", "d2", "d3a"])]
    fs, cov = join(runs, None)
    need(cov, file_operations=20, situations=60, outcomes_judged=60, events=300)
    return fs, cov


main("C09", "other",
     "Abstract interpretation of whole inlined file operations over LLVM IR for the first rank and another rank, with the "
     "outcome of opening, reading/writing and closing the file enumerated; the other rank receives by broadcast what the "
     "first one sent. Event order of rename, open, write, close and run-status in checkpoint, on every path.", body,
     ["a file that is closed without error is on disk (no power failures)",
      "names are compared as expressions of the arguments"])
