#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
RULES = {"rank-dependent", "root-differs"}


def body():
    thorough = TIER != "quick"
    fs, cov = join([irc("uni", ["v3", "v4", "v2"] if thorough else ["v3"])], RULES)
    need(cov, operations=350, collective_calls=900, collective_sites=550, deciding_branches=1000)
    return fs, cov


main("C01", "other",
     "Backward dependency analysis (values, memory contents by access path, control) over whole inlined library operations in LLVM "
     "IR: for every collective call (MPI collectives, broadcast/reduce helpers, the drawing of a halo message tag, finishrun), no "
     "branch that decides whether or how often it executes, and no root argument, is computed from a rank-local source (rank number, "
     "the rank's own sites and partners, clock, signal, file and stream state, received messages, per-rank random numbers) that was "
     "not made equal on all ranks first. Arms of a branch that execute the same sequence of collectives are accepted.", body,
     ["arguments of an analysed operation, and data members not listed as rank-local, are equal on all ranks when it is called",
      "an operation is judged on its own; where it is too large, the library operations inside it that are judged separately stay calls",
      "two paths with unrelated roots and no common member name do not alias"])
