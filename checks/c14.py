#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
ROOTS = os.path.join(VERIF, "data", "c14_roots.txt")


def body():
    gs = ["d3"] if TIER == "quick" else ["d3", "v4", "omp3", "d3a"]
    fs, cov = merge(irc("lat,roots=%s,max=%d" % (ROOTS, 6 if TIER == "quick" else 40), gs))
    need(cov, operations=6, path_ends_examined=10)
    return fs, cov


main("C14", "other",
     "Path-sensitive analysis of which lattice is current, over the inlined LLVM IR of every library operation from which a "
     "change of the global current-lattice pointer can be reached: on every path to a return the pointer holds the value it "
     "had at the start (the value loaded before any change, or shown equal to it by the test on the path). The operations "
     "documented to change the lattice (block, unblock, switch_to, switch_to_base, setup) are the only exceptions.", body,
     ["the functions named as lattice-changing operations are the documented ones"])
