#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
ROOTS = os.path.join(VERIF, "data", "c12_roots.txt")


def body():
    gs = ["v3"] if TIER == "quick" else ["v3", "v4", "omp3", "avx3"]
    fs, cov = merge(irc("res,roots=%s,max=%d" % (ROOTS, 3 if TIER == "quick" else 12), gs))
    need(cov, operations=120, acquire_release_sites=1500)
    return fs, cov


main("C12", "other",
     "Path-sensitive typestate over the inlined LLVM IR of every library operation that starts a timer or acquires raw "
     "memory, an FFTW plan or buffer, a file or a pipe: on every path to a normal return each timer has been stopped exactly "
     "as often as started and each acquired item has been released once by its own release function or handed to an object "
     "that owns it. Branches on the same unchanged condition are correlated.", body,
     ["library containers release what they hold", "timer objects named by the same access path are the same object",
      "operations whose inlined body is too large are covered through the operations they call"])
