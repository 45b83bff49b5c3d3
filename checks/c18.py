#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *


def body():
    n = 2 if TIER == "quick" else 9
    runs = [irc("io,what=c18,max=%d" % n, [g]) for g in (["d3"] if TIER == "quick" else ["d3", "d4", "d2", "d3a"])]
    runs.append(irc("sites", ["s3"] if TIER == "quick" else ["s3", "s2", "s4"]))
    fs, cov = join(runs, None)
    need(cov, file_operations=16, situations=100, events=1000, layout_pairs=8, layout_items=45)
    return fs, cov


main("C18", "other",
     "Abstract interpretation of whole inlined file operations over LLVM IR for the first rank and another rank, with the "
     "outcome of opening, reading/writing and closing the file enumerated; the other rank receives by broadcast what the "
     "first one sent. The sequence, size and value of header items and the order of field components of each writer are compared with those of its reader; every constant and lattice size in the header must be compared with the present one on each path that reads the data. "
     "Writers and readers of a field are interpreted with a small write buffer on enumerated small lattices and file lattices, "
     "following each element between its site and its place in the file.", body,
     ["text output has no reader and is not compared"])
