#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *


def body():
    gs = ["d3"] if TIER == "quick" else ["d3", "d4", "d3o", "d3a"]
    fs, cov = merge(irc("args", gs))
    need(cov, entry_points=250, mpi_data_calls=500)
    return fs, cov


main("C06", "other",
     "Every library transfer entry point (reductions, broadcasts, point-to-point messages, reduction objects, min/max, field "
     "element exchange, halo messages, FFT exchange), for each of 21 value types, is inlined into one function in LLVM IR and "
     "the datatype, operation and count of every MPI data call in it are evaluated to polynomial normal forms over the entry "
     "point's arguments: number type equals the value's own, count x type size equals the bytes of the values passed, lists "
     "carry their length, receive blocks are large enough, and sizes of matching sends and receives are the same polynomial.",
     body, ["container lengths are end - begin", "MPI type sizes are those of the installed MPI",
            "entry points outside the driver's type list behave like the instantiations listed"])
