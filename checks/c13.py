#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *


def body():
    gs = ["v3", "v4"] if TIER == "quick" else ["v3", "v4", "v2", "omp3", "avx3"]
    fs, cov = merge(irc("comm", gs))
    need(cov, mpi_calls=100, mpi_calls_on_lattice_communicator=80, lattice_communicator_stores=1)
    return fs, cov


main("C13", "other",
     "Value-origin analysis of the communicator argument of every MPI call in the linked LLVM IR of the library and its "
     "client programs (through phis, parameters to all call sites, members to all stores): it must be the communicator of "
     "a lattice, which in turn may only be written from another lattice, the partition split or start-up; the job "
     "communicator may only reach MPI calls in the start/split/sync/end routines and helpers only they call; a split must "
     "be followed by a re-read of rank and size.", body,
     ["MPI calls are made directly (no function pointers hold MPI functions)",
      "templates are judged on the instantiations of the library, applications and drivers"])
