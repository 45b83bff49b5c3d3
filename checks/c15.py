#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *


def body():
    thorough = TIER != "quick"
    runs = [irc("bc,max=%d" % (12 if thorough else 2), ["d3"]), irc("bc,max=%d" % (12 if thorough else 2), ["avx3"])]
    if thorough:
        runs += [irc("bc,max=12", ["v4"]), irc("bc,max=12", ["v2"])]
    fs, cov = [], {}
    for r in runs:
        f, c = merge(r)
        fs += f
        for k, v in c.items():
            cov[k] = cov.get(k, 0) + v if isinstance(v, int) else v if k not in cov else cov[k]
    need(cov, transport_instances=24, vectorised_instances=14, situations=3000, element_copies_judged=100000, table_and_protocol_judgements=2500)
    return fs, cov


main("C15", "other",
     "Abstract interpretation of the inlined LLVM IR of every function that moves values over a lattice edge (sending to another "
     "rank, placing what is received, halo copies on the same rank; plain and vectorised layout), with the rank's position, "
     "direction, boundary conditions of this and of the other directions, parity and vector division enumerated: which element "
     "goes where, and with which sign. The lattice's halo and neighbour tables, the recording of boundary conditions and the "
     "order of packing, sending and announcing a fetch are decided the same way.", body,
     ["list lengths are represented by one small length each; loops over lists treat every entry alike",
      "the vector layout's own tables (which lane leaves the rank) are taken as given",
      "DIRICHLET boundary condition is not analysed (documented as not working)"])
