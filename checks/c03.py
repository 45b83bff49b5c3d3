#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
RULES = {"not-fetched", "not-completed", "started-in-loop", "sites-not-visited", "not-allocated", "not-marked-after-loop",
         "site-range", "mask"}


def body():
    thorough = TIER != "quick"
    fs, cov = join([irc("loops,reads", ["v3", "v4", "v2", "omp3"] if thorough else ["v3", "v4"]), irc("halo,max=1", ["d3"])], RULES)
    need(cov, functions_with_site_loops=150, site_loops=400, neighbour_reads=200, loops_with_overlap=140, loop_element_writes=200)
    if cov.get("gave_up", 0):
        raise Unresolved("%d loops could not be followed" % cov["gave_up"])
    return fs, cov


main("C03", "other",
     "Path-sensitive typestate analysis over LLVM IR of the code hilapp (built from the current source) generates for every site "
     "loop of the drivers, library and applications. Each neighbour element read is matched to its field and direction; on every "
     "path to it the fetch for that field, direction and parity has been started before the loop, and it is completed unless "
     "the site was found not to need remote data by a test that includes this fetch; every site is visited in one of the rounds; "
     "each written field is allocated before and marked for the parity after the loop.", body,
     ["direction and field expressions have the same value at the fetch and at the read",
      "vectorised (AVX) neighbour reads are not analysed"])
