#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *


def body():
    runs = [irc("rng", [g]) for g in (["v3", "v4", "omp3", "avx3"] if TIER != "quick" else ["v3"])]
    fs, cov = join(runs, None)
    need(cov, generators=1, seed_values_judged=4, seed_paths=6, flag_stores=1, site_loops=400, random_site_loops=35)
    return fs, cov


main("C17", "other",
     "Abstract interpretation of seed_random and initialize_host_rng over LLVM IR: the value the generator is seeded with, as a "
     "symbolic term, is judged in a dependence domain (injective in the low bits of the rank number, lossy, independent), with "
     "and without a given seed (a clock value must have been made common before use) and with lattice partitions; the "
     "generator seeded is the one hila::random draws from. The check function must not return while the flag is false. Every "
     "site loop hilapp generates from which a draw is reachable is dominated by the check (dominator analysis).", body,
     ["a function of the rank that is neither a bijection in the low bits nor recognisably lossy is accepted",
      "site loops of programs beyond drivers, library and applications are covered as far as they use the same code-generation branches"])
