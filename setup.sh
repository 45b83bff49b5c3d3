#!/bin/bash
# Builds the analysis tools and warms the build cache (everything below /verif/.cache).
cd "$(dirname "$0")"
exec python3 - <<'P'
import sys
sys.path.insert(0, "lib")
from groups import *
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    fs = [ex.submit(hilapp), ex.submit(tool, "irc")]
    [f.result() for f in fs]
build(group("v3") + group("v4"))
print("setup done")
P
