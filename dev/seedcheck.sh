#!/bin/bash
# usage: seedcheck.sh SEED [CHECK...]: runs the property's check (or those named) on a scratch copy with the planted change
for s in "$1"; do
  V=$(cd "$(dirname "$0")/.."; pwd)
  c=$(python3 -c "import json;print(json.load(open('$V/seeded/$s/meta.json'))['property'].lower())")
  shift; [ -n "$1" ] && c="$*"
  D=/tmp/sc_$s; mkdir -p $D; cp -a /repo/libraries /repo/hilapp /repo/applications $D/ ; git -C /repo rev-parse HEAD > /dev/null
  (cd $D && git init -q . 2>/dev/null; git apply $V/seeded/$s/patch.diff) || echo "patch fails"
  for k in $c; do HILA_REPO=$D VERIF_CACHE=/tmp/mutcache VERIF_TIER=quick python3 $V/checks/$k.py | grep -E "finding|VIOL|OK|ERROR" | head -3 | cut -c1-250; done
  rm -rf /tmp/sc_$s
done
