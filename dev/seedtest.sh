#!/bin/bash
# quick own test of a planted bug's demonstration: clean tree and patched tree, in /repo (undone afterwards). usage: seedtest.sh ID...
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id
  bash $d/demo.sh > /tmp/st.out 2>&1; a=$?
  git apply $d/patch.diff || continue
  if grep -q hilapp/ $d/patch.diff; then bash -c '. /opt/vp/common.sh; build_hilapp' >/dev/null 2>&1; fi
  bash $d/demo.sh > /tmp/st2.out 2>&1; b=$?
  git checkout -q -- .
  if grep -q hilapp/ $d/patch.diff; then bash -c '. /opt/vp/common.sh; refresh; build_hilapp' >/dev/null 2>&1; fi
  echo "$id clean=$a patched=$b $( [ $a = 0 ] && [ $b != 0 ] && echo OK || { tail -n 3 /tmp/st.out; tail -n 3 /tmp/st2.out; } )"
done
