#!/bin/bash
# usage: tools/plant.sh NAME...  -- confirms planted changes and runs their property's check on them
for id in "$@"; do
  s=/verif/seeded/$id
  d=$(mktemp -d /tmp/plant-XXXX)
  cp -a /repo/. $d/
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  (cd $d && bash $s/demo.sh) >$d.demo0 2>&1; c0=$?
  git -C $d apply $s/patch.diff || { echo "$id: DOES NOT APPLY"; rm -rf $d; continue; }
  if git -C $d diff --name-only | grep -q '\.cpp$'; then (cd $d && /opt/venv/bin/python setup.py -q build_ext --inplace --force >/dev/null 2>&1); fi
  (cd $d && bash $s/demo.sh) >$d.demo1 2>&1; c1=$?
  if [ -z "$NOTESTS" ]; then t=$(cd $d && . /opt/vp/env.sh && export TMPDIR=$(mktemp -d) && FULL=1 DEBUG_SER=1 timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --ignore=tests/media/test_containers.py tests 2>&1 | tail -3 | tr '\n' ' '; rm -rf $TMPDIR); fi
  r=$(VERIF_REPO=$d timeout 900 ./check $p 2>&1); rc=$?
  echo "$id [$p]: demo clean=$c0 patched=$c1 | tests: ${t: -60} | check exit=$rc $(grep -m1 -E '^\[|HARNESS' <<<"$r" | cut -c1-150)"
  [ $c0 -ne 0 ] && tail -3 $d.demo0
  rm -rf $d $d.demo0 $d.demo1
done
