#!/bin/bash
# usage: tools/without.sh COMMIT check...  -- runs checks on a scratch copy of /repo with COMMIT reverted
c=$1; shift
d=$(mktemp -d /tmp/without-XXXX)
cp -a /repo/. $d/ && cd $d && git revert -n $c || exit 3
for id in "$@"; do VERIF_REPO=$d /verif/check $id | tail -12; done
rm -rf "$d"
