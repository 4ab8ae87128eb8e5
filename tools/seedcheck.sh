#!/bin/bash
# seedcheck.sh [ids]: run by hand, runs each planted bug's check against a scratch copy
cd /verif
for d in ${@:-$(ls seeded)}; do
  T=$(mktemp -d /tmp/sc_XXXX); cp -a /repo $T/repo; git -C $T/repo apply /verif/seeded/$d/patch.diff || echo "$d NOAPPLY"
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  O=$(HYLAA_REPO=$T/repo timeout 900 python3 check.py $P 2>&1); rc=$?
  echo "$d $P rc=$rc $(echo "$O" | grep -A0 VIOLATION) :: $(echo "$O" | head -1 | cut -c1-160)"
  rm -rf "$T"
done
