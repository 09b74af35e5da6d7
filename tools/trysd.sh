#!/bin/bash
# tools/trysd.sh id... : apply each seeded bug to a scratch copy of /repo and run its property's check on it
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/trysd.XXXX); cp -a /repo/. $d; git -C $d apply /verif/seeded/$id/patch.diff
  FOG_REPO=$d SA_EVIDENCE=$d/ev python3 /verif/check.py $p | tail -3 | cut -c1-300 | sed "s/^/$id: /"
  rm -rf $d
done
