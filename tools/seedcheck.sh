#!/bin/bash
# seedcheck.sh ID...: applies each planted bug to a private view of /repo and runs the check of its property
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/sc.XXXXXX); cp -a /repo "$d/r"
  unshare -Urm bash -c "mount --bind $d/r /repo && git -C /repo apply /verif/seeded/$id/patch.diff && cd /verif && VERIF_EVID=$d timeout 900 python3-vt check.py $p quick > $d/log 2>&1; echo \$? > $d/rc"
  echo "$id $p rc=$(cat $d/rc) $(grep -c '^VIOLATION' $d/log) $(grep -m1 '^VIOLATION' $d/log | cut -c1-140)"
  rm -rf "$d"
done
