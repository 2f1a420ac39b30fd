#!/bin/bash
# apply every planted bug to a scratch copy of /repo, run its property's check there, print a table
for d in /verif/seeded/*/; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d); cp -a /repo $w/r; git -C $w/r apply $d/patch.diff || echo "DOES NOT APPLY $id"
  VERIF_REPO=$w/r VERIF_EVIDENCE=$w/ev /verif/check $p quick > $w/out 2>&1; rc=$?
  b=$(python3 -c "import json;m=json.load(open('$d/meta.json'));print(m['needs'],'→',m['what_it_breaks'])")
  [ $rc = 1 ] && r=caught || r="MISSED (rc=$rc)"
  echo "| $id | $p | $b | $r |"
  rm -rf "$w"
done
