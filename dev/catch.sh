#!/bin/bash
# catch.sh <seed> [check...]: run checks against a scratch copy of /repo with the planted bug applied (development aid)
id=$1; shift
w=/tmp/catch_$id; rm -rf "$w"; cp -a /repo "$w"; git -C "$w" apply /verif/seeded/$id/patch.diff || exit 8
ps=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
for p in $ps; do SA_REPO=$w SA_EVID=/tmp/evid_$id python3 /verif/check.py $p quick > /tmp/catch_$id.$p.log 2>&1; echo "$id $p exit=$? $(grep -c VIOLATION /tmp/catch_$id.$p.log) $(sed -n 2p /tmp/catch_$id.$p.log | cut -c1-220)"; done
rm -rf "$w"
