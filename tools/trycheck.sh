#!/bin/bash
# trycheck.sh NAME [secs]: the property's check against the scratch copy with the patch, own build directory
for x in $1; do cd /tmp/wt/repo; git checkout -q -- .; git apply /verif/seeded/$x/patch.diff; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$x/meta.json'))['property'])")
VERIF_REPO=/tmp/wt/repo VERIF_BUILD=/tmp/wt/build python3 /verif/check.py $p quick ${2:+--secs $2} 2>&1 | grep -v '^    ' | cut -c1-200 | tail -4; git checkout -q -- .; done
