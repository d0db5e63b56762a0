#!/bin/bash
# trydemo.sh NAME...: each demo on the unchanged tree and with its patch, in the scratch copy /tmp/wt/repo
for x in "$@"; do cd /tmp/wt/repo; git checkout -q -- . ; bash /verif/seeded/$x/demo.sh >/tmp/wt/o1 2>&1; a=$?
git apply /verif/seeded/$x/patch.diff || echo "NOAPPLY"; bash /verif/seeded/$x/demo.sh >/tmp/wt/o2 2>&1; b=$?; git checkout -q -- .
echo "$x clean=$a patched=$b $(grep ^F /tmp/wt/o2 | head -1 | cut -c1-150)"; [ $a != 0 ] && tail -3 /tmp/wt/o1; [ $b == 3 ] && tail -5 /tmp/wt/o2; done
