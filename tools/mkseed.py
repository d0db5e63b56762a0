"""mkseed.py NAME: (re)packs the demo kit of /verif/seeded/NAME. The directory holds patch.diff, meta.json, demo.cc and src.txt
(the sources the demo needs, or FULL). Writes kit.tgz and demo.sh."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Builds the real sources under test with the simulated environment in kit.tgz and runs the scenario in demo.cc.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d /tmp/dgdemo.XXXXXX) || exit 3
trap '/bin/rm -rf "$w"' EXIT
mkdir -p "$w/k" && tar xzf "$here/kit.tgz" -C "$w/k" && mkdir -p "$w/k/sim/world" && cp "$here/demo.cc" "$w/k/sim/world/demo.cc" || exit 3
export VERIF_REPO="$repo" VERIF_BUILD="$w/b" SIM_SCRATCH="$w" SIM_DEMO_SRC="$(cat "$here/src.txt")" PYTHONDONTWRITEBYTECODE=1 SIM_OPT=-O0
python3 "$w/k/sim/build.py" demo || exit 3
"$w/b/bin/demo" --worlds=demo --from=1 --count=${SEEDS} --secs=150 --maxfail=1 --watchdog=60 > "$w/out"
grep '^F ' "$w/out" && exit 1
grep -q '^END runs [1-9]' "$w/out" || exit 3
exit 0
'''
for n in sys.argv[1:]:
    d = f'{V}/seeded/{n}'
    seeds = open(d + '/seeds.txt').read().strip() if os.path.exists(d + '/seeds.txt') else '2000'
    subprocess.check_call(['tar', '--sort=name', '--mtime=@0', '--owner=0', '--group=0', '--numeric-owner', '--exclude=__pycache__', '-czf', d + '/kit.tgz', '-C', V, 'sim/build.py', 'sim/targets.py', 'sim/cov_ignore.txt', 'sim/pch.h', 'sim/core', 'sim/shim', 'sim/shim_impl', 'sim/proto', 'sim/proto2'] + [f'sim/world/{f}' for f in sorted(os.listdir(V + '/sim/world')) if f.endswith('.h') or f in ('cluster.cc', 'store.cc')])
    open(d + '/demo.sh', 'w').write(DEMO.replace('${SEEDS}', seeds)); os.chmod(d + '/demo.sh', 0o755)
    print(n, os.path.getsize(d + '/kit.tgz'))
