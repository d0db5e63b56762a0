#!/usr/bin/env python3
"""Builds the simulation binaries from /repo/src's working tree. Content-hash cached; no timestamps are trusted.
usage: build.py TARGET... (see targets.py)"""
import concurrent.futures as cf, fcntl, hashlib, json, os, subprocess, sys, time
S = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(S)
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', V + '/build')
CXX = 'clang++'
JOBS = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
PB = B + '/pb'
INC = [f'-I{S}/shim', f'-I{S}/core', f'-I{PB}', f'-I{REPO}/src']
BASE = ['-std=c++17', '-w', '-fno-access-control', '-DGLOG_CUSTOM_PREFIX_SUPPORT', '-DDINGO_SIM', '-pthread', os.environ.get('SIM_OPT', '-O1'), '-fno-omit-frame-pointer']
COV = ['-fsanitize-coverage=bb,trace-pc-guard', f'-fsanitize-coverage-ignorelist={S}/cov_ignore.txt']
stats = {'compiled': 0, 'cached': 0}

def sha(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return 'missing'
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in memo:
        with open(path, 'rb') as f: memo[k] = hashlib.sha256(f.read()).hexdigest()
    return memo[k]

def deps_of(dfile):
    t = open(dfile).read().replace('\\\n', ' ')
    return [x for x in t.split(':', 1)[1].split() if not x.startswith('/usr/')]

def step(out, cmd, srcs, dfile=None, extra_deps=(), quiet=True):
    """run cmd producing out unless the recorded inputs are unchanged"""
    kf = out + '.key'
    cmdh = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()
    def key(deps): return cmdh + '\n' + '\n'.join(f'{d} {sha(d)}' for d in sorted(set(deps)))
    if os.path.exists(out) and os.path.exists(kf):
        old = open(kf).read()
        deps = [l.rsplit(' ', 1)[0] for l in old.split('\n')[1:]]
        if key(deps) == old:
            stats['cached'] += 1
            return True, ''
    os.makedirs(os.path.dirname(out), exist_ok=True)
    for f in (out, kf):
        if os.path.exists(f): os.remove(f)
    r = subprocess.run(cmd, capture_output=True, text=True, shell=isinstance(cmd, str))
    if r.returncode or not os.path.exists(out):
        return False, f'{" ".join(srcs)}: {r.stderr[-3000:]}'
    deps = list(srcs) + list(extra_deps) + (deps_of(dfile) if dfile else [])
    open(kf, 'w').write(key(deps))
    stats['compiled'] += 1
    return True, r.stderr

def protos():
    ins = sorted([f'{S}/proto/{f}' for f in os.listdir(S + '/proto')] + [f'{S}/proto2/braft/{f}' for f in os.listdir(S + '/proto2/braft')])
    cmd = (f'mkdir -p {PB}/proto {PB}/braft && cd {PB} && python3 {S}/proto/gen.py {S}/proto {PB} && protoc -I. --cpp_out=. proto/*.proto 2>/dev/null '
           f'&& protoc -I{S}/proto2 --cpp_out=. {S}/proto2/braft/*.proto 2>/dev/null && touch {PB}/done')
    return step(PB + '/done', cmd, ins)

def compile_cc(src, flags, tag, pch=None, post=None):
    rel = src.replace(REPO + '/', 'repo/').replace(V + '/', '').replace(B + '/', '').replace('/', '__')
    o = f'{B}/obj/{rel}.{tag}.o'
    cmd = [CXX] + flags + INC + (['-include-pch', pch] if pch else []) + ['-MD', '-MF', o + '.d', '-c', src, '-o', o]
    os.makedirs(B + '/obj', exist_ok=True)
    if post:
        cmd = ' '.join(f"'{c}'" for c in cmd) + ' && objcopy ' + ' '.join(f"--weaken-symbol='{s}'" for s in post) + f' {o}'
    ok, err = step(o, cmd, [src], o + '.d')
    return ok, err, o

def main(names):
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    lock = open(B + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    sys.path.insert(0, S)
    import targets
    ok, err = protos()
    if not ok: print(err, file=sys.stderr); return 2
    pch = B + '/pch/src.pch'
    os.makedirs(B + '/pch', exist_ok=True)
    ok, err = step(pch, [CXX] + BASE + INC + ['-x', 'c++-header', S + '/pch.h', '-o', pch, '-MD', '-MF', pch + '.d', '-fpch-instantiate-templates'], [S + '/pch.h'], pch + '.d')
    if not ok: print(err, file=sys.stderr); return 2
    jobs = {}
    def add(src, flags, tag, p=None, post=None): jobs[(src, tag)] = (src, flags, tag, p, post)
    link = {}
    for n in names:
        t = targets.TARGETS[n]
        objs = []
        for f in t.get('src', []):
            src = f'{REPO}/src/{f}'
            fl = BASE + (COV if t.get('cov', True) else [])
            post = targets.PERNODE.get(f)
            if post: fl = fl + ['-fPIC', '-fsemantic-interposition']
            tag = 'cov' if t.get('cov', True) else 'plain'
            add(src, fl, tag, None if (post or f in targets.NOPCH) else pch, post) if not post else add(src, fl + ['-include', 'sim_prelude.h'], tag, None, post)
            objs.append((src, tag))
        for f in t['sim']:
            src = f'{S}/{f}'
            add(src, BASE + ['-include', 'sim_prelude.h'] if f in targets.NOPCH else BASE + (COV if f.endswith('_inst.cc') else []), 'sim', None if f in targets.NOPCH else pch); objs.append((src, 'sim'))
        for f in t.get('pb', targets.PBS):
            src = f'{PB}/{f}.pb.cc'
            add(src, ['-std=c++17', '-w', os.environ.get('SIM_OPT', '-O1'), '-pthread'], 'pb'); objs.append((src, 'pb'))
        link[n] = objs
    out = {}
    def size(k):
        try: return os.path.getsize(k[0])
        except OSError: return 0
    errs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for k, r in zip(sorted(jobs, key=size, reverse=True), ex.map(lambda k: compile_cc(*jobs[k]), sorted(jobs, key=size, reverse=True))):
            out[k] = r[2]
            if not r[0]: errs.append(r[1])
    for e in errs: print('BUILD-ERROR', e, file=sys.stderr)
    if errs: return 2
    os.makedirs(B + '/bin', exist_ok=True)
    for n in names:
        t = targets.TARGETS[n]
        objs = sorted(set(out[k] for k in link[n]))
        exe = f'{B}/bin/{n}'
        base = [CXX, '-fuse-ld=lld', '-no-pie', '-pthread', '-rdynamic'] + objs + targets.LIBS
        if t.get('stubs'):
            # parts that are not built here (vector and document libraries) become symbols that stop the run when called
            raw = f'{B}/bin/{n}.raw'
            ok, err = step(raw, base + ['-Wl,--unresolved-symbols=ignore-all', '-o', raw], objs)
            if not ok: print('LINK-ERROR', n, err[-6000:], file=sys.stderr); return 2
            und = [l.split()[1] for l in subprocess.run(['nm', '-u', raw], capture_output=True, text=True).stdout.splitlines() if l.split()[0] == 'U' and '@' not in l]
            libs = set()
            for l in subprocess.run(f"ldd {raw} | awk '/=> \\//{{print $3}}' | xargs nm -D --defined-only", shell=True, capture_output=True, text=True).stdout.splitlines():
                p = l.split()
                if len(p) == 3: libs.add(p[2].split('@')[0])
            und = sorted(x for x in und if x not in libs)
            mine = set(l.split()[-1] for l in subprocess.run(['nm', '-u', '-P', '-A'] + [o for o in objs if o.endswith('.sim.o')], capture_output=True, text=True).stdout.replace(' U', '').splitlines() for l in [l.strip()] if l)
            bad = [x for x in und if x in mine and 'VectorIndex' not in x and 'Document' not in x]
            if bad: print('LINK-ERROR undefined in the harness:', bad, file=sys.stderr); return 2
            txt = '.text\n' + ''.join(f'.weak {x}\n.type {x},@function\n{x}: ud2\n' for x in und if not x.startswith(('_ZTI', '_ZTV', '_ZTS')))
            txt += '.data\n' + ''.join(f'.weak {x}\n.type {x},@object\n.p2align 4\n{x}: .zero 256\n' for x in und if x.startswith(('_ZTI', '_ZTV', '_ZTS')))
            sf = f'{B}/bin/{n}.stubs.s'
            if not os.path.exists(sf) or open(sf).read() != txt: open(sf, 'w').write(txt)
            ok, err = step(exe, base + [sf, '-o', exe], objs + [sf])
        else:
            ok, err = step(exe, base + ['-o', exe] + t.get('ldflags', []), objs)
        if not ok: print('LINK-ERROR', n, err[-6000:], file=sys.stderr); return 2
    print(f'build: {stats["compiled"]} steps run, {stats["cached"]} cached, {time.time()-t0:.1f}s', file=sys.stderr)
    return 0
if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
