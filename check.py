#!/usr/bin/env python3
"""check.py ID quick|thorough   decide one property by seeded simulation (exit 0 held, 1 violation)
   check.py --replay FILE       run a replay file (exit 1 if the violation happens again)
   check.py ID --secs N --from S  longer searches by hand"""
import argparse, json, os, re, subprocess, sys, tempfile, time, shutil, glob
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props
B = os.environ.get('VERIF_BUILD', V + '/build')
NOANSWER = 4
T0 = time.time()

def build(target):
    t = time.time()
    r = subprocess.run([sys.executable, V + '/sim/build.py', target], capture_output=True, text=True)
    info = (r.stderr.strip().splitlines() or [''])[-1]
    if r.returncode:
        print(r.stderr[-4000:], file=sys.stderr)
        print('the simulation does not build from this tree', file=sys.stderr)
        sys.exit(NOANSWER)
    return f'{B}/bin/{target}', {'info': info, 'seconds': round(time.time() - t, 1)}

def klass(text):
    t = text.split(' at ')[0] if text.startswith('process crash') else text
    t = re.sub(r'blocked: .*', '', t)
    t = re.sub(r'\[.*?\]|\(.*?\)|"[^"]*"', '', t)
    t = re.sub(r'\\x[0-9a-f]{2}', '', t)
    t = re.sub(r'[0-9a-f]{8,}|-?\d+', '#', t)
    return t[:70]

def parse(out):
    runs, cur, end = [], None, {}
    for l in out.splitlines():
        if l.startswith('RUN '): _, s, w = l.split(); cur = {'seed': int(s), 'world': w, 'n': {}, 'text': ''}; runs.append(cur)
        elif l.startswith('R ') and cur is not None:
            p = l.split(); cur.update(failed=int(p[1]), hash=p[2], steps=int(p[3]), us=int(p[4]), sw=int(p[5]), pre=int(p[6]), items=int(p[7]))
        elif l.startswith('F ') and cur is not None: cur['text'] = l[2:]
        elif l.startswith('N ') and cur is not None: k, v = l[2:].rsplit(' ', 1); cur['n'][k] = int(v)
        elif l.startswith('END '): p = l.split(); end = {p[i]: p[i + 1] for i in range(1, len(p) - 1, 2)}
    return [r for r in runs if 'failed' in r], end

class One:
    """single runs of one world and seed in fresh processes"""
    def __init__(s, exe, prop, world, seed, params, tmp):
        s.exe, s.prop, s.world, s.seed, s.params, s.tmp, s.n = exe, prop, world, seed, params, tmp, 0
    def run(s, disabled=(), dev=None, out=None, wd=40):
        s.n += 1
        cmd = [s.exe, f'--world={s.world}', f'--prop={s.prop}', f'--seed={s.seed}', f'--watchdog={wd}'] + s.params
        if disabled:
            f = f'{s.tmp}/dis'; open(f, 'w').write(' '.join(map(str, sorted(disabled)))); cmd.append('--disabled=' + f)
        if dev is not None:
            f = f'{s.tmp}/dev'; open(f, 'w').write('\n'.join(f'{a} {b}' for a, b in dev)); cmd.append('--dev=' + f)
        if out: cmd.append('--out=' + out)
        o = subprocess.run(cmd, capture_output=True, text=True).stdout
        r, _ = parse(f'RUN {s.seed} {s.world}\n' + o)
        return r[0] if r else {'failed': 3, 'text': 'no result', 'hash': '', 'items': 0, 'n': {}, 'steps': 0, 'us': 0, 'sw': 0, 'pre': 0}

def ddmin(items, fails, deadline):
    n = 2; items = list(items)
    if time.time() < deadline and fails([]): return []
    while len(items) >= 2 and time.time() < deadline:
        k = max(1, len(items) // n); chunks = [items[i:i + k] for i in range(0, len(items), k)]; red = False
        for i in range(len(chunks)):
            if time.time() > deadline: break
            rest = [x for j, c in enumerate(chunks) if j != i for x in c]
            if fails(rest): items = rest; n = max(n - 1, 2); red = True; break
        if not red:
            if k == 1: break
            n = min(len(items), n * 2)
    return items

def minimise(one, r0, budget):
    """smallest plan, then fewest scheduling decisions that differ from the default"""
    deadline = time.time() + budget; want = klass(r0['text']); out = one.tmp + '/m'
    same = lambda r: r['failed'] == r0['failed'] and klass(r['text']) == want
    total = r0['items']; keep = list(range(total)); disabled = set()
    if r0['failed'] == 1:
        keep = ddmin(keep, lambda ks: same(one.run(disabled=set(range(total)) - set(ks))), time.time() + budget * 0.6)
        disabled = set(range(total)) - set(keep)
        if not same(one.run(disabled=disabled)): disabled = set(); keep = list(range(total))
    one.run(disabled=disabled, out=out)
    dev = None
    try: dev = [tuple(map(int, l.split())) for l in open(out + '.dev')]
    except OSError: pass
    if r0['failed'] == 1 and dev is not None:
        if same(one.run(disabled=disabled, dev=dev)):
            dev = ddmin(dev, lambda d: same(one.run(disabled=disabled, dev=d)), deadline)
            if not same(one.run(disabled=disabled, dev=dev)): dev = None
        else: dev = None
    r = one.run(disabled=disabled, dev=dev, out=out)
    items = open(out + '.items').read().splitlines() if os.path.exists(out + '.items') else []
    log = open(out + '.log', errors='replace').read().splitlines() if os.path.exists(out + '.log') else []
    return {'disabled': sorted(disabled), 'dev': dev, 'hash': r['hash'], 'text': r['text'], 'failed': r['failed'], 'plan': [x for i, x in enumerate(items) if i not in disabled], 'trace': log[-400:], 'runs_used': one.n}

def known(pid):
    out = []
    try:
        for l in open(V + '/known_findings.jsonl'):
            if l.strip().startswith('{'):
                k = json.loads(l)
                if k.get('property') == pid: out.append(k)
    except OSError: pass
    return out

def replay(path):
    j = json.load(open(path)); exe, _ = build(j['target'])
    with tempfile.TemporaryDirectory(prefix='dgchk.') as tmp:
        one = One(exe, j['property'], j['world'], j['seed'], j['params'], tmp)
        dev = [tuple(x) for x in j['dev']] if j['dev'] is not None else None
        r = one.run(disabled=set(j['disabled']), dev=dev, out=tmp + '/r')
        for l in open(tmp + '/r.log', errors='replace') if os.path.exists(tmp + '/r.log') else []: print(l.rstrip())
    exact = r['hash'] == j['hash']
    if r['failed'] and klass(r['text']) == klass(j['text']):
        print(f'reproduced{" exactly (same event hash)" if exact else ""}: {r["text"]}')
        print(f'VIOLATION property={j["property"]} replay={path}'); return 1
    print('not reproduced: ' + (r['text'] or 'the run passed')); return 0

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id', nargs='?'); ap.add_argument('tier', nargs='?', default='quick'); ap.add_argument('--replay'); ap.add_argument('--secs', type=float); ap.add_argument('--from', dest='frm', type=int); ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--worlds')
    a = ap.parse_args()
    if a.replay: return replay(a.replay)
    pid, tier = a.id, a.tier; P = props.PROPS[pid]; seed = int(os.environ.get('VERIF_SEED', '1'))
    exe, binfo = build(P.get('target', 'full'))
    secs = a.secs or (P.get('quick_secs', 40) if tier == 'quick' else P.get('thorough_secs', 900)); frm = a.frm if a.frm is not None else seed * 10**7 + (0 if tier == 'quick' else 5 * 10**6)
    worlds = a.worlds.split(',') if a.worlds else P['worlds']; params = [f'--p-{k}={v}' for k, v in P.get('params', {}).items()] + (['--thorough'] if tier == 'thorough' else [])
    findings = known(pid); tmp = tempfile.mkdtemp(prefix='dgchk.'); ev_dir = V + '/evidence'; os.makedirs(ev_dir, exist_ok=True)
    base = [exe, '--worlds=' + ','.join(worlds), '--prop=' + pid, f'--jobs={a.jobs}'] + params
    # one seed is one execution: the same seeds twice
    nd = 0; dc = 6 * len(worlds)
    h = []
    for _ in range(2):
        rs, _e = parse(subprocess.run(base + [f'--from={frm}', f'--count={dc}', '--secs=60', '--maxfail=1000', '--watchdog=60'], capture_output=True, text=True).stdout)
        h.append({(r['seed'], r['world']): (r['hash'], r['failed']) for r in rs if r['failed'] < 2})
    nd = sum(1 for k in h[0] if k in h[1] and h[0][k] != h[1][k])
    runs, cnt, us, hashes, nontriv, kf_hits, unrepro, viol = 0, {}, 0, set(), set(), {}, [], None
    per_world, samples, states, blocks = {}, [], 0, 0
    deadline = time.time() + secs; nxt = frm
    while time.time() < deadline and viol is None:
        left = deadline - time.time()
        rs, end = parse(subprocess.run(base + [f'--from={nxt}', f'--secs={left:.1f}', '--maxfail=4', '--watchdog=60'], capture_output=True, text=True, errors='replace').stdout)
        if not rs and left > 1: break
        states = max(states, int(end.get('states', 0))); blocks = max(blocks, int(end.get('blocks', 0)))
        for r in rs:
            runs += 1; us += r['us']; hashes.add(r['hash']); per_world[r['world']] = per_world.get(r['world'], 0) + 1
            for k, v in r['n'].items(): cnt[k] = cnt.get(k, 0) + v
            ops = sum(v for k, v in r['n'].items() if k.startswith('ops_'))
            if ops >= 2 and (r['pre'] > 0 or any(k.startswith(('fault_','fault.')) and v for k, v in r['n'].items())): nontriv.add(r['hash'])
            if len(samples) < 3 and ops >= 2: samples.append(f'world {r["world"]} seed {r["seed"]}: {r["steps"]} scheduling decisions, {r["sw"]} switches, {r["us"]} simulated us, ' + ', '.join(f'{k}={v}' for k, v in sorted(r['n'].items()) if v)[:400])
        nxt = max([nxt] + [r['seed'] for r in rs]) + 1
        # failures: shortest run first
        for r in sorted((x for x in rs if x['failed']), key=lambda x: (x['failed'], x['steps'])):
            kf = next((k for k in findings if re.search(k['match'], r['text']) and (not k.get('world') or k['world'] == r['world'])), None)
            if kf: kf_hits[kf['id']] = kf_hits.get(kf['id'], 0) + 1; continue
            one = One(exe, pid, r['world'], r['seed'], params, tmp)
            g = [one.run(wd=100 if r['failed'] == 2 else 60) for _ in range(2)]
            if not all(x['failed'] == r['failed'] and klass(x['text']) == klass(r['text']) for x in g):
                unrepro.append(f'{r["world"]} seed {r["seed"]}: {r["text"][:200]}'); continue
            if r['failed'] == 3: unrepro.append(f'{r["world"]} seed {r["seed"]}: {r["text"][:200]}'); continue
            m = minimise(one, g[0], P.get('min_secs', 45 if tier == 'quick' else 240))
            m.update(property=pid, target=P.get('target', 'full'), world=r['world'], seed=r['seed'], params=params, original=r['text'])
            os.makedirs(ev_dir + '/replay', exist_ok=True); path = f'{ev_dir}/replay/{pid}-{r["world"]}-{r["seed"]}.json'; json.dump(m, open(path, 'w'), indent=1)
            print(f'{pid}: {m["text"] or r["text"]}\n  world {r["world"]} seed {r["seed"]}; plan of {len(m["plan"])} items, {len(m["dev"]) if m["dev"] is not None else "recorded"} scheduling deviations; replay: check.py --replay {path}')
            for x in m['plan'][:40]: print('    ' + x)
            viol = path; break
    shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - T0; search = max(0.001, time.time() - (deadline - secs))
    faults = {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith(('fault_','fault.'))}; probes = {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith('probe_')}; ops = {k[4:]: v for k, v in sorted(cnt.items()) if k.startswith('ops_')}
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': P.get('level', 'exploration'), 'wall_s': round(wall, 1), 'violations': 1 if viol else 0,
          'coverage': {'evaluations': runs, 'distinct_nontrivial': len(nontriv), 'rule': P['rule'] + ' Each case is one simulated execution decided by one seed (workload, scheduling policy, faults). Distinct: by the hash of its event log; non-trivial: at least two operations and at least one forced preemption or injected fault.',
                       'samples': samples, 'runs_per_world': per_world, 'runs_per_hour': round(runs / search * 3600), 'seeds': [frm, nxt - 1], 'simulated_seconds': round(us / 1e6, 1), 'distinct_event_histories': len(hashes),
                       'distinct_states_sketch': states, 'code_blocks_reached': blocks, 'faults_injected': faults, 'situations_reached': probes, 'operations': ops, 'other_counters': {k: v for k, v in sorted(cnt.items()) if not k.startswith(('fault', 'probe_', 'ops_'))},
                       'determinism': {'seeds_run_twice': dc, 'differing': nd}, 'unreproducible_failures': unrepro[:5], 'known_finding_hits': kf_hits, 'real_code': P['real'], 'stubs': P['stub'], 'build': binfo},
          'assumptions': P.get('assume', []) + props.COMMON_ASSUME}
    if viol: ev['coverage']['replay'] = viol
    json.dump(ev, open(f'{ev_dir}/{pid}.json', 'w'), indent=1)
    for k in findings: print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    print(f'{pid} {tier}: {runs} runs, {len(nontriv)} distinct non-trivial, {us/1e6:.0f} simulated s, {wall:.0f}s' + (f', {len(unrepro)} unreproducible' if unrepro else '') + (f', {nd} nondeterministic seeds' if nd else ''))
    if viol: print(f'VIOLATION property={pid} replay={viol}'); return 1
    if runs == 0: print('no run completed', file=sys.stderr); return NOANSWER
    return 0
if __name__ == '__main__': sys.exit(main())
