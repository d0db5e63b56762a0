#!/usr/bin/env python3
"""Turns *.p (proto3 syntax without field numbers) into numbered .proto files.

The dingo-store-proto submodule is empty in this checkout, so the message definitions are reconstructed
from their use in /repo/src; numbers do not matter because every peer in the simulation uses these."""
import os, re, sys
src, out = sys.argv[1], sys.argv[2]
os.makedirs(os.path.join(out, "proto"), exist_ok=True)
TOK = re.compile(r'//[^\n]*|[{};]|[^{};/]+|/')
def gen(name, text):
    toks = [t for t in TOK.findall(text) if not t.startswith('//')]
    res, stack, buf = [], [], ''
    for t in toks:
        if t == '{':
            head = buf.strip(); buf = ''
            kind = head.split()[0]
            stack.append([kind, 0])
            res.append('  ' * (len(stack)-1) + head + ' {')
            if kind == 'enum': stack[-1][1] = -1
        elif t == '}':
            if buf.strip(): raise SystemExit(f'{name}: stray {buf!r}')
            stack.pop(); res.append('  ' * len(stack) + '}')
        elif t == ';':
            s = ' '.join(buf.split()); buf = ''
            if not s: continue
            ind = '  ' * len(stack)
            if not stack or s.startswith(('option', 'rpc', 'reserved')): res.append(ind + s + ';'); continue
            kind = stack[-1][0]
            if kind == 'enum':
                for v in s.split(','):
                    v = v.strip()
                    if '=' in v:
                        n, x = [y.strip() for y in v.split('=')]; stack[-1][1] = int(x)
                    else:
                        n = v; stack[-1][1] += 1
                    res.append(f'{ind}{n} = {stack[-1][1]};')
            else:
                owner = next(f for f in reversed(stack) if f[0] == 'message')
                # "type a, b, c" declares several fields
                m = re.match(r'((?:repeated |optional )?(?:map<[^>]*>|[\w.]+)) (.*)', s)
                for n in m[2].split(','):
                    owner[1] += 1
                    num = owner[1] if owner[1] < 19000 else owner[1] + 1000
                    res.append(f'{ind}{m[1]} {n.strip()} = {num};')
        else: buf += t
    return '\n'.join(res) + '\n'
for f in sorted(os.listdir(src)):
    if not f.endswith('.p'): continue
    text = gen(f, open(os.path.join(src, f)).read())
    p = os.path.join(out, 'proto', f[:-2] + '.proto')
    if not os.path.exists(p) or open(p).read() != text: open(p, 'w').write(text)
