#!/usr/bin/env python3
"""development aid: weaken every memory order of a header, one at a time, in a scratch copy, and run a check on each.
usage: orders.py ID FILE [nth...]    prints one line per site that is NOT caught, and a total"""
import os, re, shutil, subprocess, sys
cid, f = sys.argv[1:3]
only = set(map(int, sys.argv[3:]))
d = '/tmp/orders-' + re.sub(r'\W', '_', f)
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
shutil.copytree('/repo/include', d + '/include'); shutil.copytree('/repo/src', d + '/src')
p = f'{d}/include/{f}'
orig = open(p).read()
WEAK = {'seq_cst': ['acq_rel?'], 'acq_rel': ['acquire', 'release'], 'release': ['relaxed'], 'acquire': ['relaxed']}
sites = []
for m in re.finditer(r'memory_order_(seq_cst|acq_rel|release|acquire)', orig):
    line_start = orig.rfind('\n', 0, m.start()) + 1
    if '//' in orig[line_start:m.start()]: continue
    for w in WEAK[m[1]]:
        if w == 'acq_rel?':
            continue
        sites.append((m.start(), m.end(), m[1], w))
caught = missed = 0
for n, (a, b, old, w) in enumerate(sites):
    if only and n not in only: continue
    open(p, 'w').write(orig[:a] + 'memory_order_' + w + orig[b:])
    line = orig.count('\n', 0, a) + 1
    r = subprocess.run(['python3', '/verif/check.py', cid], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    first = next((l for l in r.stdout.splitlines() if l.startswith('  [')), '')
    if r.returncode == 1:
        caught += 1
        print(f'caught #{n} {f}:{line} {old}->{w} {first[:110]}', flush=True)
    else:
        missed += 1
        print(f'MISSED({r.returncode}) #{n} {f}:{line} {old}->{w} | {orig.splitlines()[line-1].strip()[:100]}', flush=True)
print(f'{f}: caught {caught} missed {missed}')
shutil.rmtree(d)
