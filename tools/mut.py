#!/usr/bin/env python3
"""development aid: apply one textual edit to a scratch copy of /repo and run checks against it.
usage: mut.py ID[,ID..] FILE OLD NEW   (OLD/NEW literal; FILE relative to include/)   prints CAUGHT/MISSED"""
import os, shutil, subprocess, sys, re
ids, f, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 1
d = os.environ.get('MUT_DIR', '/tmp/mut')
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
base = os.environ.get('MUT_BASE', '/repo')
shutil.copytree(base + '/include', d + '/include'); shutil.copytree(base + '/src', d + '/src')
p = f'{d}/include/{f}' if not f.startswith('src') else f'{d}/{f}'
s = open(p).read()
n = s.count(old)
if not n: print('NO MATCH', old); sys.exit(3)
if nth == 1 and n > 1: print(f'note: {n} matches, first replaced')
i = -1
for _ in range(nth): i = s.index(old, i + 1)
s = s[:i] + new + s[i + len(old):]
open(p, 'w').write(s)
for cid in ids.split(','):
    env = dict(os.environ, VERIF_REPO=d)
    r = subprocess.run(['python3', '/verif/check.py', cid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    tag = 'CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else f'ERROR({r.returncode})'
    first = next((l for l in r.stdout.splitlines() if l.startswith('  [')), '') if r.returncode == 1 else r.stdout[-1500:] if r.returncode > 1 else r.stdout.splitlines()[-1]
    print(f'{tag} {cid} {f}: {old[:60]!r} -> {new[:60]!r} | {first.strip()[:220]}', flush=True)
    if r.returncode == 1 and os.environ.get('MUT_STOP'): break
