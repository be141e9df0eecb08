#!/usr/bin/env python3
# Helper for planting bugs: mk(id, property, [(file, old, new[, nth])...], demo_cpp, needs, breaks, flags) writes
# seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json}; the patch is made in a scratch worktree, never in /repo.
# `mkseed.py test ID...` confirms in that worktree: demo 0 without, nonzero with the patch.
import os, subprocess, sys, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwt'

def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)

def wt():
    head = sh('git', '-C', '/repo', 'rev-parse', 'HEAD').stdout.strip()
    if not os.path.isdir(W):
        sh('git', 'clone', '-q', '/repo', W)
    sh('git', '-C', W, 'fetch', '-q', 'origin')
    sh('git', '-C', W, 'checkout', '-q', '-f', head)
    sh('git', '-C', W, 'checkout', '--', '.')
    return W

DEMO = '''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken.  Runs in the repository root after its build.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'find "$tmp" -delete' EXIT
%(cxx)s -std=c++20 %(flags)s -I "$PWD/include" "$here/demo.cpp" -o "$tmp/demo" %(libs)s -pthread || exit 3
%(env)stimeout -s KILL %(to)s "$tmp/demo"
'''

def mk(id, prop, edits, demo, needs, breaks, flags='-O1 -g', libs='', env='', to=60, cxx='g++'):
    w = wt()
    for e in edits:
        f, old, new = e[:3]; n = e[3] if len(e) > 3 else 0
        p = os.path.join(w, f); s = open(p).read()
        i = -1
        for _ in range(n + 1):
            i = s.find(old, i + 1)
            assert i >= 0, ('no match', id, old)
        open(p, 'w').write(s[:i] + new + s[i + len(old):])
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git', '-C', w, 'diff').stdout)
    if demo: open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % dict(flags=flags, libs=libs, env=env, to=to, cxx=cxx)); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    return test(id)

def test(id):
    w = wt(); d = os.path.join(V, 'seeded', id)
    a = sh('bash', d + '/demo.sh', cwd=w)
    r = sh('git', '-C', w, 'apply', d + '/patch.diff')
    b = sh('bash', d + '/demo.sh', cwd=w)
    wt()
    ok = a.returncode == 0 and b.returncode not in (0, 3) and r.returncode == 0
    print(id, 'OK' if ok else 'BAD', 'clean', a.returncode, 'patched', b.returncode, r.stderr[:200])
    if not ok: print(a.stdout[-800:], a.stderr[-1500:], '--', b.stdout[-500:], b.stderr[-1500:])
    return ok

if __name__ == '__main__':
    for i in (sys.argv[2:] or sorted(os.listdir(V + '/seeded'))): test(i)
