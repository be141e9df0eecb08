#!/usr/bin/env python3
"""development helper: try.py HARNESS(no .cpp) EXECS [full] -- build one harness for vrt and summarise violations."""
import sys, os, re, time
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
import check
name, n = sys.argv[1], int(sys.argv[2])
full = 'full' in sys.argv
e = dict(mode='vrt', src=[n2 + '.cpp' for n2 in name.split(',')], quick=dict(execs=n, budget=300), flags=[a for a in sys.argv if a.startswith('-D')])
t = time.time()
try:
    exe = check.build('try-' + name.split(',')[0], {'v': e})[0]['v']
except check.BuildError as x:
    print('\n'.join([l[:400] for l in str(x).splitlines() if re.search(r'error|required from here|note: because', l)][:25])); sys.exit(2)
import json
os.environ['VERIF_KNOWN'] = ',' + ','.join(k['id'] for k in check.load_known()['findings']) + ','
t1 = time.time()
r = check.run_vrt(exe, e, 'quick', int(os.environ.get('VERIF_SEED', 1)), 'try')
print(f'build {t1-t:.1f}s run {time.time()-t1:.1f}s')
seen = {}
def frames(l):
    fr = re.findall(r'<- 0x\w+ (.*?) at (/(?:repo|verif)\S+?:\d+)|^\S+\s+0x\w+\s+0x\w+ (.*?) at (/\S+?:\d+)', l)
    return ' < '.join([(a or c)[:60] + '@' + (b or d).split('/')[-1] for a, b, c, d in fr][:5])
for v in r['violations']:
    key = (v['kind'], v['scenario'], re.sub(r'0x\w+|\d+', '#', v['msg'])[:80])
    seen[key] = seen.get(key, 0) + 1
    if seen[key] > 1 and not full: continue
    print('==', v['kind'], v['scenario'], '#' + v['index'], v['msg'][:220])
    L = v['text'].splitlines()
    for l in L[:400 if full else 60]:
        if full: print('    ', l[:600])
        elif l.startswith(('PC', 'ALLOC')): print('    ', l[:6], frames(l)[:420])
        elif l.startswith('CASE') and len(l) > 6: print('    ', l[:300])
for s in r['scenarios']:
    print(f"{s['name']:28} execs {s['execs']:6} distinct {s['distinct']:6} obs {s['observed']:7} steps/exec {s['steps']//max(1,s['execs'])} skipped {s.get('skipped',0)} {dict(list(s['outcomes'].items())[:8])}")
print(r['coverage']); print(*r['errors'])
