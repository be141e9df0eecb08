#!/usr/bin/env python3
import json, sys
sys.path.insert(0, '/verif')
from checks import CHECKS
NA = {}
try:
    from checks import NOT_APPLICABLE as NA
except ImportError:
    pass
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'no check built yet')))
        continue
    modes = sorted({e['mode'] for e in c['engines'].values()})
    tech = c.get('technique', 'runtime monitoring: ' + ', '.join({'vrt': 'controlled randomised schedules with weak-memory simulation, race/lifetime/leak/deadlock monitors and behavioural oracles', 'asan': 'ASan+UBSan stress', 'asanlite': 'ASan stress', 'tsan': 'ThreadSanitizer stress', 'plain': 'free-running stress with oracles', 'debug': 'free-running stress with oracles (-O0)'}[m] for m in modes))
    checks.append(dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]} --tier quick', thorough_cmd=f'python3 check.py {p["id"]} --tier thorough',
                       evidence_file=f'evidence/{p["id"]}.json', technique=tech, level=c.get('level', 'exploration'),
                       level_note=c.get('note', 'held on the executions produced (counts in the evidence file); trusts the monitoring runtime in vrt/, the harness oracles and gcc\'s instrumentation; schedules and weak-memory choices are sampled, not exhausted')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='none', enable='no hooks in /repo are needed: the monitors attach through compiler instrumentation (-fsanitize=thread entry points) and symbol interposition', source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'n/a')
