import json,sys
d=json.load(open('/verif/known_findings.json')); d['fixed'].append(sys.argv[1]); json.dump(d,open('/verif/known_findings.json','w'),indent=1)
