"""writes MANIFEST.json: one check per checks/Cxx.py; everything else is listed as not applicable"""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = 'TLA+ specification (%s) checked with TLC; trace validation of recorded runs of the code against it'
MODS = json.load(open(V + '/tools/modules.json'))
checks = []; na = []
for p in props:
    i = p['id']
    if os.path.exists(V + '/checks/%s.py' % i):
        m = MODS[i]
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick checks/run.sh %s' % i, thorough_cmd='VERIF_TIER=thorough checks/run.sh %s' % i,
                           evidence_file='evidence/%s.json' % i, technique=m.get('tech') or TECH % m['spec'], level='model_checking', level_note=m['note']))
    else:
        na.append(dict(property=i, reason=MODS.get(i, {}).get('na', 'no check built yet')))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
               notes='All checks compile the C/C++ code of /repo into scratch folders and run the Python code of /repo in place; no hooks in /repo are needed. Specifications are in spec/.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
