import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
            technique='contract-based deductive verification (Verus) of the functions extracted from /repo on every run; bounded companion searches for a concrete failing input',
            level=p['level'], level_note=p['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'the contracts for this property are not finished')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
