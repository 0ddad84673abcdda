"""Regenerates /verif/MANIFEST.json from the checks present in larchcheck/checks."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from tools.not_applicable import NA
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    if os.path.exists('%s/larchcheck/checks/%s.py' % (V, p.lower())) and p not in NA:
        m = importlib.import_module('larchcheck.checks.' + p.lower())
        checks.append(dict(property=p, quick_cmd='/opt/venv/bin/python -m larchcheck %s --quick' % p,
                           thorough_cmd='/opt/venv/bin/python -m larchcheck %s --thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=m.TECHNIQUE, level='other', level_note=m.NOTE))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no check built yet; static rule under construction')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Static analysis of /repo sources (Python and Cython); nothing of larch is executed. See DESIGN.md.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
