import json, sys
sys.path.insert(0, '/verif/lib')
from specs import SPECS
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'lib\'); import specs"',
    checks=[dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
        evidence_file='evidence/%s.json' % p, technique=SPECS[p].get('technique', 'runtime monitoring: reference oracle over generated executions under ASan+UBSan'),
        level=SPECS[p]['level'], level_note=SPECS[p].get('note', 'held on the executions generated by this run (counts in the evidence file); trusts the oracle in drivers/, the compiler and its sanitizers')) for p in props if p in SPECS],
    not_applicable=[dict(property=p, reason='check not built yet') for p in props if p not in SPECS],
    notes='No hooks are needed in /repo: every check observes the public interface of the library built from the working tree.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
