"""Rebuild MANIFEST.json from properties.jsonl and the checks present."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(ROOT, 'tools', 'techniques.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', pid.lower() + '.py')):
        t = TECH.get(pid, {})
        checks.append(dict(property=pid, quick_cmd='./check ' + pid, thorough_cmd='VERIF_TIER=thorough ./check ' + pid,
                           evidence_file='evidence/%s.json' % pid, level='model_checking',
                           technique=t.get('technique', 'TLA+ specification checked with TLC; trace validation of the real code against it'),
                           level_note=t.get('note', 'Design exhaustive for small constants; conformance on every generated case, each compared with the specification.')))
    else:
        na.append(dict(property=pid, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='TLA+ with TLC. ./check <ID> runs one property; see DESIGN.md.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not yet')
