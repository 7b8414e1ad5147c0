"""writes MANIFEST.json from the registry and the list of properties"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa import registry
props = [json.loads(l) for l in open(H+'/properties.jsonl')]
NA = json.load(open(H+'/tools/not_applicable.json'))
checks = []; na = []
for p in props:
    i = p['id']
    m = registry.META.get(i)
    if m is None: na.append({'property': i, 'reason': NA.get(i, 'no check yet')}); continue
    checks.append({'property': i, 'quick_cmd': 'bin/check %s --tier quick' % i, 'thorough_cmd': 'bin/check %s --tier thorough' % i,
                   'technique': m['technique'], 'level': m['level'], 'level_note': m['note']})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks share the analyser in sa/ (DESIGN.md). No hooks in /repo are needed.'}, open(H+'/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
