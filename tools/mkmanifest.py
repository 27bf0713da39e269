#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks in checks/run.py."""
import json, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
src = open(os.path.join(ROOT, 'checks/run.py')).read()
mods = eval(re.search(r'MODULES = (\{.*?\})', src, re.S)[1])
TECH = json.load(open(os.path.join(ROOT, 'tools/techniques.json')))
checks, na = [], []
NA = {}
for p in props:
    if p in mods:
        t = TECH[p]
        checks.append({'property': p, 'quick_cmd': f'python3 checks/run.py {p} --tier quick', 'thorough_cmd': f'python3 checks/run.py {p} --tier thorough',
                       'evidence_file': f'evidence/{p}.json', 'technique': t[0], 'level': 'model_checking', 'level_note': t[1]})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'specification not written yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks: TLA+ specifications in spec/, model-checked with TLC; behaviours and cases generated by TLC are replayed into the real crates by harness/, and what the real crates did with random inputs is checked against the specifications by TLC. See DESIGN.md.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
