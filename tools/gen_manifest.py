#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'default': 'explicit bounded model checking of the implementation: '
               'exhaustive enumeration of a finite input space, every '
               'execution compared with a reference model',
    'history': 'explicit bounded model checking of the implementation: '
               'exhaustive enumeration of operation histories, every step '
               'compared with a reference model',
}
HIST = {'C02', 'C03', 'C07', 'C09', 'C16', 'C22', 'C26', 'C27'}
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'level_notes.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in NOTES and os.path.exists(
            os.path.join(ROOT, 'mc', 'props', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECH['history' if i in HIST else 'default'],
            'level': 'model_checking',
            'level_note': NOTES[i]})
    else:
        na.append({'property': i, 'reason': 'No check registered yet; the '
                   'technique applies and a check is planned (see DESIGN.md).'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks in /repo are needed: everything is observed through '
              'public behaviour of the unmodified code.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
