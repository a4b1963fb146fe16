#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, the modules and the findings."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(n):
  with open(os.path.join(ROOT, n)) as f:
    return json.load(f)


props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
notes = load('tools/design_notes.json')
levels = load('tools/level_notes.json')
found = load('known_findings.json')['findings']
catch = load('tools/catch.json')
mutants = load('tools/mutants.json')


def bounds(pid):
  s = open('%s/mc/props/%s.py' % (ROOT, pid.lower()), encoding='utf-8').read()
  s = s[s.index('SCENARIOS'):]
  out = []
  for m in re.finditer(r"Scenario\('(\w+)'.*?bound=((?:\s*'(?:[^'\\]|\\.)*'|"
                       r"\s*\"[^\"]*\")+)", s, re.S):
    t = ''.join(a or b for a, b in
                re.findall(r"'((?:[^'\\]|\\.)*)'|\"([^\"]*)\"", m.group(2)))
    out.append('* `%s`: %s' % (m.group(1), t.replace('%d', 'all the')))
  return '\n'.join(out)


parts = []
for p in props:
  i = p['id']
  parts.append('### %s %s\n\n%s\n\n%s\n\nEnumerated (thorough in brackets):\n\n'
               '%s\n\n*Why tests can not settle it.* %s' %
               (i, p['title'], p['statement'], notes[i], bounds(i),
                p['why_tests_cant']))
repaired = {}
for f in found:
  repaired.setdefault(f['property'], []).append(f)
lines = []
for p in props:
  for f in repaired.get(p['id'], ()):
    if f['status'] == 'known':
      lines.append('* %s known, not repaired (`%s`, `%s`): %s' % (
          f['property'], f['scenario'], f['key'], f['what']))
    else:
      lines.append('* %s' % f['what'].replace('fixed: property=', ''))
table = ['| planted bug | property | needs | first caught by |', '|--|--|--|--|']
for n in sorted(catch):
  c = catch[n]
  table.append('| %s | %s | %s | %s |' % (n, c['property'], c['needs'], c['by']))
text = open(ROOT + '/tools/DESIGN.in.md', encoding='utf-8').read()
for k, v in (('properties', '\n\n'.join(parts)), ('findings', '\n'.join(lines)),
             ('seeded', '\n'.join(table)),
             ('mutants', '\n'.join('* ' + m for m in mutants))):
  text = text.replace('{{%s}}' % k, v)
with open(ROOT + '/DESIGN.md', 'w', encoding='utf-8') as f:
  f.write(text)
