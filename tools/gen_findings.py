#!/usr/bin/env python3
"""Writes known_findings.json: the defects repaired by commits in /repo."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OF = {
    'C01': 'ef0e42b d26f2c3 4e6a176', 'C02': '219b7cf 98b1d78',
    'C04': '1158db8 adb458c', 'C06': '23c1e3e 8424031',
    'C07': '7b22609 d49ba75 b782495 7f39f8e 4431025', 'C08': 'ca55747',
    'C09': '56c14d5 b68c0d8 65a9d42 7740f09', 'C10': '1662ada be85ab0',
    'C11': '0d8e79d',
    'C12': '3cd0d48 f318dcf ddd4458 2d5fdc5 597eaf8 186b429 03469d4 d03e88d '
           'd3d0038',
    'C14': 'c059b81 023f5ce', 'C16': 'b58dbcb',
    'C17': '7492476 600bac7 60dcd34 eb16ff9 db3274b d0f544a',
    'C18': '36f6ba1 c234ec7', 'C19': '036d5d6', 'C20': 'f5a5e63 b27ee48',
    'C21': '55e261a 9f46a1d 4c935e6 f9a846e',
    'C22': '6c24c7c 0ef696a 191ef73 09b68db d18f46e db6c3b3 292b71d',
    'C23': 'fe54be5', 'C24': '78f3560 439d932 b96acaf',
    'C25': 'a09c58f 61ef730 7711555 bc389ca 1e69bdd f1ce277 f1a73bf d5cd850',
    'C26': 'da7dd8c 3f443d4 7da0911', 'C27': 'e53abdc 4af203a c1becaa',
    'C29': 'da9084c 69e40ff 834c518',
}
# repairs of programs in examples/ that were taken back: the programs count as
# test files here, so their defects are known findings instead
TAKEN_BACK = 'ba2fbb7 60c287b a468ca1 92146d2 bc69ffc 2104c84 6af2db5'.split()
# later repairs: the commit's message has a line "Property: CNN"
log = subprocess.run(
    ['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x00%s%x00%b%x01',
     'f0f6bac..'], stdout=subprocess.PIPE, check=True).stdout.decode()
of = {h: p for p, hs in OF.items() for h in hs.split()}
out = []
for e in log.split('\x01'):
    if not e.strip():
        continue
    h, s, b = e.strip('\n').split('\x00')
    if h[:7] in TAKEN_BACK:
        continue
    p = of.get(h[:7])
    for l in b.split('\n'):
        if l.startswith('Property: '):
            p = l[10:].strip()
    if p is None:
        raise SystemExit('no property for %s %s' % (h, s))
    what = s[5:] if s.startswith('fix: ') else s
    out.append({'property': p, 'status': 'fixed', 'commit': h,
                'what': 'fixed: property=%s %s %s' % (p, h, what)})
path = os.path.join(ROOT, 'known_findings.json')
old = [f for f in json.load(open(path))['findings'] if f['status'] != 'fixed']
with open(path, 'w') as f:
    json.dump({'findings': old + out}, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(old), 'known,', len(out), 'fixed')
