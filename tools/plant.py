#!/usr/bin/env python3
"""plant.py SPEC.py ... : makes and confirms planted bugs.

A spec is a Python file defining BUGS, a list of dicts: id, property, needs,
what_it_breaks, edits [(file, old, new)...], demo (Jython source; run with cwd =
the tree).  For each one a scratch copy of /repo is made, the demo must pass on
it, fail with the edits, and the stable tests must pass with the edits; only
then /verif/seeded/<id>/ is written.
"""
import json, os, shutil, subprocess, sys, concurrent.futures as cf, tempfile

SEEDED = os.environ.get('SEEDED', '/verif/seeded')
DEMO_ONLY = bool(os.environ.get('DEMO_ONLY'))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
# run with cwd = the tree under test
here=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 TZ=UTC
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
DEMO_TMP="$t" timeout 250 /opt/jy/bin/jython "$here/demo.py"
'''
HEAD = '''# -*- coding: utf-8 -*-
import os, sys
sys.path.insert(0, os.getcwd())
TMP = os.environ['DEMO_TMP']
'''


def sh(cmd, cwd, env=None, t=900):
  p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                     stderr=subprocess.STDOUT, timeout=t, env=env)
  return p.returncode, p.stdout.decode('utf-8', 'replace')


def one(b):
  w = tempfile.mkdtemp(prefix='plant-')
  try:
    r = w + '/repo'
    sh('cp -a /repo %s' % r, '/')
    d = w + '/demo'
    os.mkdir(d)
    open(d + '/demo.py', 'w').write(HEAD + b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    rc, out = sh('bash %s/demo.sh' % d, r)
    if rc:
      return b['id'], 'demo fails on the unchanged tree: ' + out[-1500:]
    base = {}
    for f, old, new in b['edits']:
      s = open(r + '/' + f, encoding='utf-8').read()
      if s.count(old) != 1:
        return b['id'], '%s: old text occurs %d times: %r' % (f, s.count(old), old[:80])
      # only original lines may change
      open(r + '/' + f, 'w', encoding='utf-8').write(s.replace(old, new))
    rc, diff = sh('git diff', r)
    # lines removed must be in the original repository
    for f in set(e[0] for e in b['edits']):
      orig = set(subprocess.run('git show f0f6bac:' + f, shell=True, cwd=r, stdout=subprocess.PIPE).stdout.decode('utf-8').split('\n'))
      for l in subprocess.run('git diff -U0 -- ' + f, shell=True, cwd=r, stdout=subprocess.PIPE).stdout.decode('utf-8').split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
          return b['id'], 'changes a line that is not original: ' + l
    rc, out = sh('bash %s/demo.sh' % d, r)
    if rc == 0:
      return b['id'], 'demo passes with the patch'
    demo_out = out[-300:]
    if DEMO_ONLY:
      return b['id'], 'demo fails as it should: ' + demo_out.strip().split('\n')[-1][:150]
    rc, out = sh("sed 's|/repo|%s|g' /opt/vp/build.sh > %s/build.sh; bash %s/build.sh" % (r, w, w), r)
    if rc:
      return b['id'], 'build fails: ' + out[-800:]
    sh("sed 's|cd /repo|cd %s|' /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/out.json" % (r, w, w, w), r)
    res = json.load(open(w + '/out.json'))
    miss = STABLE - set(res['passed'])
    if miss:
      return b['id'], 'stable tests fail: %s' % sorted(miss)[:6]
    t = SEEDED + '/' + b['id']
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    open(t + '/patch.diff', 'w', encoding='utf-8').write(diff)
    for n in ('demo.py', 'demo.sh'):
      shutil.copy(d + '/' + n, t)
    os.chmod(t + '/demo.sh', 0o755)
    json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')},
              open(t + '/meta.json', 'w'), indent=1)
    return b['id'], 'OK (' + demo_out.strip().split('\n')[-1][:150] + ')'
  except Exception as e:
    return b['id'], 'ERROR %r' % e
  finally:
    shutil.rmtree(w, ignore_errors=True)


def main():
  bugs = []
  for f in sys.argv[1:]:
    ns = {}
    exec(open(f, encoding='utf-8').read(), ns)
    bugs += ns['BUGS']
  with cf.ThreadPoolExecutor(2) as ex:
    for i, m in ex.map(one, bugs):
      print(i, '->', m, flush=True)


main()
