#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE]

Explores the whole bounded space of property <ID> with 8 Jython processes on
/repo's working tree, merges what they saw, writes evidence/<ID>.json, and
exits 0 (held on everything explored) or 1 (a VIOLATION line per failure key).
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
JYTHON = '/opt/jy/bin/jython'


def launch(prop, tier, shard, n, out, secs, tmp, extra=()):
    env = {k: v for k, v in os.environ.items()
           if k not in ('PYTHONPATH', 'JYTHONPATH', 'JYTHON_OPTS')}
    env.update(LANG='C.UTF-8', TZ='UTC', TMPDIR=tmp, HOME=tmp)
    env.setdefault('MC_REPO', '/repo')
    env['JAVA_TOOL_OPTIONS'] = ('-Xmx3g -Djava.io.tmpdir=%s '
                                '-Dpython.cachedir.skip=true' % tmp)
    return subprocess.Popen(
        [JYTHON, os.path.join(HERE, 'mc', 'run.py'), prop, tier, str(shard),
         str(n), out, str(secs)] + list(extra),
        env=env, cwd=tmp, stdin=subprocess.DEVNULL,
        stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'wb'))


def known_for(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [e for e in json.load(open(path))['findings']
            if e['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int, default=8)
    ap.add_argument('--secs', type=float)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    secs = a.secs or (780 if a.tier == 'quick' else 3 * 3600)
    t0 = time.time()
    sys.path.insert(0, HERE)
    scratch = tempfile.mkdtemp(prefix='mc-%s-' % a.prop)
    try:
        return run(a, secs, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, secs, t0, scratch):
    n = 1 if a.replay else a.shards
    procs = []
    for i in range(n):
        tmp = os.path.join(scratch, 'tmp%d' % i)
        os.mkdir(tmp)
        out = os.path.join(scratch, 'out%d.json' % i)
        procs.append((launch(a.prop, a.tier, i, n, out, secs, tmp,
                             [os.path.abspath(a.replay)] if a.replay else []),
                      out))
    for p, out in procs:
        p.wait()
    results = []
    dead = False
    for p, out in procs:
        if not os.path.exists(out):
            sys.stderr.write(open(out + '.err', errors='replace').read()[-5000:])
            print('ERROR: a shard of %s ended without a result' % a.prop)
            dead = True
            continue
        results.append(json.load(open(out)))

    states = set()
    outcomes, per, vcounts = {}, {}, {}
    violations, samples = [], []
    execs = trans = 0
    capped = False
    for r in results:
        states.update(r['states'])
        execs += r['executions']
        trans += r['transitions']
        capped = capped or r['capped']
        samples += r['samples']
        violations += r['violations']
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for s, k, c in r['vcounts']:
            vcounts[(s, k)] = vcounts.get((s, k), 0) + c
        for k, v in r['per_scenario'].items():
            d = per.setdefault(k, dict(v, executions=0, transitions=0, cpu_s=0,
                                       complete=True))
            for f in ('executions', 'transitions', 'cpu_s'):
                d[f] = round(d[f] + v.get(f, 0), 2)
            d['complete'] = d['complete'] and v.get('complete', True)

    if a.replay:
        for v in violations:
            print('REPLAYED scenario=%s key=%s\ncase=%s\n%s\n' % (
                v['scenario'], v['key'], json.dumps(v['case']), v['detail']))
        print(json.dumps(per))
        return 1 if violations else 0

    # Group: one line per (scenario, key), simplest case first.
    groups = {}
    for v in violations:
        g = groups.setdefault((v['scenario'], v['key']), [])
        g.append(v)
    known = known_for(a.prop)
    rc = 0
    reported = 0
    rdir = os.path.join(HERE, 'replays')
    for old in (os.listdir(rdir) if os.path.isdir(rdir) else []):
        if old.startswith(a.prop + '-'):
            os.remove(os.path.join(rdir, old))
    seen_known = set()
    for (scen, key), vs in sorted(groups.items()):
        vs.sort(key=lambda v: (len(json.dumps(v['case'])), json.dumps(v['case'])))
        hit = None
        for idx, e in enumerate(known):
            if (e.get('status') == 'known' and e['scenario'] == scen and
                    e['key'] == key):
                hit = idx
        if hit is not None:
            seen_known.add(hit)
            continue
        rc = 1
        reported += 1
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%02d.json' % (a.prop, reported))
        json.dump({'property': a.prop, 'scenario': scen, 'key': key,
                   'count': vcounts.get((scen, key)), 'case': vs[0]['case'],
                   'detail': vs[0]['detail'],
                   'replay_cmd': 'python3 check.py %s --replay %s' %
                                 (a.prop, os.path.relpath(path, HERE))},
                  open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        print('  scenario=%s key=%s cases=%s' %
              (scen, key, vcounts.get((scen, key))))
        print('  ' + vs[0]['detail'][:1500].replace('\n', '\n  '))
        print('  case: ' + json.dumps(vs[0]['case'])[:1200])
    for idx in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, known[idx]['what']))

    wall = time.time() - t0
    ev = {
        'property': a.prop, 'tier': a.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking',
        'coverage': {
            'states': len(states), 'transitions': trans,
            'traces_validated_against_impl': execs,
            'samples': samples[:40], 'exhaustive': not capped,
            'capped': capped, 'scenarios': per,
            'distinct_outcomes': len(outcomes),
            'outcomes': dict(sorted(outcomes.items(),
                                    key=lambda kv: -kv[1])[:60]),
        },
        'assumptions': [
            'bounded: nothing is claimed outside the enumerated alphabets',
            'explored directly on the implementation in /repo under Jython '
            '2.7; no abstraction of the code is trusted',
        ],
        'wall_s': round(wall, 2), 'violations': reported,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'),
              indent=1, sort_keys=True)
    print('%s %s: %d executions, %d transitions, %d distinct states, %d '
          'outcomes, %d violations, %.1f s%s' %
          (a.prop, a.tier, execs, trans, len(states), len(outcomes), reported,
           wall, ' CAPPED' if capped else ''))
    return rc or (2 if dead else 0)


if __name__ == '__main__':
    sys.exit(main())
