# -*- coding: utf-8 -*-
"""Exhaustive explorer that runs inside Jython against the code in /repo.

A property module defines SCENARIOS, a list of Scenario objects.  A scenario
enumerates *every* case of a finite space (gen(tier) -> iterable of JSON-able
cases, simplest first) and run(x, case) executes the real code on that case and
compares it, step by step, with a reference model.  Cases are dealt round-robin
to the shards; nothing is sampled.

Counting, all measured:
  executions   complete cases executed and compared with the model
  transitions  steps of the real code (operations, loads, calls) that were
               compared with the model: x.step()
  states       distinct canonical observations of the real code: x.state(obj)
  outcomes     histogram of outcome labels, to expose vacuous exploration
"""
import hashlib
import itertools
import json
import os
import sys
import threading
import time
import traceback

import java.lang

HANG_SECS = 150


class Violation(Exception):
  def __init__(self, key, detail):
    Exception.__init__(self, key)
    self.key = key
    self.detail = detail


class Scenario(object):
  def __init__(self, name, gen, run, note='', bound=''):
    self.name = name
    self.gen = gen
    self.run = run
    self.note = note
    self.bound = bound


class Null(object):
  encoding = 'utf-8'
  def write(self, s): pass
  def writelines(self, s): pass
  def flush(self): pass
  def isatty(self): return False


def canon(o):
  """Deterministic text for nested python data."""
  if isinstance(o, dict):
    return '{' + ','.join(sorted('%s:%s' % (canon(k), canon(v))
                                 for k, v in o.items())) + '}'
  if isinstance(o, (set, frozenset)):
    return '<' + ','.join(sorted(canon(v) for v in o)) + '>'
  if isinstance(o, (list, tuple)):
    return '[' + ','.join(canon(v) for v in o) + ']'
  if isinstance(o, unicode):
    return repr(o.encode('utf-8'))
  return repr(o)


class Explorer(object):
  MAX_PER_KEY = 3

  def __init__(self, prop, tier, shard, nshards, deadline):
    self.prop = prop
    self.tier = tier
    self.shard = shard
    self.nshards = nshards
    self.deadline = deadline
    self.executions = 0
    self.transitions = 0
    self.states = set()
    self.outcomes = {}
    self.samples = []
    self.violations = []
    self.vkeys = {}
    self.per_scenario = {}
    self.capped = False
    self.scenario = None
    self.case = None
    self.case_started = None
    self.case_failures = None

  # --- used by scenarios -------------------------------------------------
  def step(self, n=1):
    self.transitions += n

  def state(self, obj):
    self.states.add(hashlib.md5(self.scenario + '|' + canon(obj)).hexdigest()[:14])

  def outcome(self, label):
    k = '%s/%s' % (self.scenario, label)
    self.outcomes[k] = self.outcomes.get(k, 0) + 1

  def fail(self, key, detail):
    """Record a violation of the property on the current case; continue."""
    self.case_failures.append((key, detail))

  def check(self, cond, key, detail):
    if not cond:
      self.fail(key, detail() if callable(detail) else detail)
    return cond

  def eq(self, got, want, key, what=''):
    if got != want:
      self.fail(key, '%s: got %r, want %r' % (what, got, want))
      return False
    return True

  def abort(self, key, detail):
    raise Violation(key, detail)

  # --- driver ------------------------------------------------------------
  def record(self, key, detail, case=None):
    n = self.vkeys.get((self.scenario, key), 0)
    self.vkeys[(self.scenario, key)] = n + 1
    if n < self.MAX_PER_KEY:
      if isinstance(detail, unicode):
        detail = detail.encode('utf-8')
      self.violations.append({
          'scenario': self.scenario, 'key': clean(key),
          'detail': clean(str(detail)[:4000]),
          'case': self.case if case is None else case})

  def run_one(self, scenario, case):
    self.scenario = scenario.name
    self.case = case
    self.case_failures = []
    self.case_started = time.time()
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = Null()
    try:
      try:
        scenario.run(self, case)
      except Violation as e:
        self.case_failures.append((e.key, e.detail))
      except KeyboardInterrupt:
        raise
      except:
        et, ev, tb = sys.exc_info()
        lines = traceback.format_exception(et, ev, tb)
        name = getattr(et, '__name__', str(et))
        self.case_failures.append(
            ('exception:%s' % name, ''.join(lines)[-3500:]))
        del tb
    finally:
      sys.stdout, sys.stderr = out, err
      self.case_started = None
    self.executions += 1
    for key, detail in self.case_failures:
      self.record(key, detail)
    return self.case_failures

  def explore(self, scenarios):
    for sc in scenarios:
      t0 = time.time()
      before = self.executions
      total = 0
      tbefore = self.transitions
      first = None
      last = None
      complete = True
      for i, case in enumerate(sc.gen(self.tier)):
        total += 1
        if i % self.nshards != self.shard:
          continue
        if time.time() > self.deadline:
          complete = False
          self.capped = True
          break
        self.run_one(sc, case)
        if first is None:
          first = case
        last = case
      self.per_scenario[sc.name] = {
          'executions': self.executions - before,
          'transitions': self.transitions - tbefore,
          'complete': complete, 'bound': sc.bound, 'note': sc.note,
          'cpu_s': round(time.time() - t0, 2)}
      if self.shard == 0 and first is not None:
        self.samples.append({'scenario': sc.name, 'case': first})
        if last is not first:
          self.samples.append({'scenario': sc.name, 'case': last})

  def result(self):
    return {
        'executions': self.executions, 'transitions': self.transitions,
        'states': sorted(self.states), 'outcomes': self.outcomes,
        'samples': self.samples, 'violations': self.violations,
        'vcounts': [[s, k, n] for (s, k), n in self.vkeys.items()],
        'per_scenario': self.per_scenario, 'capped': self.capped}


def clean(s):
  if isinstance(s, unicode):
    return s
  try:
    return s.decode('utf-8')
  except UnicodeDecodeError:
    return s.decode('latin-1')


def jsonable(o):
  if isinstance(o, str):
    return clean(o)
  if isinstance(o, (list, tuple)):
    return [jsonable(v) for v in o]
  if isinstance(o, dict):
    return dict((clean(k) if isinstance(k, str) else k, jsonable(v))
                for k, v in o.items())
  if isinstance(o, (int, long, float, bool, unicode)) or o is None:
    return o
  return clean(repr(o))


def dump(obj, path):
  tmp = path + '.tmp'
  f = open(tmp, 'wb')
  f.write(json.dumps(jsonable(obj)))
  f.close()
  os.rename(tmp, path)


def watchdog(x, path, stop):
  """Turns a case that never finishes into a recorded violation."""
  while not stop.isSet():
    stop.wait(2)
    t = x.case_started
    if t is not None and time.time() - t > HANG_SECS:
      x.record('hang', 'case did not finish within %d s' % HANG_SECS)
      dump(x.result(), path)
      java.lang.Runtime.getRuntime().halt(0)


def tupled(o):
  """JSON lists back to tuples, so that cases read back behave alike."""
  if isinstance(o, list):
    return tuple(tupled(v) for v in o)
  if isinstance(o, dict):
    return dict((k, tupled(v)) for k, v in o.items())
  return o


def words(alphabet, depth):
  """All words over the alphabet of length 1..depth, shortest first."""
  for n in range(1, depth + 1):
    for w in itertools.product(alphabet, repeat=n):
      yield w


def deviations(base, domains, k):
  """All assignments that differ from base in at most k coordinates.

  base: dict name -> default; domains: list of (name, [values])."""
  for n in range(0, k + 1):
    for combo in itertools.combinations(domains, n):
      names = [c[0] for c in combo]
      for vals in itertools.product(*[c[1] for c in combo]):
        if any(v == base.get(nm) and type(v) == type(base.get(nm))
               for nm, v in zip(names, vals)):
          continue
        d = dict(base)
        d.update(zip(names, vals))
        yield d, tuple(zip(names, vals))


def main(argv):
  prop, tier, shard, nshards, path, secs = argv[:6]
  shard, nshards = int(shard), int(nshards)
  sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
  repo = os.environ.get('MC_REPO', '/repo')
  sys.path.insert(0, repo)
  x = Explorer(prop, tier, shard, nshards, time.time() + float(secs))
  stop = threading.Event()
  th = threading.Thread(target=watchdog, args=(x, path, stop))
  th.setDaemon(True)
  th.start()
  x.scenario = 'import'
  x.case_failures = []
  mod = __import__('props.' + prop.lower(), fromlist=['x'])
  import transitfeed
  assert os.path.abspath(transitfeed.__file__).startswith(repo + '/'), \
      transitfeed.__file__
  scenarios = mod.SCENARIOS
  only = os.environ.get('MC_SCENARIO')
  if only:
    scenarios = [s for s in scenarios if s.name in only.split(',')]
  if len(argv) > 6:  # replay one case
    rep = json.load(open(argv[6]))
    for sc in scenarios:
      if sc.name == rep['scenario']:
        case = tupled(rep['case'])
        fails = x.run_one(sc, case)
        again = x.run_one(sc, case)
        x.per_scenario['replay'] = {
            'executions': 2, 'deterministic':
                [k for k, _ in fails] == [k for k, _ in again]}
  else:
    x.explore(scenarios)
  stop.set()
  dump(x.result(), path)


if __name__ == '__main__':
  main(sys.argv[1:])
  sys.stdout.flush()
  java.lang.Runtime.getRuntime().halt(0)
