# -*- coding: utf-8 -*-
"""C07: frequencies of trips."""
import itertools

import transitfeed

import feeds
from core import Scenario

# stop times: (stop, arrival, departure, extras)
TRIPS = {
    'plain': [('A', 36000, 36000, {}), ('B', 36600, 36600, {})],
    'rich': [('A', 36000, 36060, {'pickup_type': 1, 'stop_headsign': u'h\xe9',
                                  'shape_dist_traveled': 0, 'timepoint': 1}),
             ('B', None, None, {'drop_off_type': 3, 'timepoint': 0,
                                'shape_dist_traveled': 2.5}),
             ('C', None, None, {'pickup_type': 1, 'drop_off_type': 1}),
             ('A', 36600, 36720, {'drop_off_type': 1,
                                  'shape_dist_traveled': 4})],
    'midnight': [('B', 0, 30, {}), ('C', 86400, 86460, {'pickup_type': 0})],
    'zero': [('A', 0, 0, {}), ('B', None, None, {}), ('C', 0, 0, {}),
             ('B', 60, 60, {})],
    'one': [('A', 50, 70, {})],
    'none': [],
}
# valid periods: as given, seconds, headway, exact
PERIODS = [
    (('06:00:00', '07:00:00', 600, 0), (21600, 25200, 600, 0)),
    (('07:00:00', '08:00:00', '900', 1), (25200, 28800, 900, 1)),
    ((0, 3600, 1800, 0), (0, 3600, 1800, 0)),
    (('6:30:00', 26000, 3600, 1), (23400, 26000, 3600, 1)),
    (('00:59:59', '01:00:00', 1, 0), (3599, 3600, 1, 0)),
    (('24:00:00', '25:00:01', 1800, 0), (86400, 90001, 1800, 0)),
    (('06:10:00', '06:50:00', 86400, 0), (22200, 24600, 86400, 0)),
    (('100:00:00', '100:20:00', 601, None), (360000, 361200, 601, 0)),
]
OPS = [('add', i) for i in range(len(PERIODS))] + [('clear',)]
HOW = ['AddFrequency', 'AddFrequencyObject', 'AddHeadwayPeriodObject']


def build(kind):
  pr, rec = feeds.reporter()
  s = transitfeed.Schedule(pr)
  s.AddAgency('a', 'http://a', 'Europe/Zurich')
  for i, c in enumerate('ABC'):
    s.AddStop(40 + i / 100.0, 10, c, stop_id=c)
  s.NewDefaultServicePeriod().SetDateHasService('20100101')
  r = s.AddRoute('1', 'one', 'Bus')
  t = r.AddTrip(s, trip_id='T')
  for stop, a, d, kw in TRIPS[kind]:
    t.AddStopTimeObject(transitfeed.StopTime(
        pr, s.GetStop(stop), arrival_secs=a, departure_secs=d, **kw))
  rec.clear()
  return s, t, pr, rec


def starts(model):
  out = []
  for a, b, h, _ in model:
    k = a
    while k < b:
      out.append(k)
      k += h
  return sorted(out)


def fmt(v):
  return u'%02d:%02d:%02d' % (v // 3600, v // 60 % 60, v % 60)


def compare(x, t, model, kind, what, rec):
  x.eq([tuple(v) for v in t.GetFrequencyTuples()], model, 'tuples', what)
  x.eq([tuple(v) for v in t.GetFrequencyOutputTuples()],
       [(u'T', fmt(a), fmt(b), unicode(h), unicode(e))
        for a, b, h, e in model], 'output-tuples', what)
  want = starts(model)
  x.eq(list(t.GetFrequencyStartTimes()), want, 'start-times', what)
  runs = t.GetFrequencyStopTimes()
  got = [[feeds.stoptime(st) for st in run] for run in runs]
  own = [feeds.stoptime(st) for st in t.GetStopTimes()]
  if own:
    first = own[0][0] if own[0][0] is not None else own[0][1]
    sh = lambda v, k: None if v is None else v - first + k
    x.eq(got, [[(sh(st[0], k), sh(st[1], k)) + st[2:] for st in own]
               for k in want], 'runs', what)
  else:
    x.check(all(not r for r in got), 'runs-without-stops', what)
  pairs = sum(1 for p, q in itertools.combinations(model, 2)
              if p[0] < q[1] and q[0] < p[1])
  rec.clear()
  t.ValidateFrequencies(transitfeed.ProblemReporter(rec))
  x.eq([k[0] for k in rec.keys()], ['OtherProblem'] * pairs, 'overlaps', what)
  x.step()
  x.state((model, kind))


def gen_words(tier):
  for kind in sorted(TRIPS):
    for w in itertools.product(OPS, repeat=3 if tier != 'quick' else 2):
      yield (kind, 'AddFrequency', w)
  for how in HOW[1:] + ['AddHeadwayPeriod']:
    for i in range(len(PERIODS)):
      yield ('plain', how, (('add', i),))
  for w in itertools.product(OPS, repeat=3 if tier == 'quick' else 4):
    yield ('plain', 'AddFrequency', w)


def run_words(x, case):
  kind, how, ops = case
  s, t, pr, rec = build(kind)
  model = []
  compare(x, t, model, kind, 'start', rec)
  for i, op in enumerate(ops):
    rec.clear()
    if op[0] == 'clear':
      t.ClearFrequencies()
      model = []
    else:
      (a, b, h, e), m = PERIODS[op[1]]
      if how == 'AddFrequency':
        t.AddFrequency(a, b, h, e, problem_reporter=pr)
      elif how == 'AddHeadwayPeriod':
        t.AddHeadwayPeriod(a, b, h, problem_reporter=pr)
        m = m[:3] + (0,)
      else:
        f = transitfeed.Frequency({'trip_id': 'T', 'start_time': a,
                                   'end_time': b, 'headway_secs': h,
                                   'exact_times': e})
        getattr(t, how)(f, pr)
      model.append(m)
      x.eq(rec.keys(), [], 'valid-reported', repr((kind, how, ops[:i + 1])))
    compare(x, t, model, kind, repr((kind, how, ops[:i + 1])), rec)
    if x.case_failures:
      return
  x.outcome('runs%d' % min(3, len(starts(model))))


TIMES = [None, '', '06:00:00', 21600, 0, '0:00:00', '6:00', '25:00:00', 90000,
         -1, '-1:00:00', '06:60:00', 'x', '06:00:00\n', '1000:00:00', u'06:00:0\u0660']
HEADS = [None, '', 0, '0', 1, '600', 600, -1, '-5', 'x', '10.5', '600s',
         ' 60', '1e2']
EXACT = [0, 1, None, '', 2, -1, 'x']


def tval(v):
  if v is None or v == '':
    return 'MissingValue', None
  if isinstance(v, int):
    return ('InvalidValue', None) if v < 0 else (None, v)
  from props.c06 import time_value
  n = time_value(v)
  return ('InvalidValue', None) if n is None else (None, n)


def hval(v):
  if v is None or v == '' or v == 0:
    return ('MissingValue', 'InvalidValue'), None
  try:
    n = int(v)
  except ValueError:
    return ('InvalidValue',), None
  if n <= 0:
    return ('InvalidValue', 'MissingValue'), None
  return None, n


def gen_bad(tier):
  for a in TIMES:
    for b in TIMES:
      for h in HEADS:
        for e in EXACT if (tier != 'quick' or h in (600, 'x')) else EXACT[:2]:
          yield (a, b, h, e)


def run_bad(x, case):
  a, b, h, e = case
  s, t, pr, rec = build('plain')
  t.AddFrequency(a, b, h, e, problem_reporter=pr)
  x.step()
  got = [(k[0], k[2]) for k in rec.keys()]
  pa, va = tval(a)
  pb, vb = tval(b)
  ph, vh = hval(h)
  added = [tuple(v) for v in t.GetFrequencyTuples()]
  bad = []
  if pa:
    bad.append(((pa,), 'start_time'))
  if pb:
    bad.append(((pb,), 'end_time'))
  if ph:
    bad.append((ph, 'headway_secs'))
  if bad:
    # at least one of the faults is named; nothing that is fine is named
    x.check(got and all(any(g[0] in p and g[1] == c for p, c in bad)
                        for g in got), 'bad-report',
            lambda: '%r: got %r for faults %r' % (case, got, bad))
    x.eq(added, [], 'bad-added', repr(case))
    x.outcome('refused')
  else:
    want = []
    if vb <= va:
      want.append(('InvalidValue', 'end_time'))
    if e not in (0, 1, None, ''):
      want.append(('InvalidValue', 'exact_times'))
    x.eq(got, want, 'report', repr(case))
    if not want:
      x.eq(added, [(va, vb, vh, e or 0)], 'added', repr(case))
    x.outcome('reported' if want else 'ok')
  x.state((case, got, added))


# ---- through the loader ----------------------------------------------------
LT = [u'', u'06:00:00', u'5:00:00', u'x', u'24:00:00', u'06:00']
LH = [u'', u'0', u'600', u'-1', u'x', u'1.5', u'7200']
LE = [u'', u'0', u'1', u'2', u'x', u'-1', u'1.0']


def gen_loaded(tier):
  for a in LT:
    for b in LT:
      for h in LH:
        for e in LE if (a, b) == (u'5:00:00', u'06:00:00') else LE[:2]:
          yield (a, b, h, e)
  for perm in itertools.permutations(range(4)):
    yield perm


def run_loaded(x, case):
  f = feeds.base()
  rows = [('T3', '08:00:00', '10:00:00', '1800', '0'),
          ('T1', '05:00:00', '06:00:00', '600', ''),
          ('T3', '04:00:00', '05:00:00', '3600', '1'),
          ('T1', '06:00:00', '06:10:00', '300', '1')]
  perm = case if not isinstance(case[0], unicode) else None
  t = f['frequencies.txt']
  if perm:
    t.rows = [dict(zip(t.cols, [feeds.U(v) for v in rows[i]])) for i in perm]
  else:
    t.rows = [dict(zip(t.cols, (u'T3',) + case)),
              dict(zip(t.cols, [feeds.U(v) for v in rows[2]]))]
  s, rec = feeds.load(f)
  x.step()
  if perm:
    x.eq(rec.keys(), [], 'loaded-report', repr(case))
    for tid in ('T1', 'T3'):
      want = [(feeds.secs(feeds.U(r[1])), feeds.secs(feeds.U(r[2])),
               int(r[3]), int(r[4] or 0)) for r in rows if r[0] == tid]
      x.eq(sorted(tuple(v) for v in s.GetTrip(tid).GetFrequencyTuples()),
           sorted(want), 'loaded', repr((case, tid)))
      x.eq(list(s.GetTrip(tid).GetFrequencyStartTimes()), starts(want),
           'loaded-starts', repr((case, tid)))
    x.outcome('perm')
    return
  a, b, h, e = case
  pa, va = tval(a)
  pb, vb = tval(b)
  ph, vh = hval(h)
  bad = set()
  if pa:
    bad.add('start_time')
  if pb:
    bad.add('end_time')
  if ph:
    bad.add('headway_secs')
  note = set()
  if not bad and vb <= va:
    note.add('end_time')
  if e not in (u'', u'0', u'1'):
    note.add('exact_times')
  cols = set(k[2] for k in rec.keys() if k[1] == 'E')
  tup = [tuple(v) for v in s.GetTrip('T3').GetFrequencyTuples()]
  other = (14400, 18000, 3600, 1)
  if bad:
    x.check(cols and cols <= bad | note and cols & bad, 'loaded-bad-report',
            lambda: '%r: got %r for %r' % (case, rec.keys(), bad))
    x.eq(tup, [other], 'loaded-bad-added', repr(case))
  else:
    x.eq(cols, note, 'loaded-report', repr((case, rec.keys())))
    if not note:
      x.eq(tup, [(va, vb, vh, int(e or 0)), other], 'loaded-added',
           repr(case))
  x.state((case, tup))
  x.outcome('bad' if bad else 'note' if note else 'ok')


SCENARIOS = [
    Scenario('words', gen_words, run_words,
             bound='6 trips x all words of length 2 (3) and one trip x length '
                   '3 (4) over 8 periods and clearing, observed at every step; '
                   'the deprecated entry points'),
    Scenario('bad', gen_bad, run_bad,
             bound='16 start x 16 end x 14 headway x 2-7 exact flag values'),
    Scenario('loaded', gen_loaded, run_loaded,
             bound='6 x 6 x 7 x 2-7 values through frequencies.txt; all orders '
                   'of 4 rows'),
]
