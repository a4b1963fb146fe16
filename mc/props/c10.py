# -*- coding: utf-8 -*-
"""C10: consistency of the stop times within a trip."""
import datetime
import itertools
import math
import re

import transitfeed

import feeds
from core import Scenario

SPEED = {0: 100, 1: 150, 2: 300, 3: 100, 4: 80, 5: 50, 6: 50, 7: 50}
KM = 180 / (math.pi * 6371.0)      # degrees of latitude per km


def gc(p, q):
  """Great-circle metres on a sphere of 6371 km, by the chord."""
  def vec(a):
    la, lo = math.radians(a[0]), math.radians(a[1])
    return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo),
            math.sin(la))
  c = math.sqrt(sum((a - b) ** 2 for a, b in zip(vec(p), vec(q))))
  return 2 * math.asin(min(1.0, c / 2)) * 6371010.0


class Row(object):
  """arr, dep: None, seconds or 'bad'; dist: None, number, 'bad'."""

  def __init__(self, stop, arr=None, dep=None, dist=None, seq=None):
    self.stop, self.arr, self.dep, self.dist, self.seq = (stop, arr, dep,
                                                          dist, seq)
    self.a = None if arr == 'bad' else arr
    self.d = None if dep == 'bad' else dep


def tm(v):
  return ('x' if v == 'bad' else None if v is None else
          '%d:%02d:%02d' % (v // 3600, v // 60 % 60, v % 60))


def build(rows, places, route_type, shape, via):
  pr, rec = feeds.reporter()
  s = transitfeed.Schedule(pr)
  s.AddAgency('a', 'http://a.example', 'Europe/Zurich')
  for c, (la, lo) in sorted(places.items()):
    s.AddStop(la, lo, 'name ' + c, stop_id=c)
  p = s.NewDefaultServicePeriod()
  p.SetWeekdayService(True)
  p.SetStartDate('20100101')
  p.SetEndDate('20101231')
  p.SetDateHasService('20100606')
  r = transitfeed.Route(field_dict={
      'route_id': 'R', 'route_short_name': '1', 'route_long_name': 'long',
      'route_type': route_type, 'agency_id': s.GetDefaultAgency().agency_id})
  s.AddRouteObject(r, pr)
  t = r.AddTrip(s, trip_id='T')
  if shape is not None:
    sh = transitfeed.Shape('SH')
    for la, lo, d in shape:
      sh.AddPoint(la, lo, d, pr)
    s.AddShapeObject(sh, pr)
    t.shape_id = 'SH'
  for i, w in enumerate(rows):
    st = transitfeed.StopTime(
        pr, s.GetStop(w.stop), arrival_time=tm(w.arr),
        departure_time=tm(w.dep),
        shape_dist_traveled='x' if w.dist == 'bad' else w.dist,
        stop_sequence=i + 1 if w.seq is None else w.seq)
    t._AddStopTimeObjectUnordered(st, s)
  # A second, sound trip so that every stop is used.
  t2 = r.AddTrip(s, trip_id='U')
  for i, c in enumerate(sorted(places)):
    t2._AddStopTimeObjectUnordered(transitfeed.StopTime(
        pr, s.GetStop(c), arrival_secs=86400 * (i + 1),
        departure_secs=86400 * (i + 1), stop_sequence=i + 1), s)
  rec.clear()
  return s, t


def timetravel(rows):
  """(indices that must be reported, indices that may be)."""
  must, may = set(), set()
  prev = 0
  top = 0
  for i, w in enumerate(rows):
    if w.a is None:
      if w.d is not None:
        top = max(top, w.d)
      continue
    if w.a < prev:
      (may if must else must).add(i)
    elif w.a < top:
      may.add(i)
    prev = w.d if w.d is not None else w.a
    top = max(top, prev)
  if any(w.a is None and w.d is not None for w in rows):
    may |= must
    must = set()
  return must, may | must


def distances(rows):
  must, may = {}, {}
  prev = top = None
  broken = False
  for i, w in enumerate(rows):
    d = w.dist
    if d in (None, 'bad'):
      continue
    r = None
    if d < 0:
      r = 'E'
    elif prev is not None and d == prev:
      r = 'W'
    elif prev is not None and d < prev:
      r = 'E'
    kinds = set([r])
    if broken:
      kinds |= set(['E' if d < top else 'W' if d == top else None])
    elif r:
      broken = r == 'E'
    must[i] = kinds
    prev = d
    top = d if top is None else max(d, top)
  return must


def speeds(rows, places, route_type):
  """Set of index pairs that must / may be reported as too fast."""
  mx = SPEED.get(route_type, 100)
  must, may = set(), set()
  last = None
  for i, w in enumerate(rows):
    if w.a is None:
      if w.d is not None:
        last = 'unclear'
      continue
    if last == 'unclear':
      for k in range(i):
        may.add((k, i))
    elif last is not None:
      v = rows[last]
      dep = v.d if v.d is not None else v.a
      dist = gc(places[v.stop], places[w.stop]) / 1000.0
      dt = w.a - dep
      if v.d is None:
        may.add((last, i))
      if dt == 0:
        if dep % 60:
          (must if dist > 1e-9 else may).add((last, i))
        elif dist * 60 > mx:
          must.add((last, i))
      elif dt > 0:
        if dist / (dt / 3600.0) > mx:
          must.add((last, i))
      else:
        may.add((last, i))
        last = 'unclear'
        continue
    last = i
  return must, may | must


def same_time(rows):
  """List of (count, time) of runs of more than five stops at one time."""
  out = []
  i = 0
  n = len(rows)
  timed = [k for k in range(n) if rows[k].a is not None and
           rows[k].d is not None]
  k = 0
  while k < len(timed):
    start = timed[k]
    t = rows[start].d
    end = start
    j = k + 1
    while j < len(timed) and rows[timed[j]].a == rows[timed[j]].d == t:
      end = timed[j]
      j += 1
    if end - start + 1 > 5:
      out.append((end - start + 1, t))
    k = j
  return out


def classify(rec):
  """Known reports by category; the rest as keys."""
  out = dict((k, []) for k in ('dup', 'travel', 'depbefore', 'half', 'missing',
                               'dist', 'end', 'far', 'speed', 'same', 'other'))
  for e in rec.problems:
    n, sev = e.__class__.__name__, feeds.ptype(e)
    col = getattr(e, 'column_name', None)
    desc = getattr(e, 'description', None) or ''
    if n == 'InvalidValue' and col == 'stop_sequence':
      out['dup'].append((sev, e.value))
    elif n == 'OtherProblem' and 'Timetravel' in desc:
      out['travel'].append((sev, int(re.search(r'number (\d+)',
                                               desc).group(1))))
    elif n == 'InvalidValue' and col == 'departure_time' and \
        'is before' in (getattr(e, 'reason', None) or ''):
      out['depbefore'].append((sev, 1))
    elif n == 'MissingValue' and col in ('arrival_time', 'departure_time'):
      out['half'].append((sev, col))
    elif n == 'InvalidValue' and col in ('arrival_time', 'departure_time') \
        and 'missing' in (getattr(e, 'reason', None) or ''):
      out['missing'].append((sev, col))
    elif n == 'InvalidValue' and col == 'stoptimes.shape_dist_traveled':
      out['dist'].append((sev, e.value))
    elif n == 'OtherProblem' and 'larger than the max' in desc:
      out['end'].append(sev)
    elif n == 'StopTooFarFromShapeWithDistTraveled':
      out['far'].append((sev, e.stop_id, round(e.distance)))
    elif n == 'TooFastTravel' and e.trip_id == 'U':
      pass
    elif n == 'TooFastTravel':
      out['speed'].append((sev, e.prev_stop, e.next_stop, e.time))
    elif n == 'TooManyConsecutiveStopTimesWithSameTime':
      out['same'].append((sev, e.number_of_stop_times, e.stop_time))
    else:
      out['other'].append(feeds.problem_key(e) + (desc[:60],))
  return out


def judge(x, rows, places, route_type=3, shape=None, end=None, far=None,
          what=None, via=None):
  s, t = build(rows, places, route_type, shape, via)
  pr, rec = feeds.reporter()
  t.Validate(pr)
  one(x, rows, places, route_type, classify(rec), end, far, what + ' trip',
      False)
  pr, rec = feeds.reporter()
  s.Validate(problems=pr, today=datetime.date(2010, 6, 1))
  got = classify(rec)
  one(x, rows, places, route_type, got, end, far, what + ' feed', True)
  x.step(2)
  x.state(sorted((k, sorted(v)) for k, v in got.items()))
  x.outcome('+'.join(sorted(k for k in got if got[k])) or 'silent')


def one(x, rows, places, route_type, got, end, far, what, whole):
  ordered = sorted(enumerate(rows),
                   key=lambda p: (p[1].seq if p[1].seq is not None else
                                  p[0] + 1))
  seqs = [w.seq if w.seq is not None else i + 1 for i, w in ordered]
  rows = [w for _, w in ordered]
  dups = sorted(v for v in set(seqs) if seqs.count(v) > 1)
  x.eq(sorted(got['dup']), [('E', v) for v in dups], 'dup', what)
  if dups:
    return     # the order of the repeated entries is open
  must, may = timetravel(rows)
  tr = [seqs.index(v) for _, v in got['travel']]
  x.check(must <= set(tr) <= may and len(set(tr)) == len(tr) and
          all(sv == 'E' for sv, _ in got['travel']), 'travel',
          lambda: '%s: got %r, must %r, may %r' % (what, got['travel'], must,
                                                   may))
  want = [1 for w in rows if w.a is not None and w.d is not None and w.d < w.a]
  x.check(bool(want) == bool(got['depbefore']) and
          len(got['depbefore']) % max(1, len(want)) == 0, 'depbefore',
          lambda: '%s: got %r, want %r' % (what, got['depbefore'], want))
  half = set()
  for w in rows:
    if w.a is not None and w.d is None:
      half.add(('E', 'departure_time'))
    if w.d is not None and w.a is None:
      half.add(('E', 'arrival_time'))
  x.eq(set(got['half']), half, 'half', what)
  miss = []
  if whole and len(rows) > 1:
    if rows[0].a is None and rows[0].d is None:
      miss.append(('E', 'departure_time'))
    if rows[-1].a is None and rows[-1].d is None:
      miss.append(('E', 'arrival_time'))
  x.eq(sorted(got['missing']), sorted(miss), 'missing', what)
  dm = distances(rows)
  reported = list(got['dist'])
  ok = True
  for i in sorted(dm):
    opts = dm[i]
    hit = [g for g in reported if g[1] == rows[i].dist and g[0] in opts]
    if hit:
      reported.remove(hit[0])
    elif None not in opts:
      ok = False
  x.check(ok and not reported, 'dist', lambda: '%s: got %r, want %r' % (
      what, got['dist'], dm))
  if end is not None:
    x.eq(got['end'], ['W'] if end else [], 'end', what)
  if far is not None:
    x.eq([(sv, c) for sv, c, _ in got['far']], [('W', c) for c, _ in far],
         'far', what)
    for g, f in zip(got['far'], far):
      x.check(abs(g[2] - f[1]) <= 3 + f[1] * 2e-3, 'far-distance',
              lambda: '%s: %r vs %r' % (what, g, f))
  must, may = speeds(rows, places, route_type)
  name = lambda pairs: sorted(('name ' + rows[i].stop, 'name ' + rows[j].stop)
                              for i, j in pairs)
  sp = sorted((a, b) for sv, a, b, _ in got['speed'])
  if must == may:
    x.eq(sp, name(must), 'speed', what)
  else:
    x.check(all(sp.count(p) >= name(must).count(p) for p in name(must)) and
            set(sp) <= set(name(may)), 'speed-range',
            lambda: '%s: got %r, must %r, may %r' % (what, sp, name(must),
                                                     name(may)))
  x.check(all(g[0] == 'W' for g in got['speed']), 'speed-severity', what)
  if whole:
    x.eq([(n, tt) for _, n, tt in got['same']],
         [(n, '%02d:%02d:%02d' % (v // 3600, v // 60 % 60, v % 60))
          for n, v in same_time(rows)], 'same', what)
    x.check(all(g[0] == 'W' for g in got['same']), 'same-severity', what)


# ---- times -------------------------------------------------------------------
NEAR = {'A': (47.0, 8.0), 'B': (47.0 + 0.5 * KM, 8.0), 'C': (47.0, 8.02)}
TT = [(None, None), (0, 0), (60, 60), (90, 90), (120, 120), (7200, 7200),
      (60, 120), (120, 60), (60, None), (None, 90), ('bad', 120),
      (7200, 86460)]


def gen_times(tier):
  yield ()
  for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
    for w in itertools.product(range(len(TT)), repeat=n):
      yield w


def run_times(x, case):
  rows = [Row('ABC'[i % 3], *TT[k]) for i, k in enumerate(case)]
  judge(x, rows, NEAR, what=repr(('times', case)))


# ---- speed -------------------------------------------------------------------
def gen_speed(tier):
  for rt in list(range(8)) + [9]:
    for base in ((0.0, 0.0), (47.0, 0.0), (0.0, -120.0)):
      for dt, t0 in ((0, 3600), (0, 3630), (0, 0), (30, 3600), (61, 3599),
                     (3600, 0), (-30, 3600)):
        for f in (0.0, 0.5, 0.98, 1.02, 3.0):
          for via in ('direct', 'untimed', 'dwell'):
            yield (rt, base, dt, t0, f, via)


def run_speed(x, case):
  rt, base, dt, t0, f, via = case
  mx = SPEED.get(rt, 100)
  km = mx * (60 if dt == 0 else abs(dt)) / 3600.0 * f
  if dt == 0:
    km = mx / 60.0 * f
  places = {'A': (base[0] + 10, base[1]),
            'B': (base[0] + 10 + km * KM, base[1]),
            'C': (base[0] + 30, base[1] + 40), 'D': (base[0] + 10,
                                                    base[1] + 1)}
  rows = [Row('A', max(0, t0 - 5), t0)]
  if via == 'untimed':
    rows.append(Row('C'))
  rows.append(Row('B', t0 + dt, t0 + dt + (600 if via == 'dwell' else 0)))
  rows.append(Row('D', 90000, 90000))
  judge(x, rows, places, route_type=rt, what=repr(('speed', case)))


def gen_words(tier):
  """Chains of stops so that the previous timed stop matters."""
  for rt in (3, 2):
    for n in (3, 4):
      for w in itertools.product((None, 60, 600), repeat=n - 1):
        for stops in itertools.product('ABE', repeat=n):
          if n == 4 and tier == 'quick' and stops[0] != 'A':
            continue
          yield (rt, w, stops)


CHAIN = {'A': (0.0, 10.0), 'B': (9 * KM, 10.0), 'E': (0.0, 10.0 + 20 * KM)}


def run_words(x, case):
  rt, gaps, stops = case
  now = 36000
  rows = [Row(stops[0], now, now)]
  for c, g in zip(stops[1:], gaps):
    if g is None:
      rows.append(Row(c))
    else:
      now += g
      rows.append(Row(c, now, now + 30))
      now += 30
  judge(x, rows, CHAIN, route_type=rt, what=repr(('words', case)))


# ---- distances ---------------------------------------------------------------
DD = [None, 0, 1, 2.5, 4, -1, 'bad']


def gen_dist(tier):
  for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
    for w in itertools.product(DD[:6] if n > 3 else DD, repeat=n):
      yield w


def run_dist(x, case):
  rows = [Row('ABC'[i % 3], 600 * i, 600 * i, d) for i, d in enumerate(case)]
  judge(x, rows, NEAR, what=repr(('dist', case)), end=False, far=[])


# ---- shapes ------------------------------------------------------------------
def gen_shape(tier):
  for base in ((0.0, 10.0), (0.0, -120.0), (40.0, 0.0), (-60.0, 179.0)):
    for offs in itertools.product((0, 0.95, 1.05, -1.05, 30), repeat=2):
      for d0, d1 in ((0, 4), (0, 2), (1, 3.999), (None, 4), (0, None),
                     (0, 4.001), (0, 7), (4.001, 8), (None, 9)):
        for tail in (None, 4.5, 'untold'):
          yield (base, offs, d0, d1, tail)


def run_shape(x, case):
  base, offs, d0, d1, tail = case
  la, lo = base
  shape = [(la, lo, 0), (la + 2 * 11 * KM, lo, 2), (la + 4 * 11 * KM, lo, 4)]
  def at(d):
    return (la + min(4, d) * 11 * KM, lo)
  # stops are displaced east or west of (or along with) their place
  places, rows, far = {}, [], []
  last = None
  lon_km = lambda lat: KM / math.cos(math.radians(lat))
  for i, (c, d, off) in enumerate((('A', d0, offs[0]), ('B', d1, offs[1]))):
    p = at(0.5 if d is None else d)
    places[c] = (p[0], p[1] + off * lon_km(p[0]))
    if i == 1 and base[0] == 0.0 and d1 == 4 and off == 0:
      places[c] = p
    rows.append(Row(c, 36000 + 36000 * i, 36000 + 36000 * i, d))
    if d is not None:
      dist = gc(places[c], p)
      if dist > 1000:
        far.append((c, dist))
      last = d
  if tail is not None:
    places['C'] = at(5)
    rows.append(Row('C', 200000, 200000, None if tail == 'untold' else tail))
  final = rows[-1].dist
  end = final is not None and final > 4
  if final is not None and any(
      w.dist is not None and w.dist > final for w in rows[:-1]):
    pass
  judge(x, rows, places, shape=shape, end=end, far=far,
        what=repr(('shape', case)))


# ---- sequences ---------------------------------------------------------------
def gen_seq(tier):
  for w in itertools.product((0, 1, 5, 7), repeat=4):
    yield w
  for w in itertools.permutations((0, 1, 2, 3, 10)):
    yield w


def run_seq(x, case):
  rows = [Row('ABC'[i % 3], 600 * q, 600 * q, seq=q)
          for i, q in enumerate(case)]
  judge(x, rows, NEAR, what=repr(('seq', case)))


# ---- many stops at one time --------------------------------------------------
def gen_same(tier):
  n = 7 if tier == 'quick' else 9
  for start in (0, 30000):
    for w in itertools.product('=u+', repeat=n - 1):
      yield (start, '', w)
  for start in (0, 30000):
    for k in (4, 5, 6):
      for pre in ('', 'd', 'u'):
        for post in ('', '+', 'u+', '+===='):
          yield (start, pre, ('=',) * k + tuple(post))
  for k in (4, 5, 6, 8):
    for post in (('+',) + ('=',) * j for j in range(3, 9)):
      yield (60, '', ('=',) * k + post)


def run_same(x, case):
  start, pre, w = case
  rows = []
  now = start
  if pre == 'd':
    rows.append(Row('A', now, now + 600))
    now += 600
  elif pre == 'u':
    rows.append(Row('A', now, now))
    rows.append(Row('B'))
    now += 600
    rows.append(Row('A', now, now))
  else:
    rows.append(Row('A', now, now))
  for i, c in enumerate(w):
    st = 'BCA'[i % 3]
    if c == 'u':
      rows.append(Row(st))
    else:
      now += 600 if c == '+' else 0
      rows.append(Row(st, now, now))
  judge(x, rows, NEAR, what=repr(('same', case)))


# ---- the same through the loader ---------------------------------------------
def gen_loaded(tier):
  for a in range(len(TT)):
    for b in range(len(TT)):
      for d in ((None, None), (0, 1), (1, 1), (1, 0.5), (0, 3.5), (0, 'bad')):
        for q in ((1, 2), (4, 2), (3, 3)):
          if tier == 'quick' and q != (1, 2) and d != (0, 1):
            continue
          yield (a, b, d, q)


def run_loaded(x, case):
  a, b, d, q = case
  rows = [Row('S1', *(TT[a] + (d[0], q[0]))), Row('S3', *(TT[b] +
                                                         (d[1], q[1])))]
  f = feeds.base()
  t = f['stop_times.txt']
  t.rows = [r for r in t.rows if r['trip_id'] != 'T1']
  for w in rows:
    t.rows.append(dict(
        (c, u'') for c in t.cols))
    t.rows[-1].update(
        trip_id=u'T1', stop_id=feeds.U(w.stop),
        arrival_time=feeds.U(tm(w.arr) or ''),
        departure_time=feeds.U(tm(w.dep) or ''),
        stop_sequence=unicode(w.seq),
        shape_dist_traveled=u'' if w.dist is None else
        u'x' if w.dist == 'bad' else unicode(w.dist))
  s, rec = feeds.load(f)
  pr, rec = feeds.reporter()
  s.Validate(problems=pr, today=datetime.date(2010, 6, 1))
  got = classify(rec)
  places = {'S1': (36.1, -116.1), 'S3': (36.12, -116.12)}
  # the stop times the loader accepts
  end = None
  rows2 = [Row('name ' + w.stop, w.arr, w.dep, w.dist, w.seq) for w in rows]
  if q[0] < q[1]:
    end = d[1] not in (None, 'bad') and d[1] > 3
  got['speed'] = [(v[0], 'name ' + {'One': 'S1', 'Three': 'S3'}[v[1]],
                   'name ' + {'One': 'S1', 'Three': 'S3'}[v[2]], v[3])
                  for v in got['speed']]
  one(x, rows, places, 3, got, end, None, repr(('loaded', case)), True)
  x.step()
  x.outcome('+'.join(sorted(k for k in got if got[k])) or 'silent')


SCENARIOS = [
    Scenario('times', gen_times, run_times,
             bound='all words of length <=3 (4) over 12 time pairs'),
    Scenario('speed', gen_speed, run_speed,
             bound='9 route types x 3 places x 7 intervals x 5 distances '
                   'around the limit x {direct, untimed between, dwell}'),
    Scenario('words', gen_words, run_words,
             bound='2 route types x trips of 3 and 4 stops over 3 places x '
                   '{untimed, +60, +600}'),
    Scenario('dist', gen_dist, run_dist,
             bound='all words of length <=4 (5) over 7 distances'),
    Scenario('shape', gen_shape, run_shape,
             bound='4 places x 25 displacements x 9 distance pairs x 3 '
                   'continuations'),
    Scenario('seq', gen_seq, run_seq,
             bound='4^4 sequence assignments, all orders of 5 numbers'),
    Scenario('same', gen_same, run_same,
             bound='all words of length 7 (9) over {same, untimed, later}'),
    Scenario('loaded', gen_loaded, run_loaded,
             bound='12 x 12 time pairs x 6 distance pairs x 3 orders, from '
                   'stop_times.txt'),
]
