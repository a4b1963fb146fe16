# -*- coding: utf-8 -*-
"""C11: trips overlapping within a block, and duplicate trips."""
import datetime
import itertools

import transitfeed

import feeds
from core import Scenario

TODAY = datetime.date(2010, 1, 1)
# service -> set of active dates (2010); None: not defined in the feed
SERVICES = {
    'WK': ('range', '20100104', '20100131', '1111100', {}),
    'SA': ('range', '20100101', '20100131', '0000010', {}),
    'SU': ('range', '20100104', '20100131', '0000001', {'20100109': 1}),
    'LATE': ('range', '20100201', '20100228', '1111111', {'20100131': 1}),
    'ONE': ('dates', None, None, '0000000', {'20100106': 1, '20100113': 1}),
    'OFF': ('range', '20100104', '20100108', '1111100',
            {'20100106': 2, '20100104': 2, '20100105': 2, '20100107': 2,
             '20100108': 2}),
    'EMPTY': ('dates', None, None, '0000000', {}),
    'WK2': ('range', '20100129', '20100215', '0000111', {'20100205': 2}),
}
ACTIVE = {}


def active(name):
  if name not in ACTIVE:
    if name not in SERVICES:
      ACTIVE[name] = None
    else:
      _, a, b, dow, exc = SERVICES[name]
      out = set()
      d = datetime.date(2009, 12, 25)
      while d < datetime.date(2010, 3, 10):
        k = d.strftime('%Y%m%d')
        if exc.get(k) == 1:
          out.add(k)
        elif exc.get(k) != 2 and a and a <= k <= b and dow[d.weekday()] == '1':
          out.add(k)
        d += datetime.timedelta(1)
      ACTIVE[name] = out
  return ACTIVE[name]


def share(a, b):
  if a == b:
    return True
  x, y = active(a), active(b)
  return bool(x is not None and y is not None and x & y)


def build(trips, dup=False, order=None):
  """trips: (service, block, route, [(stop, arr, dep), ...])."""
  pr, rec = feeds.reporter()
  s = transitfeed.Schedule(pr, check_duplicate_trips=dup)
  s.AddAgency('a', 'http://a.example', 'Europe/Zurich')
  for i, c in enumerate('ABC'):
    s.AddStop(47 + i * 1e-4, 8, 'stop ' + c, stop_id=c)
  for n, (kind, a, b, dow, exc) in sorted(SERVICES.items()):
    p = transitfeed.ServicePeriod(n)
    p.start_date, p.end_date = a, b
    for i in range(7):
      p.SetDayOfWeekHasService(i, dow[i] == '1')
    for d, e in exc.items():
      p.SetDateHasService(d, e == 1)
    s.AddServicePeriodObject(p, validate=False)
  for n in '12':
    s.AddRoute(n, 'route ' + n, 'Bus', route_id='R' + n)
  n = len(trips)
  for i in order or range(n):
    service, block, route, sts = trips[i]
    t = transitfeed.Trip()
    t.trip_id = 'T%d' % i
    t.route_id = route
    t.service_id = service
    if block is not None:
      t.block_id = block
    s.AddTripObject(t, pr)
    for k, (c, a, d) in enumerate(sts):
      t._AddStopTimeObjectUnordered(transitfeed.StopTime(
          pr, s.GetStop(c), arrival_secs=a, departure_secs=d,
          stop_sequence=k + 1), s)
  rec.clear()
  return s


def wanted_overlaps(trips):
  must, may = set(), set()
  for i, j in itertools.combinations(range(len(trips)), 2):
    a, b = trips[i], trips[j]
    if not a[1] or a[1] != b[1] or not a[3] or not b[3]:
      continue
    if not share(a[0], b[0]):
      continue
    ia = (a[3][0][1], a[3][-1][2])
    ib = (b[3][0][1], b[3][-1][2])
    if None in ia or None in ib:
      continue
    key = frozenset(['T%d' % i, 'T%d' % j])
    lo, hi = max(ia[0], ib[0]), min(ia[1], ib[1])
    if lo < hi:
      must.add((key, a[1]))
    elif lo == hi and (ia[0] == ia[1] or ib[0] == ib[1]):
      may.add((key, a[1]))      # a trip that lasts an instant
  return must, may | must


def check_reports(x, rec, trips, dup, what):
  must, may = wanted_overlaps(trips)
  got = [(frozenset([e.trip_id1, e.trip_id2]), e.block_id)
         for e in rec.problems
         if e.__class__.__name__ == 'OverlappingTripsInSameBlock']
  x.check(len(set(got)) == len(got) and must <= set(got) <= may, 'overlap',
          lambda: '%s: got %r, want %r' % (
              what, sorted((sorted(g), b) for g, b in got),
              sorted((sorted(g), b) for g, b in must)))
  groups = {}
  for i, t in enumerate(trips):
    if t[3] and t[3][0][1] is not None:
      groups.setdefault((t[0], t[3][0][1], tuple(c for c, _, _ in t[3])),
                        []).append('T%d' % i)
  where = dict((v, k) for k, vs in groups.items() for v in vs)
  found = [e for e in rec.problems if e.__class__.__name__ == 'DuplicateTrip']
  by = {}
  ok = True
  for e in found:
    a, b = e.trip_id1, e.trip_id2
    ok = (ok and a != b and where.get(a) is not None and
          where.get(a) == where.get(b) and
          e.route_id1 == trips[int(a[1:])][2] and
          e.route_id2 == trips[int(b[1:])][2])
    by.setdefault(where.get(a), []).append(b)
  for k, ids in groups.items():
    dups = by.get(k, [])
    ok = ok and len(dups) == (len(ids) - 1 if dup else 0) and \
        len(set(dups)) == len(dups)
  x.check(ok, 'duplicates', lambda: '%s: got %r' % (
      what, [(e.trip_id1, e.trip_id2, e.route_id1, e.route_id2)
             for e in found]))
  x.check(all(feeds.ptype(e) == 'W' for e in found), 'severity', what)
  x.state((sorted((sorted(g), b) for g, b in got), len(found)))
  x.outcome('overlaps%d dups%d' % (min(3, len(got)), len(found)))


def judge(x, trips, dup=False, order=None, what=''):
  s = build(trips, dup, order)
  pr, rec = feeds.reporter()
  s.Validate(problems=pr, today=TODAY)
  x.step()
  check_reports(x, rec, trips, dup, what)


def trip(service, block, a, b, dwell=0):
  return (service, block, 'R1', [('A', a, a + dwell), ('B', b - dwell, b)])


INTERVALS = [(0, 100), (100, 200), (99, 200), (101, 200), (20, 60), (0, 60),
             (60, 100), (0, 86400), (86400, 90000), (50, 50), (100, 100),
             (-1, -1)]


def gen_pair(tier):
  svcs = sorted(SERVICES) + ['GONE']
  for a in svcs:
    for b in svcs:
      for iv in INTERVALS[:-1]:
        for blocks in (('b', 'b'), ('b', 'c'), (u'b', None), ('', ''),
                       ('0', '0')):
          if blocks != ('b', 'b') and (a, b) not in (('WK', 'WK'),
                                                     ('WK', 'ONE')):
            continue
          for swap in (0, 1):
            yield (a, b, iv, blocks, swap)


def run_pair(x, case):
  a, b, iv, blocks, swap = case
  trips = [trip(a, blocks[0], 0, 100, 5),
           trip(b, blocks[1], iv[0], iv[1], 0)]
  judge(x, trips, order=(1, 0) if swap else None, what=repr(case))


def gen_triple(tier):
  iv = [(0, 100), (40, 60), (50, 150), (100, 200)]
  sv = ['WK', 'SA', 'ONE', 'GONE'] if tier != 'quick' else ['WK', 'ONE', 'GONE']
  alpha = [(s, b, i) for s in sv for b in 'bc' for i in iv]
  for w in itertools.combinations_with_replacement(alpha, 3):
    yield w


def run_triple(x, case):
  trips = [trip(s, b, i[0], i[1]) for s, b, i in case]
  for order in ((0, 1, 2), (2, 1, 0), (1, 2, 0)):
    judge(x, trips, order=order, what=repr((case, order)))


def gen_many(tier):
  """Four and five trips of one block."""
  iv = [(0, 300), (10, 20), (15, 30), (20, 200), (300, 400)]
  for w in itertools.product(iv, repeat=4):
    yield w
  if tier != 'quick':
    for w in itertools.product(iv, repeat=5):
      yield w


def run_many(x, case):
  sv = ('WK', 'ONE', 'SA', 'SU', 'WK')
  judge(x, [trip(sv[i], 'b', a, b) for i, (a, b) in enumerate(case)],
        what=repr(case))


STOPSEQ = [('A', 'B'), ('B', 'A'), ('A', 'B', 'C'), ('A', 'A')]


def gen_dup(tier):
  alpha = [(s, r, t, q) for s in ('WK', 'SA') for r in ('R1', 'R2')
           for t in (0, 3600) for q in STOPSEQ]
  for dup in (True, False):
    for w in itertools.combinations_with_replacement(alpha, 2):
      yield (dup, w)
  for w in itertools.combinations_with_replacement(
      alpha if tier != 'quick' else alpha[::3] + alpha[1:4], 3):
    yield (True, w)
  for k in range(2, 6):
    for n in (0, 1, 2):
      yield (True, (alpha[1],) * k + (alpha[2],) * n)


def run_dup(x, case):
  dup, w = case
  trips = []
  for i, (s, r, t, q) in enumerate(w):
    trips.append((s, None, r, [(c, t + k * (600 + i), t + k * (600 + i))
                               for k, c in enumerate(q)]))
  judge(x, trips, dup=dup, what=repr(case))


def gen_loaded(tier):
  # the three trips of the base feed, blocks and times, all row orders
  for perm in itertools.permutations(range(3)):
    for t2 in ('06:05:00', '06:21:00', '06:20:59', '05:50:00'):
      for svc in ('WE', 'WK', 'XX', 'GONE'):
        for dup in (False, True):
          yield (perm, t2, svc, dup)


def run_loaded(x, case):
  perm, t2, svc, dup = case
  f = feeds.base()
  del f.tables['frequencies.txt']
  f['calendar_dates.txt'].rows.append(
      {'service_id': u'XX', 'date': u'20100705', 'exception_type': u'1'})
  rows = f['trips.txt'].rows
  rows[1]['service_id'] = feeds.U(svc)
  rows[2]['block_id'] = u'B1'
  f['trips.txt'].rows = [rows[i] for i in perm]
  st = f['stop_times.txt'].rows
  end = feeds.secs(feeds.U(t2)) + 600
  st[3]['arrival_time'] = st[3]['departure_time'] = feeds.U(t2)
  st[4]['arrival_time'] = st[4]['departure_time'] = \
      u'%02d:%02d:00' % (end // 3600, end // 60 % 60)
  # T3 repeats T1
  st[5].update(stop_id=u'S1', arrival_time=u'06:00:00',
               departure_time=u'06:00:00')
  st[6].update(stop_id=u'S3', arrival_time=u'06:50:00',
               departure_time=u'06:50:00')
  extra = dict(st[6])
  extra.update(stop_id=u'S2', stop_sequence=u'5', arrival_time=u'',
               departure_time=u'')
  st.append(extra)
  s, rec = feeds.load(f, extra_validation=True, check_duplicate_trips=dup)
  x.step()
  dates = {'WE': 'WE', 'WK': 'WK', 'XX': 'XX'}
  got = set(frozenset([e.trip_id1, e.trip_id2]) for e in rec.problems
            if e.__class__.__name__ == 'OverlappingTripsInSameBlock')
  iv = {'T1': (21600, 22860), 'T2': (feeds.secs(feeds.U(t2)), end - end % 60),
        'T3': (21600, 24600)}
  sv = {'T1': 'WK', 'T2': svc, 'T3': 'WK'}
  # WK has no service on the fifth of July (exception), XX only has that day,
  # WE is active on that day and weekends, where WK has the fourth.
  shared = {('WK', 'WK'): 1, ('WE', 'WK'): 1, ('WK', 'XX'): 0,
            ('GONE', 'WK'): 0}
  want = set()
  for a, b in (('T1', 'T2'), ('T1', 'T3'), ('T2', 'T3')):
    if max(iv[a][0], iv[b][0]) < min(iv[a][1], iv[b][1]) and \
        shared[tuple(sorted((sv[a], sv[b])))]:
      want.add(frozenset([a, b]))
  x.eq(sorted(map(sorted, got)), sorted(map(sorted, want)), 'loaded-overlap',
       repr(case))
  dups = sorted((e.trip_id1, e.trip_id2) for e in rec.problems
                if e.__class__.__name__ == 'DuplicateTrip')
  x.check(set(map(frozenset, dups)) ==
          (set([frozenset(['T1', 'T3'])]) if dup else set()) and
          len(dups) == int(dup), 'loaded-dup', repr((case, dups)))
  x.outcome('overlap%d' % len(want))


SCENARIOS = [
    Scenario('pair', gen_pair, run_pair,
             bound='9 x 9 services x 11 interval relations x block '
                   'combinations x both orders'),
    Scenario('triple', gen_triple, run_triple,
             bound='all multisets of 3 trips over 3 (4) services x 2 blocks x '
                   '4 intervals, 3 orders each'),
    Scenario('many', gen_many, run_many,
             bound='all 4- (5-) trip blocks over 5 intervals'),
    Scenario('dup', gen_dup, run_dup,
             bound='all multisets of 2 and 3 trips over services x routes x '
                   'start times x stop sequences; groups of up to 5'),
    Scenario('loaded', gen_loaded, run_loaded,
             bound='all orders of trips.txt x 4 times x 4 services x checking '
                   'on or off, through the loader'),
]
