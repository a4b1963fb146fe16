# -*- coding: utf-8 -*-
"""C28: the unusual trip filter marks exactly the rare trips, reproducibly.

Every assignment of a few trips to routes and patterns is filtered at every
threshold around the possible shares; the marks are compared with the share
computed from the assignment alone.  The program is run on feeds with every
combination of options, and the written feed is compared with the rows."""
import itertools
import os
import shutil
import sys
import tempfile
from fractions import Fraction

import transitfeed
import unusual_trip_filter as utf
import feeds
from core import Scenario

TYPES = {0: 'Tram', 1: 'Subway', 2: 'Rail', 3: 'Bus', 4: 'Ferry',
         5: 'Cable Car', 6: 'Gondola', 7: 'Funicular'}

# stops and the time of the first; equal stops are one pattern
PATTERNS = [('ABC', 100), ('ABC', 7000), ('AC', 100), ('CBA', 100),
            ('ABCA', 100), ('AB', 100), ('', 0)]


def shares(n):
  s = set(Fraction(k, m) for m in range(1, n + 1) for k in range(m + 1))
  return sorted(s)


def thresholds(n):
  """Every share that trips of n can have, and a value between any two."""
  out = []
  s = shares(n)
  for i, v in enumerate(s):
    f = float(v)
    # only where all ways to compute with floats agree
    if all((k / float(m) < f) == (Fraction(k, m) < v) and
           (k < f * m) == (Fraction(k, m) < v)
           for m in range(1, n + 1) for k in range(m + 1)):
      out.append((f, v))
    if i + 1 < len(s):
      mid = (v + s[i + 1]) / 2
      out.append((float(mid), mid))
  return out + [(1.5, Fraction(3, 2))]


def build(routes, trips, reverse=False):
  """routes: {rid: type}; trips: [(rid, pattern, trip_type or None)]"""
  p, rec = feeds.reporter()
  s = transitfeed.Schedule(problem_reporter=p)
  s.AddAgency('A', 'http://a.example/', 'America/New_York', 'A')
  sp = s.GetDefaultServicePeriod()
  stops = dict((n, s.AddStop(i, i, n, n)) for i, n in enumerate('ABC'))
  for rid in sorted(routes, reverse=reverse):
    s.AddRoute(u'r\xe9', 'Long ' + rid, routes[rid], rid)
  order = list(enumerate(trips))
  if reverse:
    order.reverse()
  for i, (rid, pat, tt) in order:
    t = s.GetRoute(rid).AddTrip(s, headsign=u'\u20ac %d' % i, trip_id='T%d' % i)
    if tt is not None:
      t.trip_type = tt
    names, time = PATTERNS[pat]
    for j, n in enumerate(names):
      t.AddStopTime(stops[n], stop_time='%02d:%02d:00' %
                    divmod(time / 60 + 5 * j, 60))
  return s


def marks(s):
  return dict((t.trip_id, t['trip_type']) for t in s.GetTripList())


def rest(s):
  q = feeds.reporter()[0]
  return (sorted((t.trip_id, sorted((k, str(v) if not isinstance(v, unicode)
                                     else v)
                                    for k, v in t.iteritems()
                                    if k != 'trip_type'),
                  [(st.stop_id, st.arrival_secs, st.stop_sequence)
                   for st in t.GetStopTimes(q)]) for t in s.GetTripList()),
          sorted((r.route_id, sorted(r.iteritems()),
                  sorted(t.trip_id for t in r.trips))
                 for r in s.GetRouteList()))


def rare(routes, trips, share, route_type):
  """Indexes of trips that are seen by the filter, and of those marked."""
  seen, marked = set(), set()
  for i, (rid, pat, _) in enumerate(trips):
    if route_type is not None and routes[rid] != route_type:
      continue
    seen.add(i)
    mine = [PATTERNS[p][0] for r, p, _ in trips if r == rid]
    if Fraction(mine.count(PATTERNS[pat][0]), len(mine)) < share:
      marked.add(i)
  return seen, marked


def want_marks(routes, trips, share, route_type, force):
  seen, marked = rare(routes, trips, share, route_type)
  w = {}
  for i, (_, _, tt) in enumerate(trips):
    w['T%d' % i] = ('1' if i in marked else
                    '0' if force and i in seen else tt or '')
  return w


def text(m):
  return dict((k, '' if v is None else str(v)) for k, v in m.items())


# ---- assignments ---------------------------------------------------------------
ROUTES = {'R': 3, 'Q': 0}


def gen_assign(tier):
  top = 5 if tier == 'quick' else 6
  pats = (0, 1, 3) if tier == 'quick' else range(5)
  cells = [(r, p) for r in ('R', 'Q') for p in pats]
  for n in range(top + 1):
    # trips are interchangeable here: multisets; the order of adding them is
    # part of the case
    for w in itertools.combinations_with_replacement(cells, n):
      yield [list(c) for c in w]


def run_assign(x, case):
  trips = [(r, p, None) for r, p in case]
  s = build(ROUTES, trips)
  s2 = build(ROUTES, trips, reverse=True)
  before = rest(s)
  kept = None
  for f, v in thresholds(max(1, len(trips))):
    for route_type, arg in ((None, None), (3, 'Bus'), (0, 0)):
      got = []
      for sch in (s, s2) if arg is None else (s,):
        for t in sch.GetTripList():
          t.__dict__.pop('trip_type', None)
        utf.UnusualTripFilter(f, quiet=True, route_type=arg).filter(sch)
        got.append(text(marks(sch)))
        x.step()
      w = want_marks(ROUTES, trips, v, route_type, False)
      if not (x.eq(got[0], w, 'marks', 'threshold %r type %r' % (f, arg)) and
              x.eq(got[-1], w, 'marks-order', 'threshold %r type %r, trips added '
                   'in reverse' % (f, arg))):
        return
      x.outcome('marked' if '1' in w.values() else 'none')
      x.state((case, w))
  x.check(rest(s) == before, 'others-changed', 'values besides trip_type')
  # the filter again, on its own result
  f, v = 0.5, Fraction(1, 2)
  utf.UnusualTripFilter(f, quiet=True, force=True).filter(s)
  utf.UnusualTripFilter(f, quiet=True, force=True).filter(s)
  x.step(2)
  x.eq(text(marks(s)), want_marks(ROUTES, trips, v, None, True), 'marks-again')


# ---- many trips around the default threshold -------------------------------------
def gen_many(tier):
  for n in (1, 2, 9, 10, 11, 12, 20, 21):
    for a in range(0, min(n, 4)):
      for b in range(0, min(n - a, 3)):
        for force in (False, True):
          yield [n, a, b, force]


def run_many(x, case):
  n, a, b, force = case
  trips = ([('R', 2, None)] * a + [('R', 5, None)] * b +
           [('R', i % 2, None) for i in range(n - a - b)] +
           [('Q', 2, None)])
  s = build(ROUTES, trips)
  utf.UnusualTripFilter(quiet=True, force=force).filter(s)
  x.step()
  w = want_marks(ROUTES, trips, Fraction(1, 10), None, force)
  x.eq(text(marks(s)), w, 'default-threshold')
  x.outcome('marked' if '1' in w.values() else 'none')
  x.state(w)


# ---- values that are there already ------------------------------------------------
def gen_present(tier):
  vals = [None, '', '0', '1', '2']
  pats = (0, 2, 3, 6) if tier != 'quick' else (0, 2, 6)
  for n in (1, 2, 3):
    for ps in itertools.combinations_with_replacement(pats, n):
      for tts in itertools.product(vals, repeat=n):
        yield [[list(pt) for pt in zip(ps, tts)]]


def run_present(x, case):
  trips = [('R', p, tt) for p, tt in case[0]]
  trips.append(('Q', 2, '2'))
  s = build(ROUTES, trips)
  before = rest(s)
  args = [(None, None), ('Bus', 3), ('Tram', 0), (3, 3), ('0', 0)]
  if len(trips) < 4 or x.tier != 'quick':
    args += [('3', 3), ('Rail', 2), ('7', 7), ('715', 715)]
  for f, v in ((0.4, Fraction(2, 5)), (0.6, Fraction(3, 5)), (0, Fraction(0)),
               (1, Fraction(1)), (1.5, Fraction(3, 2))):
    for force in (False, True):
      for arg, rt in args:
        for i, (_, _, tt) in enumerate(trips):
          t = s.GetTrip('T%d' % i)
          t.__dict__.pop('trip_type', None)
          if tt is not None:
            t.trip_type = tt
        utf.UnusualTripFilter(threshold=f, force=force, quiet=True,
                              route_type=arg).filter(s)
        x.step()
        w = want_marks(ROUTES, trips, v, rt, force)
        x.eq(text(marks(s)), w, 'marks-present',
             'threshold %r force %r type %r' % (f, force, arg))
        x.state(w)
  x.check(rest(s) == before, 'others-changed', 'values besides trip_type')
  x.outcome('compared')


# ---- all route types --------------------------------------------------------------
def gen_types(tier):
  for t in sorted(TYPES):
    for arg in sorted(TYPES):
      for form in range(3):
        yield [t, arg, form]


def run_types(x, case):
  t, arg, form = case
  routes = {'R': t, 'Q': (t + 1) % 8}
  trips = [(r, p, None) for r in 'RQ' for p in (0, 0, 1, 2)]
  s = build(routes, trips)
  given = (TYPES[arg], str(arg), arg)[form]
  utf.UnusualTripFilter(0.3, quiet=True, route_type=given).filter(s)
  x.step()
  w = want_marks(routes, trips, Fraction(3, 10), arg, False)
  x.eq(text(marks(s)), w, 'marks-type')
  x.outcome('marked' if '1' in w.values() else 'none')
  x.state((case, w))
  # one route alone
  s = build(routes, trips)
  utf.UnusualTripFilter(0.3, quiet=True).filter_line(s.GetRoute('Q'))
  x.step()
  w = text(marks(s))
  x.eq(sorted(k for k in w if w[k] == '1'), ['T7'], 'marks-line')


# ---- the program ------------------------------------------------------------------
def feed(kind):
  f = feeds.base()
  t = f.tables
  if kind == 'existing':
    t['trips.txt'].add_col(u'trip_type', u'')
  tr, st = t['trips.txt'], t['stop_times.txt']
  tr.rows[:] = []
  st.rows[:] = []
  del t['frequencies.txt']
  # routes of two more types
  r = dict(t['routes.txt'].rows[1])
  r.update(route_id=u'R0', route_short_name=u'T\xe9', route_long_name=u'Tram',
           route_type=u'0')
  t['routes.txt'].rows.append(r)
  stops = {'A': u'S1', 'B': u'S2', 'C': u'S3'}
  n = [0]

  def trip(rid, names, at, tt=u''):
    n[0] += 1
    row = dict((c, u'') for c in tr.cols)
    row.update(route_id=rid, service_id=u'WK' if n[0] % 2 else u'WE',
               trip_id=u'X%d' % n[0], trip_headsign=u'h\xe9ad')
    if kind == 'existing':
      row['trip_type'] = tt
    tr.rows.append(row)
    for j, c in enumerate(names):
      row = dict((c2, u'') for c2 in st.cols)
      tm = u'%02d:%02d:00' % divmod(at + 20 * j, 60)
      row.update(trip_id=u'X%d' % n[0], stop_id=stops[c], arrival_time=tm,
                 departure_time=tm, stop_sequence=u'%d' % (j * 3))
      st.rows.append(row)

  for i in range(10):
    trip(u'R1', 'ABC', 300 + i, (u'', u'1', u'2', u'0')[i % 4])
  trip(u'R1', 'CBA', 400, u'2')
  if kind == 'ten':
    tr.rows.pop(0)
    st.rows[:] = [r2 for r2 in st.rows if r2['trip_id'] != u'X1']
  for i in range(3):
    trip(u'R2', 'AC', 500 + i)
  trip(u'R2', 'ABC', 600, u'1')
  for i in range(2):
    trip(u'R0', 'BC', 700 + i, u'1')
  trip(u'R0', 'BA', 800)
  return f


def gen_program(tier):
  opts = {
      't': [None, '0.25', '0.26', '.5', '1', '0'],
      'r': [None, 'Bus', '3', 'Tram', '0', 'Ferry'],
      'f': [False, True], 'm': [False, True], 'o': [False, True],
      'q': [False, True]}
  for kind in ('plain', 'existing', 'ten'):
    for t in opts['t']:
      for r in opts['r']:
        for f in opts['f']:
          if tier == 'quick':
            for k in range(2):
              i = (opts['t'].index(t) + opts['r'].index(r)) % 2
              yield [kind, t, r, f, bool(k), bool(k ^ i), bool(k ^ i)]
          else:
            for m, o, q in itertools.product((False, True), repeat=3):
              yield [kind, t, r, f, m, o, q]


def run_program(x, case):
  kind, thr, rt, force, mem, out, quiet = case
  f = feed(kind)
  d = tempfile.mkdtemp()
  try:
    src = os.path.join(d, 'in.zip')
    data = f.zip()
    fh = open(src, 'wb')
    fh.write(data)
    fh.close()
    argv = ['unusual_trip_filter.py']
    if thr is not None:
      argv += ['-t', thr] if mem else ['--threshold=' + thr]
    if rt is not None:
      argv += ['-r', rt] if mem else ['--route_type=' + rt]
    if force:
      argv += ['-f'] if mem else ['--override_trip_type']
    if mem:
      argv += ['-m']
    dest = src
    if out:
      dest = os.path.join(d, 'out.zip')
      argv += ['-o', dest] if mem else ['--output=' + dest]
    if quiet:
      argv += ['-q']
    argv += [src]
    old = sys.argv
    sys.argv = argv
    try:
      utf.main()
    finally:
      sys.argv = old
    x.step()
    now = open(src, 'rb').read()
    if out:
      x.check(now == data, 'input-changed', 'the input was written to')
    if not x.check(os.path.exists(dest), 'no-output', repr(os.listdir(d))):
      return
    s, rec = feeds.load(open(dest, 'rb').read())
    x.eq([k for k in rec.keys() if k[2] != 'trip_type'], [],
         'output-problems')
    # what the rows and the options say
    share = Fraction(thr if thr is not None else '0.1')
    only = None if rt is None else (
        int(rt) if rt.isdigit() else
        [k for k, v in TYPES.items() if v == rt][0])
    t = f.tables
    rtype = dict((r['route_id'], int(r['route_type']))
                 for r in t['routes.txt'].rows)
    pat = {}
    for r in t['stop_times.txt'].rows:
      pat.setdefault(r['trip_id'], []).append(r['stop_id'])
    marked = False
    for r in t['trips.txt'].rows:
      rid = r['route_id']
      if only is not None and rtype[rid] != only:
        continue
      mine = [pat[q['trip_id']] for q in t['trips.txt'].rows
              if q['route_id'] == rid]
      low = Fraction(mine.count(pat[r['trip_id']]), len(mine)) < share
      if low:
        r['trip_type'] = u'1'
        marked = True
      elif force:
        r['trip_type'] = u'0'
    if any('trip_type' in r for r in t['trips.txt'].rows):
      if u'trip_type' not in t['trips.txt'].cols:
        t['trips.txt'].cols.append(u'trip_type')
    got, want = feeds.observe(s), feeds.expected(f)
    if got != want:
      x.fail('program-' + feeds.diff_key(got, want),
             '; '.join(feeds.diff(got, want))[:2000])
    x.outcome('marked' if marked else 'none')
    x.state((case, sorted((r['trip_id'], r.get('trip_type', u''))
                          for r in t['trips.txt'].rows)))
  finally:
    shutil.rmtree(d)


SCENARIOS = [
    Scenario('types', gen_types, run_types,
             bound='8 route types x 8 selections in 3 forms'),
    Scenario('many', gen_many, run_many,
             bound='up to 21 trips of one route around the default threshold'),
    Scenario('present', gen_present, run_present,
             bound='up to 3 trips with every trip_type of 5, 5 thresholds, 9 '
             'route type selections, with and without overwriting'),
    Scenario('assign', gen_assign, run_assign,
             bound='all assignments of up to 5 (thorough 6) trips to 2 routes '
             'x 3 (5) stop lists, every threshold at and between all possible '
             'shares, 3 route type selections, both orders of adding'),
    Scenario('program', gen_program, run_program,
             bound='3 feeds x 6 thresholds x 6 route types x options'),
]
