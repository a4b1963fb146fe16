# -*- coding: utf-8 -*-
"""C19: stop and transfer geography is validated exactly at the thresholds.

Small sets of stops and stations with all kinds, parents and displacements on
both sides of every threshold are enumerated at places all over the globe,
validated by the real schedule, and the geographic problems compared with a
pairwise definition that measures distances as angles between vectors."""
import itertools
import math

import transitfeed
from core import Scenario
from feeds import base, load, reporter, text, T, U

R = 6378135.0   # the radius that the library documents
PLACES = [(36.1, -116.1), (0.0, 10.0), (10.0, 0.0), (0.0, 0.0),
          (-33.5, 151.2), (60.0, 180.0), (89.9, 20.0), (-0.000009, 20.0),
          (51.5, -0.000005)]


def vec(lat, lon):
  a, b = math.radians(lat), math.radians(lon)
  return (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))


def dist(p, q):
  u, v = vec(*p), vec(*q)
  chord = math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
  return R * 2 * math.asin(min(1.0, chord / 2))


def at(place, north, east):
  """The point that many metres north and east of a place."""
  lat = place[0] + math.degrees(north / R)
  lon = place[1] + math.degrees(east / (R * math.cos(math.radians(place[0]))))
  if lon > 180:
    lon -= 360
  elif lon < -180:
    lon += 360
  return lat, lon


GEO = ('StopsTooClose', 'StationsTooClose', 'DifferentStationTooClose',
       'StopTooFarFromParentStation', 'UnusedStop', 'UsedStation')


class Edge(Exception):
  """A distance is too near to a threshold to be decided."""


def over(d, limit):
  if abs(d - limit) < limit * 1e-4:
    raise Edge()
  return d > limit


def model(nodes):
  """nodes: id -> (type, (lat, lon) or None, parent, visits)."""
  out = []
  ids = sorted(nodes)
  for i in ids:
    typ, p, parent, visits = nodes[i]
    if typ == 0 and not visits:
      out.append(('UnusedStop', 'W', frozenset([i]), None))
    if typ == 1 and visits:
      out.append(('UsedStation', 'E', frozenset([i]), None))
    if typ != 1 and parent in nodes and nodes[parent][0] == 1 and p and \
        nodes[parent][1]:
      d = dist(p, nodes[parent][1])
      if over(d, 1000):
        out.append(('StopTooFarFromParentStation', 'E',
                    frozenset([i, parent]), d))
      elif over(d, 100):
        out.append(('StopTooFarFromParentStation', 'W',
                    frozenset([i, parent]), d))
  for i, j in itertools.combinations(ids, 2):
    (ti, p, pi, _), (tj, q, pj, _) = nodes[i], nodes[j]
    if not p or not q or ti not in (0, 1) or tj not in (0, 1):
      continue
    d = dist(p, q)
    if over(d, 2):
      continue
    if ti == tj:
      out.append(('StopsTooClose' if ti == 0 else 'StationsTooClose', 'W',
                  frozenset([i, j]), d))
    elif (pi if ti == 0 else pj) != (j if ti == 0 else i):
      out.append(('DifferentStationTooClose', 'W', frozenset([i, j]), d))
  return sorted(out, key=repr)


IDS = {'StopsTooClose': ('stop_id_a', 'stop_id_b'),
       'StationsTooClose': ('stop_id_a', 'stop_id_b'),
       'DifferentStationTooClose': ('stop_id', 'station_stop_id'),
       'StopTooFarFromParentStation': ('stop_id', 'parent_stop_id'),
       'UnusedStop': ('stop_id',), 'UsedStation': ('stop_id',)}


def geo(problems):
  out = []
  for e in problems:
    n = e.__class__.__name__
    if n in GEO:
      t = 'E' if e.IsError() else 'W' if e.IsWarning() else 'N'
      out.append((n, t, frozenset(text(getattr(e, a)) for a in IDS[n]),
                  getattr(e, 'distance', None)))
  return sorted(out, key=repr)


def compare(x, nodes, problems):
  want = model(nodes)
  got = geo(problems)
  key = lambda v: [q[:3] for q in v]
  a, b = sorted(key(got)), sorted(key(want))
  if a != b:
    extra = [q for q in a if a.count(q) > b.count(q)]
    lost = [q for q in b if b.count(q) > a.count(q)]
    what = (extra + lost)[0]
    x.fail('%s:%s' % ('extra' if extra else 'missing', what[0]),
           'reported %r, expected %r' % (a, b))
    return
  left = list(got)
  for w in want:
    ok = False
    for g in left:
      if g[:3] == w[:3] and (w[3] is None or (
          g[3] is not None and abs(g[3] - w[3]) < 1e-3 + 1e-5 * w[3])):
        left.remove(g)
        ok = True
        break
    if not ok:
      x.fail('distance:%s' % w[0], 'reported %r, expected %r' % (got, want))
      break
  x.state(b)
  x.outcome(','.join(sorted(set(q[0] for q in b))) or 'nothing')


def build(nodes, order=None):
  s = transitfeed.Schedule(memory_db=True, problem_reporter=reporter()[0])
  for i in order or sorted(nodes):
    typ, p, parent, visits = nodes[i]
    d = {'stop_id': i, 'stop_name': 'Name of ' + i}
    if p:
      d.update(stop_lat=repr(p[0]), stop_lon=repr(p[1]))
    if typ is not None:
      d['location_type'] = str(typ)
    if parent:
      d['parent_station'] = parent
    stop = transitfeed.Stop(field_dict=d)
    stop.Validate(reporter()[0])     # as the loader does
    s.AddStopObject(stop)
  return s


def visit(s, nodes):
  s.AddAgency('A', 'http://a.example/', 'America/Los_Angeles')
  sp = s.GetDefaultServicePeriod()
  sp.SetWeekdayService(True)
  sp.SetStartDate('20100101')
  sp.SetEndDate('20101231')
  r = s.AddRoute('1', 'Long', 'Bus')
  todo = [i for i in sorted(nodes) for _ in range(nodes[i][3])]
  pr = reporter()[0]
  while todo:
    t = r.AddTrip(s, 'x', sp)
    for k, i in enumerate(todo[:2]):
      t.AddStopTime(s.GetStop(i), stop_time='08:%02d:00' % k, schedule=s,
                    problems=pr)
    todo = todo[2:]


def validate(x, nodes, order=None):
  s = build(nodes, order)
  if any(n[3] for n in nodes.values()):
    visit(s, nodes)
  pr, rec = reporter()
  s.Validate(pr)
  x.step()
  try:
    compare(x, nodes, rec.problems)
  except Edge:
    x.outcome('on a threshold')


# --- nearby ------------------------------------------------------------------
# kinds: stop, station, child of the first station of the set, child of a
# far station, entrance
KINDS = 'sSco'
OFFS = [(0, 0), (1.9, 0), (2.1, 0), (0, 1.9), (0, -2.1), (-1.9, 0), (1.3, 1.3),
        (1.5, -1.5)]


def gen_near(tier):
  for pl in range(len(PLACES)):
    for ks in itertools.product(KINDS, repeat=2):
      for o in OFFS:
        yield (pl, ks, (o,), 'n')
    # three in a row, a cluster and a chain
    threes = [((1.9, 0), (-1.9, 0)), ((0, 1.9), (0, 3.8)), ((1, 0), (0, 1)),
              ((0, 0), (0, 0)), ((1.9, 0), (3.8, 0.5)), ((0.5, 5), (-0.5, 0))]
    for ks in itertools.product(KINDS if tier != 'quick' else 'sSc',
                                repeat=3):
      for o in threes:
        for way in 'nr' if tier != 'quick' or pl < 2 else 'n':
          yield (pl, ks, o, way)
  for pl in (0, 1) if tier == 'quick' else range(len(PLACES)):
    for ks in itertools.product('sSc', repeat=4):
      yield (pl, ks, ((1.2, 0), (2.4, 0), (3.6, 0)), 'n')
      yield (pl, ks, ((0, 1.2), (0.4, -1.2), (1, 30)), 'r')


def run_near(x, case):
  pl, ks, offs, way = case
  place = PLACES[pl]
  # numbered against the geographic order when way is 'r'
  names = ['N%d' % (i if way == 'n' else 9 - i) for i in range(len(ks))]
  first = [n for n, k in zip(names, ks) if k == 'S']
  nodes = {}
  for n, k, o in zip(names, ks, ((0, 0),) + tuple(offs)):
    parent = (first[0] if k == 'c' and first else 'FAR' if k in 'co' else None)
    nodes[n] = (1 if k == 'S' else 0, at(place, *o), parent, 0)
  nodes['FAR'] = (1, at(place, -30, 30), None, 0)
  validate(x, nodes, sorted(nodes) if way == 'n' else
           sorted(nodes, reverse=True))


# --- parents -----------------------------------------------------------------
def gen_parent(tier):
  ds = [0, 1.9, 99.9, 100.1, 500, 999, 1001, 5000, 500000]
  for pl in range(len(PLACES)):
    for d in ds:
      for way in ((1, 0), (0, 1), (-0.6, 0.8), (0, -1)):
        for typ in (0, 1, 2, None):
          for ptyp in (0, 1, None, 'missing', 'nowhere'):
            if tier == 'quick' and ptyp != 1 and (d not in (0, 5000) or
                                                  way != (1, 0)):
              continue
            yield (pl, d, way, typ, ptyp)


def run_parent(x, case):
  pl, d, way, typ, ptyp = case
  place = PLACES[pl]
  nodes = {'C': (typ, at(place, way[0] * d, way[1] * d), 'P', 0)}
  if ptyp == 'nowhere':
    nodes['P'] = (1, None, None, 0)
  elif ptyp != 'missing':
    nodes['P'] = (ptyp, place, None, 0)
  # location_type blank means stop
  real = dict((k, (v[0] or 0,) + v[1:]) for k, v in nodes.items())
  s = build(nodes)
  pr, rec = reporter()
  s.Validate(pr)
  x.step()
  try:
    compare(x, real, rec.problems)
  except Edge:
    x.outcome('on a threshold')


# --- visits ------------------------------------------------------------------
def gen_visits(tier):
  k = 3 if tier == 'quick' else 4
  opts = [(t, p, v) for t in (0, 1) for p in (0, 1) for v in (0, 1, 3)]
  for c in itertools.product(opts, repeat=k):
    if tier == 'quick' and sum(1 for o in c if o[1]) > 1:
      continue
    yield c


def run_visits(x, case):
  nodes = {'Q': (1, (36.0, -116.0), None, 0)}
  for i, (t, p, v) in enumerate(case):
    nodes['N%d' % i] = (t, (36.0 + 0.0001 * (i + 1), -116.0),
                        'Q' if p and t == 0 else None, v)
  validate(x, nodes)


# --- transfers ---------------------------------------------------------------
TDIST = [0, 1, 100, 239, 241, 400, 1000, 1999, 2001, 5000, 9990, 10010, 200000]


def gen_transfers(tier):
  for pl in range(len(PLACES)):
    for d in TDIST:
      limit = d / 2.0 - 120
      times = set([None, 0, 1, 600, 10000])
      if limit > -1:
        times |= set(int(limit) + k for k in (-30, -1, 0, 1, 2, 30)
                     if int(limit) + k >= 0)
      for t in sorted(times, key=lambda v: -1 if v is None else v):
        for way in ((1, 0), (0, 1)) if tier == 'quick' else (
            (1, 0), (0, 1), (-1, 0), (0, -1), (0.6, -0.8)):
          for place in ('api', 'load') if pl == 0 or tier != 'quick' else (
              'api',):
            yield (pl, d, t, way, place)
  for t in (10800, 86399):
    yield (0, 5000, t, (1, 0), 'api')


def run_transfers(x, case):
  pl, d, t, way, how = case
  p = PLACES[pl]
  q = at(p, way[0] * d, way[1] * d)
  real = dist(p, q)
  want = []
  try:
    if over(real, 10000):
      want.append(('TransferDistanceTooBig', 'E'))
    elif over(real, 2000):
      want.append(('TransferDistanceTooBig', 'W'))
    if t is not None and t >= 0:
      if abs((t + 120) * 2 - real) < 0.01:
        raise Edge()
      if (t + 120) * 2 < real:
        want.append(('TransferWalkingSpeedTooFast', 'W'))
  except Edge:
    x.outcome('on a threshold')
    return
  if how == 'api':
    s = build({'A': (0, p, None, 0), 'B': (0, q, None, 0)})
    f = {'from_stop_id': 'A', 'to_stop_id': 'B', 'transfer_type': '2'}
    if t is not None:
      f['min_transfer_time'] = str(t)
    tr = transitfeed.Transfer(field_dict=f)
    s.AddTransferObject(tr)
    pr, rec = reporter()
    tr.Validate(pr)
    probs = rec.problems
  else:
    f = base()
    f['transfers.txt'].rows = []
    for i, (sid, pt) in enumerate((('A', p), ('B', q))):
      r = dict((c, u'') for c in f['stops.txt'].cols)
      r.update(stop_id=U(sid), stop_name=U('Name ' + sid),
               stop_lat=U(repr(pt[0])), stop_lon=U(repr(pt[1])))
      f['stops.txt'].rows.append(r)
    f['transfers.txt'].rows.append(
        {'from_stop_id': u'A', 'to_stop_id': u'B', 'transfer_type': u'2',
         'min_transfer_time': u'' if t is None else text(t)})
    s, rec = load(f, extra_validation=True)
    probs = rec.problems
  x.step()
  got = []
  for e in probs:
    n = e.__class__.__name__
    if n.startswith('Transfer'):
      got.append((n, 'E' if e.IsError() else 'W'))
      x.eq((text(e.from_stop_id), text(e.to_stop_id)), (u'A', u'B'),
           'transfer-ids', n)
      x.check(abs(e.distance - real) < 1e-3 + 1e-5 * real,
              'transfer-distance', 'reported %r, is %r' % (e.distance, real))
      if n == 'TransferWalkingSpeedTooFast':
        x.eq(e.transfer_time, t, 'transfer-time', n)
  g, w = sorted(got), sorted(want)
  if g != w:
    x.fail('transfer:' + ','.join(sorted(set(v[0] for v in
                                             set(g) ^ set(w)))) or 'count',
           'reported %r, expected %r (distance %.2f)' % (g, w, real))
  x.state((w, how))
  x.outcome(','.join(v[0] + v[1] for v in w) or 'nothing')


# --- everything through a loaded feed -----------------------------------------
def gen_load(tier):
  n = len(FACTS)
  for k in range(0, (3 if tier == 'quick' else n) + 1):
    for c in itertools.combinations(range(n), k):
      for pl in (0, 1, 2) if k < 3 else (1,):
        yield (pl, c)


FACTS = [
    ('twin stop', lambda p: ('X1', 0, at(p, 0.5, 0.5), None)),
    ('twin station', lambda p: ('X2', 1, at(p, 300.5, 0), None)),
    ('stop at station', lambda p: ('X3', 0, at(p, 299, 0), None)),
    ('child at station', lambda p: ('X4', 0, at(p, 301.2, 0), 'ST')),
    ('far child', lambda p: ('X5', 0, at(p, 300, 1200), 'ST')),
    ('middling child', lambda p: ('X6', 0, at(p, 300, 200), 'ST')),
    ('twin of middling', lambda p: ('X7', 0, at(p, 300.7, 201), 'ST')),
    ('entrance', lambda p: ('X8', 2, at(p, 300, 300), 'ST')),
    ('visited station', None),
    ('visited twin', None),
]


def run_load(x, case):
  pl, facts = case
  p = PLACES[pl]
  nodes = {'S1': (0, at(p, 0, 0), None, 3), 'S2': (0, at(p, 100, 0), None, 3),
           'S3': (0, at(p, 200, 0), None, 1), 'ST': (1, at(p, 300, 0), None,
                                                     0)}
  names = [FACTS[i][0] for i in facts]
  for i in facts:
    if FACTS[i][1]:
      n, typ, pos, parent = FACTS[i][1](p)
      nodes[n] = (typ, pos, parent, 0)
  f = base()
  for n in ('shapes.txt', 'transfers.txt', 'fare_rules.txt',
            'frequencies.txt'):
    del f.tables[n]
  for r in f['trips.txt'].rows:
    r['shape_id'] = u''
  st = f['stop_times.txt']
  for r in st.rows:
    r['shape_dist_traveled'] = u''
  rows = st.rows
  order = ['S1', 'S2', 'S3', 'S1', 'S2', 'S2', 'S1']
  for r, sid in zip(rows, order):
    r['stop_id'] = U(sid)
  if 'visited station' in names:
    rows[2]['stop_id'] = u'ST'
    nodes['ST'] = nodes['ST'][:3] + (1,)
    nodes['S3'] = nodes['S3'][:3] + (0,)
  if 'visited twin' in names and 'X1' in nodes:
    rows[4]['stop_id'] = u'X1'
    nodes['X1'] = nodes['X1'][:3] + (1,)
  t = f['stops.txt']
  t.rows = []
  for n in sorted(nodes):
    typ, pos, parent, v = nodes[n]
    r = dict((c, u'') for c in t.cols)
    r.update(stop_id=U(n), stop_name=U('Name ' + n), stop_lat=U(repr(pos[0])),
             stop_lon=U(repr(pos[1])), location_type=text(typ),
             parent_station=U(parent or ''))
    t.rows.append(r)
  s, rec = load(f, extra_validation=True)
  x.step()
  try:
    compare(x, nodes, rec.problems)
  except Edge:
    x.outcome('on a threshold')


SCENARIOS = [
    Scenario('near', gen_near, run_near,
             bound='2 to 4 stops and stations of 4 kinds at 9 places, '
                   'displaced by under and over two metres'),
    Scenario('parent', gen_parent, run_parent,
             bound='9 distances, 4 directions, 9 places, 4 kinds of child, 5 '
                   'of parent'),
    Scenario('visits', gen_visits, run_visits,
             bound='3 (thorough 4) stops and stations visited 0, 1 or 3 '
                   'times'),
    Scenario('transfers', gen_transfers, run_transfers,
             bound='13 distances at 9 places with the transfer times around '
                   'the limit'),
    Scenario('load', gen_load, run_load,
             bound='all combinations of at most 3 (thorough 10) of 10 facts '
                   'in a loaded feed'),
]
