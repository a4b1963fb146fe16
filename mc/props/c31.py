# -*- coding: utf-8 -*-
"""C31: the shape importer gives every trip pattern the best matching line."""
import itertools
import math
import os
import shutil
import tempfile
import types

import prog
from feeds import Feed, T, U, load, observe, expected
from core import Scenario
from props.c20 import vec, metres, length, greedy, shift

PLACE = (47.0, 8.0)
# metres north, east
NODES = {'0': (0, 0), '1': (0, 1000), '2': (900, 1100), '3': (-400, 2000),
         # the same places for another survey
         '4': (105, 10), '5': (70, 1060), '6': (985, 1120)}
STOPS = {'a': (18, 4), 'b': (6, 985), 'c': (880, 1090), 'd': (-400, 1960)}
# name -> places passed; digits are nodes
LINES = {
    '01': ['0', (25, 500), '1'],
    '10': ['1', (-60, 480), '0'],
    '12': ['1', (450, 1080), '2'],
    '02': ['0', (450, 500), '2'],
    '012': ['0', (10, 300), (-3, 1010), (500, 1060), '2'],
    '20': ['2', (400, 380), '0'],
    '210': ['2', (500, 1030), (12, 1015), (-20, 300), '0'],
    '01far': ['0', (-700, 200), (-700, 700), '1'],
    '46': ['4', (90, 500), '5', (500, 1130), '6'],
    '45': ['4', (140, 500), '5'],
    '13': ['1', (-150, 1500), '3'],
}
ORDER = sorted(LINES)
# trip -> route, stops, shape it has
TRIPS = (('T1', 'R1', 'abc', ''), ('T2', 'R1', 'abc', 'shape_2'),
         ('T3', 'R1', 'ab', 'shape_1'), ('T4', 'R2', 'abc', ''),
         ('T5', 'R2', 'cba', 'old'), ('T6', 'R2', 'ac', ''),
         ('T7', 'R1', 'abd', ''), ('T8', 'R1', 'cbac', ''))


def at(o):
  return shift(PLACE, *o)


def line(name):
  return [at(NODES[p] if isinstance(p, str) else p) for p in LINES[name]]


def feed(own_shapes):
  f = Feed()
  t = f.tables
  t['agency.txt'] = T('agency_id,agency_name,agency_url,agency_timezone',
                      ['A', 'Agency', 'http://a.example/', 'Europe/Rome'])
  t['stops.txt'] = T('stop_id,stop_name,stop_lat,stop_lon')
  for k in sorted(STOPS):
    lat, lon = at(STOPS[k])
    t['stops.txt'].rows.append({'stop_id': U(k), 'stop_name': u'Stop ' + U(k),
                                'stop_lat': U('%.6f' % lat),
                                'stop_lon': U('%.6f' % lon)})
  t['routes.txt'] = T('route_id,route_short_name,route_long_name,route_type',
                      ['R1', '1', 'First', '3'], ['R2', '2', 'Second', '3'])
  t['calendar.txt'] = T(
      'service_id,start_date,end_date,monday,tuesday,wednesday,thursday,'
      'friday,saturday,sunday',
      ['W', '20100101', '20301231', '1', '1', '1', '1', '1', '0', '0'],
      ['E', '20100101', '20301231', '0', '0', '0', '0', '0', '1', '1'])
  t['trips.txt'] = T('route_id,service_id,trip_id,shape_id')
  t['stop_times.txt'] = T('trip_id,arrival_time,departure_time,stop_id,'
                          'stop_sequence')
  ids = set()
  for n, (tid, rid, stops, shape) in enumerate(TRIPS):
    shape = shape if own_shapes else ''
    ids.add(shape)
    t['trips.txt'].rows.append({
        'route_id': U(rid), 'service_id': u'WE'[n % 3 == 1], 'trip_id': U(tid),
        'shape_id': U(shape)})
    for i, s in enumerate(stops):
      tm = U('%02d:%02d:00' % (6 + n, 10 * i))
      t['stop_times.txt'].rows.append({
          'trip_id': U(tid), 'arrival_time': tm, 'departure_time': tm,
          'stop_id': U(s), 'stop_sequence': U(str(i + 1))})
  ids.discard('')
  if ids:
    t['shapes.txt'] = T('shape_id,shape_pt_lat,shape_pt_lon,'
                        'shape_pt_sequence')
    for k, i in enumerate(sorted(ids)):
      for j, s in enumerate('abc'):
        lat, lon = at((STOPS[s][0] + k, STOPS[s][1]))
        t['shapes.txt'].rows.append({
            'shape_id': U(i), 'shape_pt_lat': U('%.7f' % lat),
            'shape_pt_lon': U('%.7f' % lon), 'shape_pt_sequence': U(str(j))})
  return f


# ---- a stand-in for the library that reads shape files ------------------------------
class Ogr(types.ModuleType):
  def __init__(self, files):
    types.ModuleType.__init__(self, 'ogr')
    self.files = files

  def Open(self, path):
    return Source(self.files[path])


class Source(object):
  def __init__(self, feats):
    self.feats = feats

  def GetLayer(self, n=0):
    assert n == 0
    return Layer(self.feats)


class Layer(object):
  def __init__(self, feats):
    self.feats = feats

  def __len__(self):
    return len(self.feats)

  def GetFeatureCount(self):
    return len(self.feats)

  def GetFeature(self, i):
    return Feature(*self.feats[i])


class Named(object):
  def __init__(self, name):
    self.name = name

  def GetName(self):
    return self.name


class Feature(object):
  COLS = ('ID', 'NAME', 'KIND')

  def __init__(self, values, pts):
    self.values, self.pts = values, pts

  def GetGeometryRef(self):
    return self

  def GetPointCount(self):
    return len(self.pts)

  def GetX(self, j):
    return self.pts[j][1]

  def GetY(self, j):
    return self.pts[j][0]

  def GetField(self, col):
    if isinstance(col, int):
      return self.values[col]
    if col not in self.COLS:
      raise ValueError('no field %r' % col)
    return self.values[self.COLS.index(col)]

  def GetFieldAsString(self, col):
    return str(self.GetField(col))

  def GetFieldCount(self):
    return len(self.COLS)

  def GetFieldDefnRef(self, j):
    return Named(self.COLS[j])


# ---- the reference -----------------------------------------------------------------------
def best_lines(stops, lines, limit):
  """(status, acceptable lines): status 'tie' when nothing is claimed."""
  q = [vec(p) for p in stops]
  vl = dict((n, [vec(p) for p in lines[n]]) for n in lines)
  ok = [n for n in lines if metres(vl[n][0], q[0]) < limit and
        metres(vl[n][-1], q[-1]) < limit]
  if ok:
    scores = []
    for n in ok:
      g = greedy(q, vl[n])
      if g is None:
        return 'tie', None
      scores.append((g, n))
    low = min(scores)[0]
    if abs(low - limit) < 0.5:
      return 'tie', None
    if low > limit:
      return 'none', None
    return 'line', [lines[n] for g, n in scores if g < low + 1e-2]
  # through the network
  nodes = sorted(set(tuple(lines[n][i]) for n in lines for i in (0, -1)))
  vn = dict((p, vec(p)) for p in nodes)
  near = [[p for p in nodes if metres(vn[p], v) < limit] for v in q]
  if not all(near):
    return 'none', None
  if any(set(a) & set(b) for a, b in zip(near, near[1:])):
    return 'tie', None
  edges = {}
  for n in lines:
    a, b = tuple(lines[n][0]), tuple(lines[n][-1])
    w = length(vl[n])
    edges.setdefault(a, []).append((b, w, lines[n]))
    edges.setdefault(b, []).append((a, w, lines[n][::-1]))

  def shortest(a):
    dist = {a: (0.0, [a], 1)}
    for _ in nodes:
      for p in list(dist):
        for b, w, pts in edges.get(p, ()):
          d = dist[p][0] + w
          if b not in dist or d < dist[b][0] - 1e-6:
            dist[b] = (d, dist[p][1] + list(pts[1:]), dist[p][2])
    return dist
  paths = dict((p, (0.0, [p])) for p in near[0])
  for nxt in near[1:]:
    new = {}
    for p in paths:
      sp = shortest(p)
      for b in nxt:
        if b in sp:
          d = paths[p][0] + sp[b][0]
          if b not in new or d < new[b][0]:
            new[b] = (d, paths[p][1] + sp[b][1][1:])
    paths = new
  if not paths:
    return 'none', None
  d, pts = min(paths.values())
  if sum(1 for v in paths.values() if v[0] < d + 0.5) > 1:
    return 'tie', None
  g = greedy(q, [vec(p) for p in pts])
  if g is None or abs(g - limit) < 0.5:
    return 'tie', None
  return ('none', None) if g > limit else ('path', [pts])


def same_line(got, want):
  """Same points in the same order, repeated points counting once."""
  def squeeze(pts):
    out = []
    for p in pts:
      if not out or metres(vec(out[-1]), vec(p)) > 0.01:
        out.append(p)
    return out
  got, want = squeeze(got), squeeze(want)
  return len(got) == len(want) and all(
      metres(vec(a), vec(b)) < 0.05 for a, b in zip(got, want))


# how the lines are given: number in the first and second file, the rest in
# a shapes.txt
SPLITS = ('one', 'two', 'extra')


def gen_import(tier):
  k = 0
  for n in range(0, 4 if tier == 'quick' else 5):
    for names in itertools.combinations(ORDER, n):
      for limit in (None, 60, 400):
        for split in SPLITS:
          for keys in (None, 'ID', 'KIND,NAME'):
            for own in (0, 1):
              k += 1
              if n <= 1 or tier != 'quick' or k % 11 == 0:
                yield (names, limit, split, keys, own)


# ---- many lines between the same stops ------------------------------------------------
def many(k, best, order):
  """k lines from places near c to places near a, the shortest at best."""
  out = {}
  for i in range(k):
    j = (i - best) % k
    if order:
      j = k - j if j else 0
    out['m%02d' % i] = [at((890 - 7 * i, 1080 + 9 * i)),
                        at((500 + 25 * j + 12, 500 - 21 * j)),
                        at((10 + 6 * i, 9 - 5 * i))]
  return out


def gen_many(tier):
  for k in (1, 2, 9, 10, 11, 12, 14) if tier == 'quick' else range(1, 16):
    for best in range(k):
      for order in (0, 1):
        yield (k, best, order)


def run_many(x, case):
  lines = many(*case)
  run_lines(x, case, sorted(lines), None, 'one', None, 0, lines)


def run_import(x, case):
  names, limit, split, keys, own = case
  run_lines(x, case, names, limit, split, keys, own,
            dict((n, line(n)) for n in names))


def run_lines(x, case, names, limit, split, keys, own, lines):
  f = feed(own)
  d = tempfile.mkdtemp(prefix='mc31-')
  try:
    src, dst = os.path.join(d, 'in.zip'), os.path.join(d, 'out.zip')
    h = open(src, 'wb')
    h.write(f.zip())
    h.close()
    feats = [((100 + k, n, 'K'), lines[n]) for k, n in enumerate(names)]
    extra = []
    if split == 'one':
      files = [feats]
    elif split == 'two':
      files = [feats[:1], feats[1:]]
    else:
      files = [feats[1:]]
      extra = feats[:1]
    ogr_files = dict(('/shp/%d.shp' % i, fs) for i, fs in enumerate(files))
    argv = ['--source_gtfs=' + src, '--dest_gtfs', dst]
    if limit is not None:
      argv.append('--max_distance=%d' % limit)
    if keys is not None:
      argv.append('--keycols=' + keys)
    if extra:
      es = os.path.join(d, 'extra.csv')
      h = open(es, 'wb')
      h.write('shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence\n')
      for (_, n, _), pts in extra:
        for i, p in enumerate(pts):
          h.write('x%s,%r,%r,%d\n' % (n, p[0], p[1], i))
      h.close()
      argv.append('--extra_shapes=' + es)
    code, _ = prog.run('shape_importer.py', argv + sorted(ogr_files),
                       {'ogr': Ogr(ogr_files)})
    x.step()
    if code:
      x.fail('exit', 'exited with %r' % (code,))
      return
    left = sorted(os.listdir(d))
    x.eq(left, sorted(['in.zip', 'out.zip'] + (['extra.csv'] if extra else
                                               [])), 'files', repr(case))
    h = open(dst, 'rb')
    s, rec = load(h.read())
    h.close()
  finally:
    shutil.rmtree(d)
  got = observe(s)
  want = expected(f)
  shapes = dict(got['shapes.txt'])
  for k, pts in want['shapes.txt'].items():
    x.eq(shapes.pop(k, None), pts, 'old-shape-kept', '%r %s' % (case, k))
  used = {}
  for tid, rid, stops, shape in TRIPS:
    st, accept = best_lines([at6(STOPS[c]) for c in stops], lines,
                            150 if limit is None else limit)
    g = got['trips.txt'].get(tid, {}).pop('shape_id', u'')
    o = want['trips.txt'][tid].pop('shape_id', u'')
    used.setdefault((rid, stops), set()).add(g if st in ('line', 'path')
                                             else None)
    x.step()
    x.outcome(st)
    if st == 'none':
      x.eq(g, o, 'no-match-unchanged', '%r %s' % (case, tid))
      used.setdefault('old', set()).add(g)
    elif st in ('line', 'path'):
      x.check(g in shapes, 'no-new-shape', lambda: '%r %s has %r, new %r' % (
          case, tid, g, sorted(shapes)))
      if g in shapes:
        pts = [p[:2] for p in shapes[g]]
        x.check(any(same_line(pts, a) for a in accept), 'wrong-line',
                lambda: '%r %s: %r, want one of %r' % (case, tid, pts,
                                                       accept))
    else:
      used.setdefault('old', set()).add(g)
  for k in used:
    if k != 'old':
      x.eq(len(used[k]), 1, 'pattern-shares', '%r %r' % (case, k))
  for part in ('agency.txt', 'stops.txt', 'routes.txt', 'calendar',
               'stop_times.txt', 'trips.txt', 'fare_attributes.txt'):
    x.eq(got[part], want[part], 'feed-changed', '%r %s' % (case, part))
  allused = set(u for v in used.values() for u in v)
  x.check(set(shapes) <= allused, 'stray-shape',
          lambda: '%r: %r' % (case, sorted(set(shapes) - allused)))
  x.state(sorted((t, sorted(str(v) for v in used.get((r, s), ())))
                 for t, r, s, _ in TRIPS) + [names])


def at6(o):
  lat, lon = at(o)
  return (float('%.6f' % lat), float('%.6f' % lon))


SCENARIOS = [
    Scenario('many', gen_many, run_many,
             bound='up to 14 lines between the same stops, the shortest at '
                   'any place'),
    Scenario('import', gen_import, run_import,
             bound='all sets of up to 3 (4) of 11 lines x 3 distances x 3 '
                   'ways of giving them x 3 key settings x feeds with and '
                   'without shapes (quick: sets of two and three with every '
                   'eleventh variation), 8 trips in 7 patterns each'),
]
