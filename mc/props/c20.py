# -*- coding: utf-8 -*-
"""C20: shape library results are geometrically correct and optimal.

All polylines over small grids at several places, and all graphs over four
nodes whose edges are straight, roundabout, doubled or absent, are enumerated;
results are compared with independent geometry (segment distance by dot
products, shortest paths by relaxation over all edges)."""
import itertools
import math

from core import Scenario
from transitfeed import shapelib
from transitfeed.shapelib import Point, Poly, PolyGraph, PolyCollection

R = 6371010.0
M = math.degrees(1 / R)


def vec(ll):
  a, b = math.radians(ll[0]), math.radians(ll[1])
  return (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))


def xyz(p):
  return (p.x, p.y, p.z)


def dot(u, v):
  return sum(a * b for a, b in zip(u, v))


def sub(u, v):
  return tuple(a - b for a, b in zip(u, v))


def norm(u):
  return math.sqrt(dot(u, u))


def metres(u, v):
  return R * 2 * math.asin(min(1.0, norm(sub(u, v)) / 2))


def cross(u, v):
  return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
          u[0] * v[1] - u[1] * v[0])


def seg_dist(p, a, b):
  """Metres from p to the great circle segment ab (vectors)."""
  best = min(metres(p, a), metres(p, b))
  n = cross(a, b)
  if norm(n) < 1e-13:
    return best
  n = tuple(c / norm(n) for c in n)
  d = dot(p, n)
  f = sub(p, tuple(c * d for c in n))
  if norm(f) < 1e-9:
    return best
  f = tuple(c / norm(f) for c in f)
  # the foot of the perpendicular lies between a and b
  if dot(cross(a, f), n) >= 0 and dot(cross(f, b), n) >= 0:
    best = min(best, metres(p, f))
  return best


def poly_dist(p, pts):
  if len(pts) == 1:
    return metres(p, pts[0])
  return min(seg_dist(p, a, b) for a, b in zip(pts, pts[1:]))


def length(pts):
  return sum(metres(a, b) for a, b in zip(pts, pts[1:]))


def P(ll):
  return Point.FromLatLng(*ll)


def near(a, b, tol=1e-3):
  return abs(a - b) <= tol


PLACES = [(36.1, -116.1), (0.0, 0.0), (60.0, 180.0), (-89.0, 45.0),
          (12.0, -0.0002)]


def shift(place, north, east):
  lat = place[0] + north * M
  lon = place[1] + east * M / math.cos(math.radians(place[0]))
  return (lat, lon)


# --- latitude and longitude ---------------------------------------------------
LATS = [-90, -89.999999, -60.5, -33.3333333, -0.000001, 0, 0.000001, 45,
        67.123456789, 89.9999, 90]
LONS = [-180, -179.999999, -116.1, -90, -0.000001, 0, 1e-7, 45.5, 90,
        151.2, 179.999999, 180]


def gen_latlng(tier):
  pts = [(a, o) for a in LATS for o in LONS]
  for p in pts:
    yield (p, None)
  step = 5 if tier == 'quick' else 1
  for i, p in enumerate(pts):
    for q in pts[i % step::step]:
      yield (p, q)


def run_latlng(x, case):
  p, q = case
  a = P(p)
  if q is None:
    x.check(a.IsUnitLength(), 'unit', repr(p))
    lat, lng = a.ToLatLng()
    x.step(2)
    x.check(near(lat, p[0], 1e-9), 'lat', '%r came back as %r' % (p, lat))
    if abs(p[0]) < 90:
      d = abs(lng - p[1])
      x.check(min(d, abs(d - 360)) < 1e-7, 'lng',
              '%r came back as %r' % (p, lng))
    x.check(metres(xyz(a), vec(p)) < 1e-3, 'vector', repr(p))
    x.state(p)
    x.outcome('there and back')
    return
  b = P(q)
  got = a.GetDistanceMeters(b)
  x.step()
  x.check(near(got, metres(vec(p), vec(q)), 0.2), 'distance',
          '%r to %r: %r' % (p, q, got))
  x.check(got == b.GetDistanceMeters(a), 'symmetric', repr(case))
  x.state(round(got, 1))
  x.outcome('distance')


# --- closest points and cuts ---------------------------------------------------
GRID = [(0, 0), (0, 100), (90, 10), (110, 120), (-40, 60), (30, -70)]
QUERY = [(0, 0), (0, 50), (1, 50), (0, 130), (60, 40), (200, 200), (-300, 0),
         (50, -10), (45, 60), (10, 100), (90, 10)]


def gen_closest(tier):
  for pl in range(len(PLACES)):
    for scale in (1, 3000):
      if scale != 1 and pl == 3:
        continue
      for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for w in itertools.product(range(len(GRID)), repeat=n):
          if tier == 'quick' and n == 3 and (w[0] > w[2] or pl in (2, 4)):
            continue
          yield (pl, scale, w)
  # long lines that come back after going away
  for n, k in ((6, 3), (7, 3)) if tier == 'quick' else ((6, 4), (7, 4),
                                                        (8, 3)):
    for w in itertools.product((0, 3, 4, 2)[:k], repeat=n):
      if tier == 'quick' and n == 7 and w[0]:
        continue
      yield (0, 1, w)


def run_closest(x, case):
  pl, scale, w = case
  place = PLACES[pl]
  lls = [shift(place, GRID[i][0] * scale, GRID[i][1] * scale) for i in w]
  pts = [P(ll) for ll in lls]
  raw = [xyz(p) for p in pts]
  tol = 1e-3 * scale ** 0.5
  poly = Poly(list(pts), 'poly')
  x.check(near(poly.LengthMeters(), length(raw), tol), 'length',
          'LengthMeters %r, is %r' % (poly.LengthMeters(), length(raw)))
  rev = poly.Reversed()
  x.check([xyz(p) for p in rev.GetPoints()] == raw[::-1] and
          rev.GetName() == 'poly', 'reversed', str(rev))
  for qi in QUERY:
    q = P(shift(place, qi[0] * scale, qi[1] * scale))
    u = xyz(q)
    c, i = poly.GetClosestPoint(q)
    x.step()
    best = poly_dist(u, raw)
    if not x.check(near(metres(xyz(c), u), best, tol), 'closest',
                   'closest to %r is %r m away, minimum %r' % (
                       qi, metres(xyz(c), u), best)):
      continue
    x.check(c.IsUnitLength(), 'closest-unit', repr(qi))
    ok = (0 <= i < len(raw) and
          near(poly_dist(xyz(c), raw[i:i + 2]), 0, tol))
    x.check(ok, 'closest-index', '%r is not on segment %d' % (qi, i))
    first, second = poly.CutAtClosestPoint(q)
    x.step()
    f = [xyz(p) for p in first.GetPoints()]
    s = [xyz(p) for p in second.GetPoints()]
    if not x.check(s and near(metres(s[0], u), best, tol), 'cut-point',
                   'second piece does not start at the closest point'):
      continue
    k = len(f)
    whole = f + s
    x.check(f == raw[:k] and s[1:] == raw[k:], 'cut-points',
            'pieces %r %r of %r' % (f, s, raw))
    x.check(near(length(whole), length(raw), 3 * tol), 'cut-length',
            'pieces measure %r, polyline %r' % (length(whole), length(raw)))
    if len(w) == 2:
      g = shapelib.GetClosestPoint(q, pts[0], pts[1])
      x.check(near(metres(xyz(g), u), best, tol), 'segment',
              'GetClosestPoint %r' % (qi,))
  x.state((pl, scale, w))
  x.outcome('%d points' % len(w))


# --- greedy matching -----------------------------------------------------------
def gen_greedy(tier):
  for pl in (0, 2):
    for n, m in ((1, 2), (2, 2), (2, 3), (3, 2)):
      for a in itertools.permutations(range(len(GRID)), n):
        for b in itertools.permutations(range(len(GRID)), m):
          if tier == 'quick' and pl and n + m > 4:
            continue
          yield (pl, a, b)


def greedy(pts, shape):
  """None when a choice between equally close points decides the result."""
  worst = 0
  cur = list(shape)
  for p in pts:
    ds = [(seg_dist(p, a, b), i) for i, (a, b) in
          enumerate(zip(cur, cur[1:]))] or [(metres(p, cur[0]), 0)]
    d, i = min(ds)
    same = [k for e, k in ds if e < d + 1e-4]
    worst = max(worst, d)
    # the closest point itself
    if len(cur) == 1:
      continue
    a, b = cur[i], cur[i + 1]
    best = None
    n = cross(a, b)
    n = tuple(c / norm(n) for c in n) if norm(n) > 1e-13 else None
    if n:
      h = dot(p, n)
      f = sub(p, tuple(c * h for c in n))
      f = tuple(c / norm(f) for c in f)
      if dot(cross(a, f), n) >= 0 and dot(cross(f, b), n) >= 0:
        best = f
    if best is None:
      best = a if metres(p, a) <= metres(p, b) else b
    for k in same:
      if k != i and (k != i + 1 or metres(best, b) > 1e-3):
        return None
    cur = [best] + cur[i + 1:]
  return worst


def run_greedy(x, case):
  pl, a, b = case
  ll = lambda i: shift(PLACES[pl], GRID[i][0] + 0.3 * i, GRID[i][1] - 0.7 * i)
  pa = [P(ll(i)) for i in a]
  pb = [P((ll(i)[0] + 3e-6 * (i + 1), ll(i)[1])) for i in b]
  got = Poly(pa).GreedyPolyMatchDist(Poly(pb))
  x.step()
  want = greedy([xyz(p) for p in pa], [xyz(p) for p in pb])
  if want is None:
    x.outcome('tie')
    return
  x.check(near(got, want, 0.01), 'greedy', 'got %r, expected %r' % (got, want))
  x.state(round(want, 2))
  x.outcome('matched')


# --- joining polylines ------------------------------------------------------------
MP = [(0, 0), (0, 5), (0, 50), (400, 0)]


def gen_merge(tier):
  polys = [w for n in (0, 1, 2) for w in itertools.product(range(4), repeat=n)]
  for k in (0, 1, 2, 3):
    for ps in itertools.product(polys, repeat=k):
      if tier == 'quick' and k == 3 and (len(ps[0]) == 1 or
                                         ps[0][:1] > (1,)):
        continue
      for th in (None, 0, 48) if k < 3 else (None, 0):
        yield (ps, th)


def run_merge(x, case):
  ps, th = case
  pts = [P(shift(PLACES[0], *o)) for o in MP]
  polys = [Poly([pts[i] for i in w], None if len(w) == 1 else 'p%d' % k)
           for k, w in enumerate(ps)]
  before = [list(p.GetPoints()) for p in polys]
  m = Poly.MergePolys(polys) if th is None else Poly.MergePolys(
      polys, merge_point_threshold=th)
  x.step()
  limit = 10 if th is None else th
  want = []
  for k, w in enumerate(ps):
    w = list(w)
    if k and want and w and metres(vec(shift(PLACES[0], *MP[want[-1]])), vec(
        shift(PLACES[0], *MP[w[0]]))) <= limit:
      w = w[1:]
    want += w
  got = [pts.index(p) if p in pts else None for p in m.GetPoints()]
  x.eq(got, want, 'points', 'joined points')
  x.eq(m.GetName(), ';'.join('' if len(w) == 1 else 'p%d' % k
                             for k, w in enumerate(ps)), 'name', 'name')
  x.check([p.GetPoints() for p in polys] == before, 'changed',
          'joining changed a part')
  x.state(want)
  x.outcome('%d points' % len(want))


# --- shortest paths -----------------------------------------------------------------
NODES = [(0, 0), (0, 1000), (700, 300), (760, 1290), (-500, 600)]
# edges absent, straight, roundabout (backwards), both
KINDS = 4


def mid(i, j):
  """A point that makes the way from i to j longer, differently for each."""
  (a, b), (c, d) = NODES[i], NODES[j]
  return ((a + c) / 2.0 + 137 * (i + 2) * (j + 1), (b + d) / 2.0 - 91 * (j + 3))


def gen_graph(tier):
  edges = list(itertools.combinations(range(4), 2))
  for kinds in itertools.product(range(KINDS), repeat=len(edges)):
    yield (4, kinds, 0)
  # one long edge that a chain of short ones beats, and five nodes
  edges = list(itertools.combinations(range(5), 2))
  for absent in itertools.combinations(range(len(edges)), 3):
    for far in itertools.combinations(range(len(edges)), 2 if tier == 'quick'
                                      else 4):
      if set(far) & set(absent):
        continue
      k = [1] * len(edges)
      for e in absent:
        k[e] = 0
      for e in far:
        k[e] = 2
      yield (5, tuple(k), 1)


def make_graph(n, kinds, place):
  g = PolyGraph()
  pts = [P(shift(PLACES[place], *NODES[i])) for i in range(n)]
  parts = []   # (i, j, [points])
  for (i, j), k in zip(itertools.combinations(range(n), 2), kinds):
    m = P(shift(PLACES[place], *mid(i, j)))
    if k in (1, 3):
      parts.append((i, j, [pts[i], pts[j]]))
    if k in (2, 3):
      parts.append((j, i, [pts[j], m, pts[i]]))
  for q, (i, j, ps) in enumerate(parts):
    g.AddPoly(Poly(ps, 'e%d' % q))
  return g, pts, parts


def distances(n, parts):
  d = [[0 if i == j else float('inf') for j in range(n)] for i in range(n)]
  for i, j, ps in parts:
    v = length([xyz(p) for p in ps])
    d[i][j] = d[j][i] = min(d[i][j], v)
  for k in range(n):
    for i in range(n):
      for j in range(n):
        d[i][j] = min(d[i][j], d[i][k] + d[k][j])
  return d


def is_walk(pts, parts, got, start, goal):
  """got runs from start to goal along whole edges."""
  where = set([(start, 0)])
  todo = list(where)
  while todo:
    node, k = todo.pop()
    if node == goal and k == len(got) - 1:
      return True
    for i, j, ps in parts:
      for a, b, line in ((i, j, ps), (j, i, ps[::-1])):
        if a == node and [xyz(p) for p in got[k:k + len(line)]] == \
            [xyz(p) for p in line]:
          s = (b, k + len(line) - 1)
          if s not in where:
            where.add(s)
            todo.append(s)
  return False


def run_graph(x, case):
  n, kinds, place = case
  g, pts, parts = make_graph(n, kinds, place)
  d = distances(n, parts)
  x.eq(g.NumPolys(), len(parts), 'count', 'polylines in the collection')
  used = [i for i in range(n) if any(i in q[:2] for q in parts)]
  sig = []
  for i in used:
    for j in used:
      p = g.ShortestPath(pts[i], pts[j])
      x.step()
      if i == j:
        x.check(p is not None and (p.GetNumPoints() == 0 or near(
            p.LengthMeters(), 0)), 'same', 'path from a point to itself')
        continue
      if d[i][j] == float('inf'):
        x.check(p is None, 'unreachable', '%d to %d: %s' % (i, j, p))
        continue
      if not x.check(p is not None, 'not-found', '%d to %d' % (i, j)):
        continue
      x.check(near(p.LengthMeters(), d[i][j], 1e-2), 'not-shortest',
              '%d to %d: %.3f m, shortest %.3f m' % (
                  i, j, p.LengthMeters(), d[i][j]))
      x.check(is_walk(pts, parts, p.GetPoints(), i, j), 'not-a-path',
              '%d to %d: %s' % (i, j, p.GetName()))
      sig.append(round(d[i][j]))
  x.state(sig)
  x.outcome('edges %d' % len(parts))


# --- several points -----------------------------------------------------------------
MN = [(0, 0), (60, 80), (0, 1000), (90, 1060), (900, 500), (850, 560),
      (1500, 1500)]
ME = [(0, 2), (1, 3), (2, 4), (3, 5), (0, 4), (1, 2), (5, 6), (4, 6), (3, 6),
      (0, 1), (2, 3)]
MQ = [(10, 20), (40, 1010), (880, 520), (1490, 1490), (5000, 5000)]


def gen_multi(tier):
  seqs = [s for n in (2, 3, 4) for s in itertools.product(range(4), repeat=n)]
  seqs += [(0, 4), (4, 0), (0, 1, 4)]
  for drop in [()] + [(e,) for e in range(len(ME))] + list(
      itertools.combinations(range(len(ME)), 2)):
    for s in seqs:
      if tier == 'quick' and (len(s) == 4 and (s[0] or drop and drop[0] != 5)
                              or len(drop) == 2 and (len(s) != 3 or s[0])):
        continue
      for best in (1, 2, 3, 10):
        for rad in (150, 30) if not drop else (150,):
          yield (drop, s, best, rad)


def run_multi(x, case):
  drop, s, best, rad = case
  edges = [e for k, e in enumerate(ME) if k not in drop]
  pts = [P(shift(PLACES[0], *o)) for o in MN]
  g = PolyGraph()
  parts = []
  for k, (i, j) in enumerate(edges):
    line = [pts[i], P(shift(PLACES[0], (MN[i][0] + MN[j][0]) / 2.0 + 11 * i,
                            (MN[i][1] + MN[j][1]) / 2.0 + 7 * j)), pts[j]]
    parts.append((i, j, line))
    g.AddPoly(Poly(line, 'e%d' % k))
  d = distances(len(MN), parts)
  used = [i for i in range(len(MN)) if any(i in e for e in edges)]
  qs = [P(shift(PLACES[0], *MQ[k])) for k in s]
  cands = [[i for i in used if metres(xyz(pts[i]), xyz(q)) < rad] for q in qs]
  path = g.FindShortestMultiPointPath(qs, max_radius=rad, keep_best_n=best)
  x.step()
  if not all(cands):
    x.check(path is None, 'no-candidates', 'found %s' % path)
    x.outcome('no candidates')
    return
  if set(cands[0]) & set(cands[1]):
    # what the path between two points at the same node is, is not stated
    x.outcome('same node')
    return
  inf = float('inf')
  beam = [(d[i][j], (i, j)) for i in cands[0] for j in cands[1]
          if d[i][j] < inf]
  tie = False
  for k in range(2, len(s) + 1):
    beam.sort()
    if len(beam) > best and beam[best][0] - beam[best - 1][0] < 1e-3:
      tie = True
    beam = beam[:best]
    if k < len(s):
      beam = [(v + d[w[-1]][j], w + (j,)) for v, w in beam for j in cands[k]
              if d[w[-1]][j] < inf]
  if not beam:
    x.check(path is None, 'unreachable', 'found %s' % path)
    x.outcome('unreachable')
    return
  if tie:
    x.outcome('tie')
    return
  if not x.check(path is not None, 'not-found', 'expected %r' % (min(beam),)):
    return
  x.check(near(path.LengthMeters(), min(beam)[0], 0.05), 'not-best',
          '%.3f m, best %.3f m' % (path.LengthMeters(), min(beam)[0]))
  ends = [(w[0], w[-1]) for v, w in beam if v < min(beam)[0] + 1e-3]
  x.check(any(is_walk(pts, parts, path.GetPoints(), i, j) for i, j in ends),
          'not-a-path', str(path.GetName()))
  x.state((round(min(beam)[0]), best))
  x.outcome('found')


# --- matching polylines ---------------------------------------------------------------
def gen_matching(tier):
  ends = [(0, 0), (0, 149), (0, 151), (1000, 0), (1000, 100)]
  lines = list(itertools.product(range(5), repeat=2))
  for a, b in itertools.combinations(lines, 2):
    for q in ((0, 3), (3, 0), (1, 1)):
      for rad in (None, 20, 1000):
        yield (ends, (a, b), q, rad)


def run_matching(x, case):
  ends, lines, q, rad = case
  pts = [P(shift(PLACES[0], *o)) for o in ends]
  c = PolyCollection()
  for k, (i, j) in enumerate(lines):
    c.AddPoly(Poly([pts[i], P(shift(PLACES[0], 300, 3000)), pts[j]],
                   'l%d' % k))
  kw = {} if rad is None else {'max_radius': rad}
  got = sorted(p.GetName() for p in c.FindMatchingPolys(
      pts[q[0]], pts[q[1]], **kw))
  x.step()
  lim = 150 if rad is None else rad
  m = lambda i, j: metres(xyz(pts[i]), xyz(pts[j]))
  want = ['l%d' % k for k, (i, j) in enumerate(lines)
          if m(i, q[0]) < lim and m(j, q[1]) < lim]
  x.eq(got, want, 'matching', 'FindMatchingPolys')
  x.state((lines, q, rad))
  x.outcome('%d' % len(want))


SCENARIOS = [
    Scenario('latlng', gen_latlng, run_latlng,
             bound='11 x 12 places and pairs of them'),
    Scenario('closest', gen_closest, run_closest,
             bound='polylines of at most 3 (thorough 4) points of 6 at 5 '
                   'places and 2 scales, of 6 and 7 (thorough 8) points of 3 (4), '
                   '11 query points each'),
    Scenario('greedy', gen_greedy, run_greedy,
             bound='pairs of polylines of at most 3 points of 6'),
    Scenario('merge', gen_merge, run_merge,
             bound='up to 3 polylines of at most 2 points of 4'),
    Scenario('graph', gen_graph, run_graph,
             bound='all graphs over 4 nodes with 4 kinds of edge; 5 nodes '
                   'with 3 edges absent and 2 (thorough 4) roundabout; all '
                   'pairs of nodes'),
    Scenario('multi', gen_multi, run_multi,
             bound='7 nodes, 11 edges of which at most 2 are absent, '
                   'sequences of 2 to 4 points, 4 beam widths'),
    Scenario('matching', gen_matching, run_matching,
             bound='pairs of 25 lines, 3 queries, 3 radii'),
]
