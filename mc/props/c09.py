# -*- coding: utf-8 -*-
"""C09: shapes."""
import itertools

import transitfeed

import feeds
from core import Scenario

# position of the point with a given token: distinct per sequence number
POS = {0: (10.0, 20.0), 1: (10.5, 20.25), 2: (-45.25, 179.5), 3: (0.0, 30.0),
       4: (5.0, 0.0), 5: (-10.0, -30.0), 7: (60.0, 61.0), 100: (1.0, 1.0)}


def observe(sh):
  return ([tuple(p) for p in sh.points], list(sh.sequence), list(sh.distance),
          sh.max_distance)


class Model(object):
  def __init__(self):
    self.pts = []   # (seq, lat, lon, dist)

  def add(self, seq, lat, lon, dist):
    """Returns (dup, must report distance, may report distance)."""
    old = self.pts
    dup = any(p[0] == seq for p in old)
    prev = [p[3] for p in old if p[0] < seq and p[3] is not None]
    nxt = [p[3] for p in old if p[0] > seq and p[3] is not None]
    same = [p[3] for p in old if p[0] == seq and p[3] is not None]
    mono = prev + same + nxt
    mono = mono == sorted(mono)
    must = may = False
    if dist is not None:
      must = not same and bool((prev and dist < prev[-1]) or
                               (nxt and dist > nxt[0]))
      may = any(dist < d for d in prev) or any(dist > d for d in nxt) or same
      if len(set(p[0] for p in old)) < len(old):
        must = False     # which of the repeated points comes first is open
      elif mono and not same:
        may = must
    self.pts = sorted(old + [(seq, lat, lon, dist)], key=lambda p: p[0])
    return dup, must, may

  def sound(self):
    seqs = [p[0] for p in self.pts]
    ds = [p[3] for p in self.pts if p[3] is not None]
    return len(set(seqs)) == len(seqs) and ds == sorted(ds)

  def maximum(self):
    return max([p[3] for p in self.pts if p[3] is not None] or [0])

  def locate(self, d):
    """Set of acceptable locations, or None."""
    pts = [p for p in self.pts if p[3] is not None]
    if not pts:
      return None
    if d < pts[0][3]:
      return [pts[0][1:3]]
    if d > pts[-1][3]:
      return [pts[-1][1:3]]
    out = [p[1:3] for p in pts if p[3] == d]
    if out:
      return out
    for a, b in zip(pts, pts[1:]):
      if a[3] < d < b[3]:
        f = (d - a[3]) / float(b[3] - a[3])
        return [(a[1] + f * (b[1] - a[1]), a[2] + f * (b[2] - a[2]))]


QUERIES = (-1, 0, 0.25, 1, 1.5, 2, 2.5, 4, 4.75, 5, 6, 1000)


def compare(x, sh, m, what):
  pts, seq, dist, mx = observe(sh)
  want = [(p[1], p[2], p[3]) for p in m.pts]
  if len(set(p[0] for p in m.pts)) == len(m.pts):
    x.eq(pts, want, 'points', what)
    x.eq(seq, [p[0] for p in m.pts], 'sequence', what)
  else:
    x.eq(sorted(pts), sorted(want), 'points-dup', what)
    x.eq(seq, sorted(p[0] for p in m.pts), 'sequence-dup', what)
    # order between different sequence numbers is still kept
    by = dict(((p[1], p[2], p[3]), p[0]) for p in m.pts)
    if len(by) == len(m.pts):
      order = [by[p] for p in pts if p in by]
      x.check(order == sorted(order), 'order-dup', what)
  x.eq(mx, m.maximum(), 'max-distance', what)
  x.step()
  x.state((pts, mx))
  if m.sound():
    for q in QUERIES:
      got = sh.GetPointWithDistanceTraveled(q)
      want = m.locate(q)
      if want is None:
        x.eq(got, None, 'locate-none', '%s at %r' % (what, q))
        continue
      ok = got is not None and any(
          abs(got[0] - w[0]) < 1e-9 and abs(got[1] - w[1]) < 1e-9
          for w in want)
      if ok and m.pts[0][3] is not None:
        lo = min(p[3] for p in m.pts if p[3] is not None)
        ok = abs(got[2] - min(max(q, lo), m.maximum())) < 1e-9
      x.check(ok, 'locate', '%s at %r: got %r, want %r' % (what, q, got, want))


def report(x, rec, dup, must, may, what):
  got = sorted((k[0], k[1], k[2]) for k in rec.keys())
  seqs = [g for g in got if g == ('InvalidValue', 'E', 'shape_pt_sequence')]
  dist = [g for g in got if g == ('InvalidValue', 'E', 'shape_dist_traveled')]
  x.check(len(seqs) + len(dist) == len(got), 'other-report',
          '%s: %r' % (what, got))
  x.eq(len(seqs), 1 if dup else 0, 'dup-report', what)
  x.check((dist or not must) and (may or not dist) and len(dist) <= 2,
          'dist-report', '%s: got %r, must %r, may %r' % (what, got, must,
                                                          may))


def apply(x, sh, m, op, what):
  pr, rec = feeds.reporter()
  if op == 'clear':
    sh.ClearPoints()
    m.pts = []
    return
  if op[0] == 'append':
    seq = m.pts[-1][0] + 1 if m.pts else 0
    lat, lon = 3.5 + seq, 7.25
    sh.AddPoint(lat, lon, op[1], pr)
    d = op[1]
  else:
    seq, d = op
    lat, lon = POS[seq]
    lat += 0.125 * len(m.pts)
    sp = transitfeed.ShapePoint('s', lat, lon, seq, d)
    sh.AddShapePointObjectUnsorted(sp, pr)
  dup, must, may = m.add(seq, lat, lon, d)
  report(x, rec, dup, must, may, what)


def word(x, ops):
  sh = transitfeed.Shape('s')
  m = Model()
  for i, op in enumerate(ops):
    what = repr(ops[:i + 1])
    apply(x, sh, m, op, what)
    compare(x, sh, m, what)
    if x.case_failures:
      return
  x.outcome('sound' if m.sound() else 'reported')
  fresh = transitfeed.Shape('t')
  for seq, lat, lon, d in m.pts:
    fresh.AddShapePointObjectUnsorted(
        transitfeed.ShapePoint('t', lat, lon, seq, d), feeds.reporter()[0])
  if m.sound():
    x.check(sh == fresh and not (sh != fresh), 'equality', repr(ops))


def gen_words(tier):
  ops = [(s, d) for s in (0, 1, 2, 5) for d in (None, 0, 1.5, 4)] + [
      'clear', ('append', None), ('append', 2)]
  for n in (1, 2, 3):
    for w in itertools.product(ops, repeat=n):
      yield w
  small = [(s, d) for s in (0, 2, 7) for d in (None, 1.5, 4)] + [
      'clear', ('append', 2)]
  for w in itertools.product(small, repeat=4):
    yield w
  if tier != 'quick':
    for w in itertools.product(ops, repeat=4):
      yield w


def run_words(x, case):
  word(x, case)


SEQS = (0, 1, 3, 4, 7)


def gen_orders(tier):
  """Five points with sound distances, every insertion order."""
  dists = [(None,) * 5, (0, 1, 2, 4, 5), (0, 1, 1, 1, 5), (2, 2, 2, 2, 2),
           (None, 1, None, 4, None), (0, None, None, None, 5),
           (0.5, 1.25, 2.5, 2.5, 100), (None, None, None, None, 3),
           (0, 0, 0, 4.5, 4.5)]
  for d in dists:
    for perm in itertools.permutations(range(5)):
      yield (d, perm)


def run_orders(x, case):
  d, perm = case
  word(x, tuple((SEQS[i], d[i]) for i in perm))


def gen_loaded(tier):
  """Rows of shapes.txt in every order, two shapes interleaved."""
  dists = [(u'', u'', u''), (u'0', u'1.5', u'4'), (u'0', u'0', u'2'),
           (u'4', u'1.5', u'0'), (u'0', u'', u'4'), (u'4', u'', u'1.5'),
           (u'1', u'5', u'4')]
  for d in dists:
    for seqs in ((1, 2, 3), (0, 10, 100), (1, 2, 2)):
      for perm in itertools.permutations(range(4)):
        yield (d, seqs, perm)


def run_loaded(x, case):
  d, seqs, perm = case
  f = feeds.base()
  t = f['shapes.txt']
  keep = [r for r in t.rows if r['shape_id'] == 'SH2']
  rows = []
  for i in range(3):
    rows.append(dict(shape_id=u'SH1', shape_pt_lat=u'36.1%d' % i,
                     shape_pt_lon=u'-116.1%d' % i,
                     shape_pt_sequence=unicode(seqs[i]),
                     shape_dist_traveled=d[i]))
  rows.append(keep[0])
  t.rows = [rows[i] for i in perm] + keep[1:]
  for r in f['stop_times.txt'].rows:
    r['shape_dist_traveled'] = u''
  s, rec = feeds.load(f)
  x.step()
  m = Model()
  must = may = dup = 0
  for i in perm:
    if i < 3:
      dd = None if d[i] == u'' else float(d[i])
      a, b, c = m.add(seqs[i], float(rows[i]['shape_pt_lat']),
                      float(rows[i]['shape_pt_lon']), dd)
      dup += bool(a)
      must += bool(b)
      may += bool(c)
  sh = s.GetShape('SH1')
  got = [(k[0], k[2]) for k in rec.keys() if k[2] in
         ('shape_pt_sequence', 'shape_dist_traveled')]
  x.eq(got.count(('InvalidValue', 'shape_pt_sequence')), dup, 'loaded-dup',
       repr(case))
  n = got.count(('InvalidValue', 'shape_dist_traveled'))
  x.check(must <= n <= 2 * may, 'loaded-dist', '%r: %r' % (case, rec.keys()))
  if m.sound():
    x.eq(rec.keys(), [], 'loaded-silent', repr(case))
  compare(x, sh, m, repr(case))
  x.outcome('sound' if m.sound() else 'reported')


SCENARIOS = [
    Scenario('words', gen_words, run_words,
             bound='all words of length <=3 (4) over 16 (sequence, distance) '
                   'points, appending and clearing, and of length 4 over 11 '
                   'operations; every step compared, 12 distances located'),
    Scenario('orders', gen_orders, run_orders,
             bound='9 distance patterns x all 120 insertion orders of 5 '
                   'points'),
    Scenario('loaded', gen_loaded, run_loaded,
             bound='7 distance patterns x 3 sequence patterns x all orders of '
                   '4 rows of shapes.txt'),
]
