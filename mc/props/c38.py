# -*- coding: utf-8 -*-
"""C38: a timetable graph draws exactly the trips, stations and hours asked for.

Every drawing is parsed as SVG and compared, line by line, with where the stops
and times say the lines have to be; words of drawing, decorating and scaling are
executed step by step, the picture being compared after each."""
import itertools
import math
import re
import xml.etree.ElementTree as ET

import transitfeed
from gtfsscheduleviewer.marey_graph import MareyGraph

import feeds
from core import Scenario

SVG = '{http://www.w3.org/2000/svg}'
U = feeds.U

# Stop sequences by position along a meridian, in steps of about 1.1 km.
LAYOUTS = [(0, 1), (0, 1, 2), (0, 1, 4), (0, 3, 4), (0, 0, 1), (0, 1, 1),
           (0, 1, 0), (0, 2, 1, 3), (0, 1, 2, 3), (0, 0, 0, 2), (0, 5),
           (0, 1, 3, 6), (0, 0), (0, 0, 0), (0,)]
STEP = 0.01

# Times of the visits of a trip: minutes of arrival and departure, or None.
H = 60
TIMES = {
    'plain': lambda n: [(7 * H + 10 * i, 7 * H + 10 * i) for i in range(n)],
    'dwell': lambda n: [(8 * H + 20 * i, 8 * H + 20 * i + 7) for i in range(n)],
    'uneven': lambda n: [(6 * H + 5 * i * i, 6 * H + 5 * i * i + i)
                         for i in range(n)],
    'untimed': lambda n: [(9 * H + 15 * i,) * 2 if i in (0, n - 1) else None
                          for i in range(n)],
    'untimed-2': lambda n: [(9 * H + 15 * i,) * 2 if i != 1 or n == 2 else None
                            for i in range(n)],
    'night': lambda n: [(23 * H + 50 + 25 * i, 23 * H + 51 + 25 * i)
                        for i in range(n)],
    'early': lambda n: [(12 * i, 12 * i + 3) for i in range(n)],
    'standing': lambda n: [(10 * H, 10 * H) for i in range(n)],
    'long': lambda n: [(5 * H + 7 * H * i, 5 * H + 7 * H * i + 30)
                       for i in range(n)],
    'touch': lambda n: [(7 * H + 10 * (i // 2), 7 * H + 10 * (i // 2))
                        for i in range(n)],
    'back': lambda n: [(7 * H + 20 * i, 7 * H + 20 * i + (25 if i == 0 else 0))
                       for i in range(n)],
    'late': lambda n: [(26 * H + 15 * i, 26 * H + 15 * i + 2)
                       for i in range(n)],
}
TN = ['plain', 'dwell', 'uneven', 'untimed', 'untimed-2', 'night', 'early',
      'standing', 'long', 'late', 'touch', 'back']
IDS = ['t', u'a&b', u'a"b', u"a'b", u'<x>', u'\xe9\u20ac', 'a b', 'a\\b',
       ']]>', '%s']


def hms(m):
  return '%02d:%02d:00' % (m // 60, m % 60)


def build(layout, trips):
  """A schedule; trips are (id, times, service)."""
  s = transitfeed.Schedule(problem_reporter=feeds.reporter()[0])
  s.AddAgency('A', 'http://a.example/', 'America/New_York', 'A')
  r = s.AddRoute('1', 'Line', 'Bus', 'R')
  stops = [s.AddStop(36 + STEP * p, -116, 'Stop %d' % i, 'S%d' % i)
           for i, p in enumerate(layout)]
  periods = {}
  out = []
  for tid, times, service in trips:
    if service not in periods:
      p = transitfeed.ServicePeriod(service)
      p.SetStartDate('20100101')
      p.SetEndDate('20101231')
      p.SetWeekdayService()
      s.AddServicePeriodObject(p)
      periods[service] = p
    t = r.AddTrip(s, 'head', periods[service], tid)
    for stop, v in zip(stops, times):
      if v is None:
        t.AddStopTime(stop)
      else:
        t.AddStopTime(stop, arrival_time=hms(v[0]), departure_time=hms(v[1]))
    out.append(t)
  return s, stops, out


def distance(a, b):
  """Great circle in metres; stops are on one meridian."""
  return abs(a - b) * STEP * math.pi / 180 * 6371010.0


def heights(layout, times, height):
  """Where the station lines go: by distance, else by the travel times of the
  first trip, else None for anywhere in order."""
  d = [distance(a, b) for a, b in zip(layout, layout[1:])]
  if not sum(d):
    if not times:
      return None
    d = []
    for a, b in zip(times, times[1:]):
      d.append((b[0] - a[1]) * 60.0 if a and b and b[0] >= a[1] else 10.0)
    if not sum(d):
      return None
  out = [0.0]
  for v in d:
    out.append(out[-1] + v)
  return [v * (height - 20) / out[-1] for v in out]


def picture(x, text):
  """The parts of a drawing."""
  try:
    root = ET.fromstring(text.encode('utf-8') if isinstance(text, unicode)
                         else text)
  except Exception as e:
    x.abort('not-xml', '%s: %r' % (e, text[-500:]))
  p = {'T': [], 'Station': [], 'FullHour': [], 'SubHour': [], 'Dec': [],
       'Label': [], 'Info': []}
  loose = []
  for e in root.getiterator():
    c = e.get('class')
    if e.tag == SVG + 'polyline':
      nums = [float(v) for v in re.split('[ ,]+', e.get('points').strip()) if v]
      pts = list(zip(nums[::2], nums[1::2]))
      p.setdefault(c, []).append((e.get('id'), e.get('stroke'), pts,
                                  e.get('onmouseover')))
    elif e.tag == SVG + 'text' and not (c == 'Info' and e.get('id')):
      p.setdefault(c, []).append((float(e.get('x')), float(e.get('y')),
                                  e.text))
    if e.tag in (SVG + 'g', SVG + 'svg'):
      loose += [(e.text or '').strip()] + [(k.tail or '').strip() for k in e]
  p['loose'] = [t for t in loose if t]
  p['size'] = (float(root.get('width')), float(root.get('height')))
  g = [e for e in root.getiterator(SVG + 'g') if e.get('id') == 'zcanvas']
  m = re.match(r'scale\((.*)\)$', g[0].get('transform')) if g else None
  p['scale'] = float(m.group(1)) if m else None
  rects = list(root.getiterator(SVG + 'rect'))
  p['box'] = [(float(r.get('width')), float(r.get('height'))) for r in rects]
  m = re.search(r'hoffset= *(-?\d+)', text)
  p['hoffset'] = int(m.group(1)) if m else None
  return p


class Want(object):
  """What the picture has to show."""

  def __init__(self, layout=(), trips=(), height=520, offset=0, span=30,
               given=True):
    self.layout, self.trips, self.height = layout, trips, height
    self.offset, self.span = offset, span
    self.given = given       # the stops were given
    self.scale = 0.9
    self.decor = None

  def times(self):
    return self.trips[0][1] if self.trips else None


def near(a, b, tol=1.01):
  return abs(a - b) <= tol


def same_picture(x, p, w, what):
  eq = lambda got, want, key: x.check(
      got == want, key, lambda: '%s: got %r, want %r' % (what, got, want))
  x.check(not p['loose'], 'text-between', lambda: '%s: %r' % (
      what, p['loose'][:3]))
  x.check(near(p['scale'], w.scale, 1e-6), 'scale', lambda: '%s: %r %r' % (
      what, p['scale'], w.scale))
  width = w.span * 60
  eq(p['box'], [(width + 20, w.height)], 'box')
  x.check(p['size'][0] >= width and p['size'][1] >= w.height, 'size',
          lambda: '%s: %r' % (what, p['size']))
  eq(p['hoffset'], w.offset, 'hour-offset')
  # hours
  eq(sorted((a, c) for a, b, c in p['Label']),
     sorted((20.0 + 60 * i, str((w.offset + i) % 24)) for i in range(w.span)),
     'hour-labels')
  xs = sorted(pts[0][0] for _, _, pts, _ in p['FullHour'])
  x.check(len(xs) == w.span and all(near(v, 20 + 60 * i) for i, v in
                                    enumerate(xs)),
          'hour-lines', lambda: '%s: %r' % (what, xs))
  xs = sorted(pts[0][0] for _, _, pts, _ in p['SubHour'])
  subs = [20 + 5 * i for i in range(12 * w.span) if i % 12]
  x.check(len(xs) == len(subs) and all(near(a, b) for a, b in zip(xs, subs)),
          'sub-hour-lines', lambda: '%s: %r' % (what, xs[:20]))
  for _, _, pts, _ in p['FullHour'] + p['SubHour']:
    x.check(len(pts) == 2 and pts[0][0] == pts[1][0] and
            sorted(c[1] for c in pts) == [20, w.height], 'grid-upright',
            lambda: '%s: %r' % (what, pts))
  # stations
  ys = [pts[0][1] - 20.5 for _, _, pts, _ in p['Station']]
  for _, _, pts, _ in p['Station']:
    x.check(len(pts) == 2 and pts[0][1] == pts[1][1] and
            pts[0][0] == 20 and pts[1][0] == 20 + width, 'station-level',
            lambda: '%s: %r' % (what, pts))
  want = heights(w.layout if w.given else (), w.times(), w.height)
  n = len(w.layout)
  if want is not None:
    x.check(len(ys) == len(want) and all(near(a, b, 2.01) for a, b in
                                         zip(ys, want)),
            'station-lines', lambda: '%s: got %r, want %r' % (what, ys, want))
  elif w.trips:
    x.check(len(ys) >= n, 'station-lines', lambda: '%s: %r' % (what, ys))
    want = ys
  x.check(ys == sorted(ys) and (not ys or ys[0] == 0 and
                                ys[-1] <= w.height - 20),
          'station-order', lambda: '%s: %r' % (what, ys))
  # trips
  lines = dict((id(l), l) for l in p['T'])
  eq(sorted(U(l[0]) for l in p['T'] if l[1] not in DECOR),
     sorted(U(t[0]) for t in w.trips), 'trips')
  drawn = {}
  for tid, colour, pts, call in p['T']:
    t = [t for t in w.trips if U(t[0]) == U(tid)]
    if not t:
      continue
    t = t[0]
    line = []
    for i, v in enumerate(t[1]):
      if v is not None:
        y = ys[i] if i < len(ys) else None
        line += [(20 + m - 60 * w.offset, y) for m in v]
    x.check(len(pts) == len(line) and all(
        near(a[0], b[0]) and b[1] is not None and near(a[1] - 20, b[1])
        for a, b in zip(pts, line)), 'trip-line', lambda: '%s: %r: %r, want %r'
            % (what, tid, pts, line))
    first = [v for v in t[1] if v is not None][0][0]
    if colour not in DECOR:
      x.check(hms(first) in call, 'trip-start', lambda: '%s: %r' % (what, call))
      drawn.setdefault(t[2], set()).add(colour)
  x.check(all(len(v) == 1 for v in drawn.values()), 'service-colours',
          lambda: '%s: %r' % (what, drawn))
  x.check(len(set(c for v in drawn.values() for c in v)) >= len(drawn),
          'colours-shared', lambda: '%s: %r' % (what, drawn))
  x.check(all(re.match('#[0-9a-fA-F]{6}$', c) for v in drawn.values()
              for c in v), 'colour-form', lambda: '%s: %r' % (what, drawn))
  # decorations
  stations = [(c, pts) for _, c, pts, _ in p['Dec']]
  infos = [t for _, _, t in p['Info']]
  decor = [(U(i), c) for i, c, _, _ in p['T'] if c in DECOR]
  if w.decor is None:
    x.check(not stations and not infos and not decor, 'decoration-left',
            lambda: '%s: %r %r %r' % (what, stations, infos, decor))
  else:
    kind, value, colour = w.decor
    if kind == 'station':
      if 0 <= value < len(ys):
        x.check(stations and stations[-1][0] == colour and
                stations[-1][1] == [(20.0, 20.5 + ys[value]),
                                    (20.0 + width, 20.5 + ys[value])],
                'station-decoration', lambda: '%s: %r' % (what, stations))
    elif kind == 'text':
      x.check(infos and U(infos[-1]) == U(value), 'text-decoration',
              lambda: '%s: %r' % (what, infos))
    elif kind == 'trips':
      x.check(decor[-len(value):] == [(U(v), colour) for v in value],
              'trip-decoration', lambda: '%s: %r' % (what, decor))


DECOR = set(['#f00', '#ff0', '#0ff', 'red'])






def extremes(trips):
  a = [t[1][0][0] for t in trips]
  b = [t[1][-1][1] for t in trips]
  return min(a), max(b)


# -- drawing ----------------------------------------------------------------
def gen_draw(tier):
  for l in range(len(LAYOUTS)):
    for t in TN:
      for given in (True, False):
        yield [l, [t], given, None, False]
        yield [l, [t], given, 120, True]
  for l in range(len(LAYOUTS)):
    for a, b in itertools.product(TN, TN):
      if tier != 'quick' or (TN.index(a) + TN.index(b) + l) % 4 == 0:
        yield [l, [a, b], True, 300, True]
      if tier != 'quick' or (TN.index(a) + 2 * TN.index(b) + l) % 6 == 0:
        yield [l, [a, b], False, 520, False]
  if tier != 'quick':
    for l in range(len(LAYOUTS)):
      for w in itertools.product(TN, repeat=3):
        yield [l, list(w), True, 200, True]




def run_draw(x, case):
  l, names, given, height, span = case
  layout = LAYOUTS[l]
  trips = [('t%d' % i, TIMES[n](len(layout)), 'SV%d' % (i % 2))
           for i, n in enumerate(names)]
  s, stops, ts = build(layout, trips)
  g = MareyGraph()
  kw = {} if height is None else {'height': height}
  if span:
    first, last = extremes(trips)
    g.SetSpan(first * 60, last * 60)
  text = g.Draw(stops if given else None, ts, **kw)
  x.step()
  p = picture(x, text)
  w = Want(layout, trips, height or 520, given=given)
  if span:
    adopt(x, p, w, first, last, repr(case))
  same_picture(x, p, w, repr(case))
  x.check(g.Draw() == text, 'redraw', repr(case))
  x.step()
  x.state([p['T'], p['Station'], p['box']])
  x.outcome('%d trips' % len(names))


def adopt(x, p, w, first, last, what, mint=5, maxt=30):
  """The hours shown begin in the hour before the first time and hold the last
  time, and are from mint to maxt many."""
  off = max(min(first // 60 - 1, 23), 0)
  n = len(p['Label'])
  w.offset, w.span = off, n
  need = last // 60 + 1 - off
  x.check(mint <= n <= max(mint, maxt) and n >= min(need, maxt) and
          n <= max(mint, need + 1), 'span', lambda: '%s: %d hours from %d, '
          'times %d to %d' % (what, n, off, first, last))


# -- ids and colours --------------------------------------------------------
def gen_ids(tier):
  for n in range(1, 5 if tier == 'quick' else 7):
    for w in itertools.product(range(min(n, 4)), repeat=n):
      yield ['colours', list(w)]
  for n in (6, 9, 15, 25):
    yield ['colours', list(range(n)) * 2]
    yield ['colours', [i // 2 for i in range(2 * n)]]
  for i, j in itertools.product(range(len(IDS)), repeat=2):
    yield ['ids', [i, j]]


def run_ids(x, case):
  kind, w = case
  if kind == 'colours':
    trips = [('t%d' % i, TIMES['plain'](2), 'SV%d' % v)
             for i, v in enumerate(w)]
  else:
    trips = [(IDS[v] if i == 0 else IDS[v] + '2', TIMES['plain'](2), 'SV')
             for i, v in enumerate(w)]
  s, stops, ts = build((0, 1), trips)
  text = MareyGraph().Draw(stops, ts)
  x.step()
  p = picture(x, text)
  same_picture(x, p, Want((0, 1), trips), repr(case))
  x.state([p['T']])
  x.outcome(kind)


# -- spans ------------------------------------------------------------------
MOMENTS = [0, 30, 59, 60, 61, 119, 120, 6 * H, 6 * H + 59, 12 * H, 22 * H + 59,
           23 * H, 23 * H + 1, 24 * H, 24 * H + 30, 25 * H, 26 * H + 10,
           29 * H, 30 * H, 31 * H + 5, 35 * H, 47 * H + 59, 48 * H, 60 * H]


def gen_span(tier):
  for a, b in itertools.combinations_with_replacement(MOMENTS, 2):
    yield [a, b, 5, 30]
    if tier != 'quick' or (a + b) % 3 == 0:
      for mint, maxt in ((1, 3), (2, 12), (10, 40)):
        yield [a, b, mint, maxt]


def run_span(x, case):
  a, b, mint, maxt = case
  trips = [('t', [(a, a), (b, b)], 'SV')]
  s, stops, ts = build((0, 1), trips)
  g = MareyGraph()
  if (mint, maxt) == (5, 30):
    g.SetSpan(a * 60, b * 60)
  else:
    g.SetSpan(a * 60, b * 60, mint, maxt)
  p = picture(x, g.Draw(stops, ts))
  x.step()
  w = Want((0, 1), trips)
  adopt(x, p, w, a, b, repr(case), mint, maxt)
  same_picture(x, p, w, repr(case))
  x.state([p['Label'], p['T']])
  x.outcome('%d hours' % w.span)


# -- histories --------------------------------------------------------------
OPS = ['draw A', 'draw B', 'draw stops', 'draw trips', 'again', 'station 0',
       'station 1', 'station 2', 'station 9', 'station -1', 'station text',
       'trip', 'trips', 'text', 'markup', 'clear', 'larger', 'smaller',
       'scale 0.7', 'scale 0', 'scale 5', 'scale 4.95', 'scale 0.05',
       'scale -1', 'span']


def gen_history(tier):
  n = 3 if tier == 'quick' else 4
  for k in range(n + 1):
    for w in itertools.product(range(len(OPS)), repeat=k):
      if k == 3 and tier == 'quick' and (w[0] * 5 + w[1] * 3 + w[2]) % 6:
        continue
      if k == 4 and (w[0] + 2 * w[1] + 3 * w[2] + w[3]) % 7:
        continue
      yield [OPS[i] for i in w]


_shared = []


def shared():
  if not _shared:
    a = [('a1', TIMES['plain'](3), 'SV0'), ('a2', TIMES['dwell'](3), 'SV1')]
    b = [('b1', TIMES['uneven'](4), 'SV1'), ('b2', TIMES['untimed'](4), 'SV0'),
         ('b3', TIMES['night'](4), 'SV1')]
    _shared.append((((0, 1, 4), a) + build((0, 1, 4), a)[0:],
                    ((0, 2, 1, 3), b) + build((0, 2, 1, 3), b)[0:]))
  return _shared[0]


def run_history(x, case):
  A, B = shared()
  g = MareyGraph()
  w = None
  scale = 0.9
  offset, span = 0, 30
  for n, op in enumerate(['draw A'] + case):
    what = repr(case[:n])
    word = op.split(' ')
    decor = w.decor if w else None
    if word[0] == 'draw':
      layout, trips, s, stops, ts = B if word[1] == 'B' else A
      if word[1] == 'stops':
        g.Draw(stops, height=200)
        w = Want(layout, [], 200)
      elif word[1] == 'trips':
        g.Draw(triplist=ts[:1], height=240)
        w = Want(layout, trips[:1], 240, given=False)
      else:
        g.Draw(stops, ts, 300 if word[1] == 'A' else 400)
        w = Want(layout, trips, 300 if word[1] == 'A' else 400)
      current = (layout, trips, s, stops, ts)
      w.offset, w.span = offset, span
    elif op == 'station text':
      g.AddStationDecoration('1', '#ff0')
      w.decor = ('station', 1, '#ff0')
    elif word[0] == 'station':
      i = int(word[1])
      g.AddStationDecoration(i)
      w.decor = ('station', i, '#f00')
    elif op == 'trip':
      g.AddTripDecoration(current[4][:1], '#0ff')
      w.decor = ('trips', [t[0] for t in current[1][:1]], '#0ff')
    elif op == 'trips':
      g.AddTripDecoration(current[4])
      w.decor = ('trips', [t[0] for t in current[1]], '#f00')
    elif op == 'text':
      g.AddTextStripDecoration('some text')
      w.decor = ('text', 'some text', None)
    elif op == 'markup':
      g.AddTextStripDecoration(u'A & B <1> \xe9')
      w.decor = ('text', u'A & B <1> \xe9', None)
    elif op == 'clear':
      g.ClearDecorators()
      w.decor = None
    elif op == 'larger':
      g.ScaleLarger()
      if scale + 0.1 < 5:
        scale += 0.1
    elif op == 'smaller':
      g.ScaleSmaller()
      if scale - 0.1 > 0:
        scale -= 0.1
    elif word[0] == 'scale':
      f = float(word[1])
      g.ChangeScaleFactor(f)
      if 0 < f < 5:
        scale = f
    elif op == 'span':
      # Takes effect with the next drawing.
      g.SetSpan(6 * 3600, 12 * 3600)
      g.Draw(current[3], current[4], w.height)
      given = w
      w = Want(current[0], current[1], given.height)
      offset = w.offset = 5
      p = picture(x, g.Draw())
      adopt(x, p, w, 6 * H, 12 * H, what)
      span = w.span
    w.scale = scale
    x.step()
    if n == len(case):
      p = picture(x, g.Draw())
      same_picture(x, p, w, what)
      x.check(g.Draw() == g.Draw(), 'redraw', what)
      x.state([w.decor, w.scale, p['T'], p['Dec'], p['Info']])
  x.outcome(case[-1] if case else 'nothing')


SCENARIOS = [
    Scenario('draw', gen_draw, run_draw,
             bound='15 lines of stops x 12 kinds of trip, a quarter of (all) '
                   'pairs (and triples), with and without stops and span'),
    Scenario('ids', gen_ids, run_ids,
             bound='all words of up to 4 (6) trips over 4 services; 10^2 ids'),
    Scenario('span', gen_span, run_span,
             bound='all pairs of 24 first and last times x 4 limits'),
    Scenario('history', gen_history, run_history,
             bound='words of up to 2 and a sixth of those of 3 (all, and a '
                   'seventh of 4) calls out of 25'),
]
