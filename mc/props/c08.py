# -*- coding: utf-8 -*-
"""C08: interpolated stop times."""
import itertools
import math

import transitfeed

import feeds
from core import Scenario

STOPS = {
    'A': (0.0, 0.0), 'B': (0.0, 0.01), 'C': (0.03, 0.01), 'D': (0.03, 0.01),
    'E': (47.5, 8.5), 'F': (-33.9, 179.99), 'G': (-33.9, -179.98),
    'H': (0.0, 0.0),
}
DIST = {}


def vec(p):
  la, lo = math.radians(p[0]), math.radians(p[1])
  return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo),
          math.sin(la))


def dist(a, b):
  """Great-circle distance from the chord between unit vectors."""
  if (a, b) not in DIST:
    u, v = vec(STOPS[a]), vec(STOPS[b])
    c = math.sqrt(sum((p - q) ** 2 for p, q in zip(u, v)))
    DIST[a, b] = 2 * math.asin(min(1.0, c / 2))
  return DIST[a, b]


def build(seq, via):
  """seq: list of (stop, arrival or None, departure or None)."""
  pr, rec = feeds.reporter()
  s = transitfeed.Schedule(pr)
  s.AddAgency('a', 'http://a', 'Europe/Zurich')
  for c in sorted(STOPS):
    s.AddStop(STOPS[c][0], STOPS[c][1], c, stop_id=c)
  s.NewDefaultServicePeriod().SetDateHasService('20100101')
  r = s.AddRoute('1', 'one', 'Bus')
  t = r.AddTrip(s, trip_id='T')
  for i, (c, a, d) in enumerate(seq):
    st = transitfeed.StopTime(pr, s.GetStop(c), arrival_secs=a,
                              departure_secs=d,
                              timepoint=(None, 0, 1)[i % 3])
    if via == 'append':
      t.AddStopTimeObject(st)
    else:
      st.stop_sequence = 3 + i * i
      t._AddStopTimeObjectUnordered(st, s)
  return s, t


def judge(x, seq, via='append'):
  s, t = build(seq, via)
  what = repr((seq, via))
  x.step()
  timed = [q[1] is not None for q in seq]
  try:
    got = t.GetTimeInterpolatedStops()
  except ValueError:
    x.check(seq and not (timed[0] and timed[-1]), 'refused', what)
    x.outcome('refused')
    return
  if seq and not (timed[0] and timed[-1]):
    x.fail('not-refused', '%s: got %r' % (what, [g[0] for g in got]))
    return
  if not x.eq([g[1].stop_id for g in got], [q[0] for q in seq], 'stops', what):
    return
  x.eq([g[2] for g in got], timed, 'flags', what)
  x.eq([(g[1].arrival_secs, g[1].departure_secs) for g in got],
       [(q[1], q[2]) for q in seq], 'stoptimes', what)
  x.check(all(isinstance(g[0], (int, long)) for g in got), 'int', what)
  last = None
  for i, q in enumerate(seq):
    if timed[i]:
      x.eq(got[i][0], q[1], 'timed', '%s at %d' % (what, i))
      continue
    lo = max(k for k in range(i) if timed[k])
    hi = min(k for k in range(i, len(seq)) if timed[k])
    total = sum(dist(seq[k][0], seq[k + 1][0]) for k in range(lo, hi))
    part = sum(dist(seq[k][0], seq[k + 1][0]) for k in range(lo, i))
    a, b = seq[lo][1], seq[hi][1]
    if total == 0:
      x.check(min(a, b) <= got[i][0] <= max(a, b), 'same-place',
              '%s at %d: %r' % (what, i, got[i][0]))
    else:
      want = a + (b - a) * part / total
      x.check(abs(got[i][0] - want) <= 0.5 + 1e-4 * abs(b - a) ** 0.5,
              'interpolated', '%s at %d: got %r, want %r' % (
                  what, i, got[i][0], want))
  given = [q[1] for q in seq if q[1] is not None]
  if given == sorted(given):
    times = [g[0] for g in got]
    x.check(times == sorted(times), 'backwards', '%s: %r' % (what, times))
  x.state([g[0] for g in got])
  x.outcome('untimed%d' % timed.count(False))


# time tokens: None untimed, else (step from previous departure, dwell)
TOK = [None, (0, 0), (7, 0), (600, 60)]


def resolve(word, start):
  seq, now = [], start
  for c, tok in word:
    if tok is None:
      seq.append((c, None, None))
    else:
      a = now + tok[0]
      seq.append((c, a, a + tok[1]))
      now = a + tok[1]
  return seq


def gen_words(tier):
  yield (0, ())
  alpha = [(c, t) for c in 'ABCD' for t in TOK]
  for start in (0, 86399):
    for n in (1, 2, 3):
      for w in itertools.product(alpha, repeat=n):
        yield (start, w)
  deep = [(c, t) for c in 'ABC' for t in (None, (601, 0))]
  for n in (4,) if tier == 'quick' else (4, 5, 6):
    for w in itertools.product(deep, repeat=n):
      yield (0, w)


def run_words(x, case):
  judge(x, resolve(case[1], case[0]))


def gen_long(tier):
  """First and last timed, everything between untimed or timed."""
  n = 5 if tier == 'quick' else 6
  places = ['ABC', 'ACD', 'AH', 'FG', 'EF', 'BAC']
  for pal in places if tier != 'quick' else places[:2] + places[3:5]:
    for stops in itertools.product(pal, repeat=n):
      if tier == 'quick' and stops[0] != pal[0]:
        continue
      for mask in range(2 ** (n - 2)):
        yield (stops, mask)


def run_long(x, case):
  stops, mask = case
  n = len(stops)
  word = []
  for i, c in enumerate(stops):
    if i == 0:
      word.append((c, (0, 0)))
    elif i == n - 1 or mask >> (i - 1) & 1:
      word.append((c, (997, 30 * (i % 2))))
    else:
      word.append((c, None))
  judge(x, resolve(word, 30000))


def gen_times(tier):
  ts = [None, 0, 1, 3599, 3600, 86400, 100000]
  for w in itertools.product(ts, repeat=4):
    for stops in ('ABCA', 'AHAB', 'EEFG'):
      yield (stops, w)


def run_times(x, case):
  seq = [(c, t, t) for c, t in zip(*case)]
  judge(x, seq)
  judge(x, seq, 'sequence')


SCENARIOS = [
    Scenario('words', gen_words, run_words,
             bound='all stop-time words of length <=3 over 4 places (two of '
                   'them identical) x {untimed, +0, +7, +600 with dwell} from '
                   'midnight and 23:59:59; length 4 (..6) over 3 places x '
                   '{untimed, +601}'),
    Scenario('long', gen_long, run_long,
             bound='trips of 5 (6) stops over 4 (6) sets of places, every '
                   'subset of inner stops timed'),
    Scenario('times', gen_times, run_times,
             bound='4 stops x 7^4 times, increasing or not, zero included; '
                   'stop sequences consecutive or with gaps'),
]
