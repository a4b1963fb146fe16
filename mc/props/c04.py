# -*- coding: utf-8 -*-
"""C04: active services, trip and departure counts, feed date range."""
import datetime
import itertools

import transitfeed

import feeds
from core import Scenario
from props.c03 import Model, window, day

WIN = window('20101229', 0, 12)       # across a year end
# range offsets, weekdays, exceptions (offset, type)
CAL = [
    (None, 0, ()),
    (None, 0, ((3, 2),)),
    (None, 0, ((3, 1),)),
    (None, 0, ((1, 1), (9, 1), (5, 2))),
    ((2, 6), 127, ()),
    ((2, 6), 31, ((2, 2), (6, 2))),
    ((2, 6), 96, ((1, 1), (8, 1))),
    ((1, 9), 127, ((4, 2), (1, 1), (9, 1))),
    ((4, 4), 127, ()),
]


def make_period(sid, c):
  rng, mask, exc = c
  p = transitfeed.ServicePeriod(sid)
  m = Model()
  if rng is not None:
    m.start, m.end = WIN[rng[0]], WIN[rng[1]]
    p.SetStartDate(m.start)
    p.SetEndDate(m.end)
  for i in range(7):
    m.dow[i] = bool(mask >> i & 1)
    p.SetDayOfWeekHasService(i, m.dow[i])
  for d, e in exc:
    m.exc[WIN[d]] = e
    p.SetDateHasService(WIN[d], e == 1)
  return p, m


def windows():
  return [(0, 12), (2, 7), (3, 3), (5, 4), (6, 7)]


FEED_INFO = [None, (None, None), ('20100101', None), (None, '20111231'),
             ('20101231', '20110102')]


def gen_range(tier):
  n = len(CAL)
  for k in (0, 1, 2, 3):
    for combo in itertools.product(range(n), repeat=k):
      for fi in range(len(FEED_INFO)):
        yield (combo, fi)


def run_range(x, case):
  combo, fi = case
  s = transitfeed.Schedule()
  ms = {}
  for i, c in enumerate(combo):
    p, m = make_period('S%d' % i, CAL[c])
    s.AddServicePeriodObject(p, validate=False)
    ms['S%d' % i] = m
  if FEED_INFO[fi] is not None:
    a, b = FEED_INFO[fi]
    d = {'feed_publisher_name': 'x', 'feed_publisher_url': 'http://x',
         'feed_lang': 'en'}
    if a:
      d['feed_start_date'] = a
    if b:
      d['feed_end_date'] = b
    s.AddFeedInfoObject(transitfeed.FeedInfo(field_dict=d))
  ranges = [(m.range(), m) for m in ms.values() if m.range()[0]]
  got = s.GetDateRangeWithOrigins()
  x.step()
  x.eq(tuple(s.GetDateRange()), tuple(got[:2]), 'GetDateRange', repr(case))
  if not ranges:
    x.eq(tuple(got), (None,) * 4, 'no-range', repr(case))
    x.outcome('none')
  else:
    lo = min(r[0] for r, m in ranges)
    hi = max(r[1] for r, m in ranges)
    ok_lo, ok_hi = set(), set()
    for r, m in ranges:
      if m.exc.get(lo) == 1:
        ok_lo.add('earliest service exception date in calendar_dates.txt')
      if m.start == lo:
        ok_lo.add('earliest service date in calendar.txt')
      if m.exc.get(hi) == 1:
        ok_hi.add('last service exception date in calendar_dates.txt')
      if m.end == hi:
        ok_hi.add('last service date in calendar.txt')
    if FEED_INFO[fi] and FEED_INFO[fi][0]:
      lo, ok_lo = FEED_INFO[fi][0], set(['feed_start_date in feed_info.txt'])
    if FEED_INFO[fi] and FEED_INFO[fi][1]:
      hi, ok_hi = FEED_INFO[fi][1], set(['feed_end_date in feed_info.txt'])
    x.eq(tuple(got[:2]), (lo, hi), 'range', repr(case))
    x.check(got[2] in ok_lo, 'start-origin',
            lambda: '%r: %r not in %r' % (case, got[2], ok_lo))
    x.check(got[3] in ok_hi, 'end-origin',
            lambda: '%r: %r not in %r' % (case, got[3], ok_hi))
    x.outcome('range')
  x.state((case, got))
  for a, b in windows():
    lst = s.GetServicePeriodsActiveEachDate(day(WIN[0]) +
                                            datetime.timedelta(days=a),
                                            day(WIN[0]) +
                                            datetime.timedelta(days=b))
    x.step()
    x.eq([(d.strftime('%Y%m%d'), sorted(p.service_id for p in ps))
          for d, ps in lst],
         [(d, sorted(k for k, m in ms.items() if m.active(d)))
          for d in WIN[a:b]], 'active-each-date', '%r %r' % (case, (a, b)))


FREQS = [(), ((0, 3600, 600),), ((0, 3600, 601),),
         ((36000, 36001, 86400), (0, 1200, 600)), ((60, 120, 60),)]
KINDS = [(sv, n, f) for sv in (0, 1) for n in (0, 1, 2, 4)
         for f in range(len(FREQS))]


def gen_counts(tier):
  for k in (0, 1, 2):
    for combo in itertools.combinations_with_replacement(range(len(KINDS)), k):
      yield combo
  if tier != 'quick':
    for combo in itertools.combinations_with_replacement(range(len(KINDS)), 3):
      yield combo


def run_counts(x, case):
  s = transitfeed.Schedule()
  s.AddAgency('a', 'http://a', 'Europe/Zurich')
  stops = [s.AddStop(40 + i, 10, 's%d' % i, stop_id='s%d' % i)
           for i in range(4)]
  ms = []
  ps = []
  for i, c in enumerate((5, 3)):
    p, m = make_period('S%d' % i, CAL[c])
    s.AddServicePeriodObject(p, validate=False)
    ms.append(m)
    ps.append(p)
  r = s.AddRoute('1', 'one', 'Bus')
  r2 = s.AddRoute('2', 'two', 'Bus')
  model = []
  for i, k in enumerate(case):
    sv, n, f = KINDS[k]
    t = (r, r2)[i % 2].AddTrip(s, service_period=ps[sv], trip_id='t%d' % i)
    for j in range(n):
      t.AddStopTime(stops[j], stop_time='%02d:00:00' % (8 + j))
    runs = 0
    for a, b, h in FREQS[f]:
      t.AddFrequency(a, b, h)
      runs += (b - a + h - 1) // h
    model.append((sv, runs or 1, max(n - 1, 0)))
  for a, b in windows():
    got = s.GenerateDateTripsDeparturesList(
        day(WIN[0]) + datetime.timedelta(days=a),
        day(WIN[0]) + datetime.timedelta(days=b))
    want = []
    for d in WIN[a:b]:
      act = [m for m in model if ms[m[0]].active(d)]
      want.append((d, sum(m[1] for m in act), sum(m[1] * m[2] for m in act)))
    got = [(d.strftime('%Y%m%d'), t, dep) for d, t, dep in got]
    x.step()
    x.eq(got, want, 'counts', '%r %r' % (case, (a, b)))
    x.state(got)
  x.outcome('trips%d' % len(case))


SCENARIOS = [
    Scenario('range', gen_range, run_range,
             bound='all lists of up to 3 service periods over 9 calendars x 5 '
                   'feed info variants x 5 windows of days'),
    Scenario('counts', gen_counts, run_counts,
             bound='all multisets of up to 2 (thorough 3) trips over 40 kinds '
                   '(service x stop count x frequencies) x 5 windows'),
]
