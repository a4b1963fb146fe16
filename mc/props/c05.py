# -*- coding: utf-8 -*-
"""C05: expiry, future, gap and no-exception warnings."""
import datetime
import itertools
import time

import transitfeed

import feeds
from core import Scenario
from props.c03 import Model, day, fmt

TODAY = datetime.date(2010, 6, 15)    # a Tuesday
WATCH = ('ExpirationDate', 'FutureService', 'TooManyDaysWithoutService',
         'NoServiceExceptions')


def off(n):
  return fmt(TODAY + datetime.timedelta(days=n))


def dt(v):
  """Any of the date representations a problem may carry -> YYYYMMDD."""
  if isinstance(v, (int, float, long)):
    return time.strftime('%Y%m%d', time.localtime(v))
  if isinstance(v, datetime.date):
    return fmt(v)
  return str(v)


def observed(rec):
  out = []
  for e in rec.problems:
    n = e.__class__.__name__
    sev = feeds.ptype(e)
    if n == 'ExpirationDate':
      out.append((n, sev, dt(e.expiration)))
    elif n == 'FutureService':
      out.append((n, sev, dt(e.start_date)))
    elif n == 'TooManyDaysWithoutService':
      out.append((n, sev, dt(e.first_day_without_service),
                  dt(e.last_day_without_service),
                  int(e.consecutive_days_without_service)))
    elif n == 'NoServiceExceptions':
      out.append((n, sev, dt(e.start), dt(e.end)))
    elif n == 'OtherProblem' and 'effective service dates' in e.description:
      out.append(('NoEffectiveDates', sev))
  return sorted(out)


def expected(models, info, gap, today):
  """models: list of (Model, number of trips)."""
  rs = [m.range() for m, _ in models if m.range()[0]]
  if not rs:
    return [('NoEffectiveDates', 'W')]
  first = min(r[0] for r in rs)
  last = max(r[1] for r in rs)
  if info and info[0]:
    first = info[0]
  if info and info[1]:
    last = info[1]
  out = []
  f, l = day(first), day(last)
  if (l - f).days >= 182 and not any(m.exc for m, _ in models):
    out.append(('NoServiceExceptions', 'W', first, last))
  if (l - today).days < 60:
    out.append(('ExpirationDate', 'W', last))
  if f > today:
    out.append(('FutureService', 'W', first))
  if gap is not None:
    d = max(f, today - datetime.timedelta(days=gap - 1))
    end = min(l, today + datetime.timedelta(days=365))
    run = []
    while True:
      trips = (sum(n for m, n in models if m.active(fmt(d)))
               if d < end else None)
      if trips == 0:
        run.append(fmt(d))
      else:
        if len(run) >= gap:
          out.append(('TooManyDaysWithoutService', 'W', run[0], run[-1],
                      len(run)))
        run = []
      if d >= end:
        break
      d += datetime.timedelta(days=1)
  return sorted(out)


def build(services, info):
  """services: list of (start, end, mask, exceptions, trips[, stops])."""
  s = transitfeed.Schedule()
  s.AddAgency('a', 'http://a', 'Europe/Zurich')
  a = s.AddStop(40, 10, 'a', stop_id='a')
  b = s.AddStop(40.01, 10, 'b', stop_id='b')
  r = s.AddRoute('1', 'one', 'Bus')
  models = []
  for i, service in enumerate(services):
    lo, hi, mask, exc, trips = service[:5]
    stops = service[5] if len(service) > 5 else 2
    p = transitfeed.ServicePeriod('S%d' % i)
    m = Model()
    m.start, m.end = lo, hi
    p.SetStartDate(lo)
    p.SetEndDate(hi)
    for k in range(7):
      m.dow[k] = bool(mask >> k & 1)
      p.SetDayOfWeekHasService(k, m.dow[k])
    for d, e in exc:
      m.exc[d] = e
      p.SetDateHasService(d, e == 1)
    s.AddServicePeriodObject(p, validate=False)
    for t in range(trips):
      tr = r.AddTrip(s, service_period=p, trip_id='t%d-%d' % (i, t))
      if stops:
        tr.AddStopTime(a, stop_time='08:00:00')
      if stops > 1:
        tr.AddStopTime(b, stop_time='08:10:00')
    models.append((m, trips))
  if info:
    d = {'feed_publisher_name': 'x', 'feed_publisher_url': 'http://x',
         'feed_lang': 'en'}
    if info[0]:
      d['feed_start_date'] = info[0]
    if info[1]:
      d['feed_end_date'] = info[1]
    s.AddFeedInfoObject(transitfeed.FeedInfo(field_dict=d))
  return s, models


def judge(x, services, info, gap, what, validators=('full',)):
  s, models = build(services, info)
  pr, rec = feeds.reporter()
  s.Validate(problems=pr, today=TODAY, service_gap_interval=gap)
  got = observed(rec)
  want = expected(models, info, gap, TODAY)
  x.step()
  x.state(got)
  x.outcome('+'.join(sorted(set(g[0] for g in got))) or 'nothing')
  if got != want:
    kinds = set(g[0] for g in set(got) ^ set(want))
    x.fail('wrong:' + '+'.join(sorted(kinds)),
           '%r (today %s): got %r, want %r' % (what, fmt(TODAY), got, want))


STARTS = [-400, -181, -70, -9, -1, 0, 1, 5]
ENDS = [-30, -1, 0, 1, 59, 60, 61, 112, 181, 182, 183, 364, 365, 366, 380]
EXC = [(), ((-5, 1),), ((3, 2),), ((70, 1),)]
GAPS = [None, 1, 2, 6, 13]


def gen_single(tier):
  for a in STARTS:
    for b in ENDS:
      for mask in (127, 31, 64, 0):
        for e in range(len(EXC)):
          for g in GAPS if tier != 'quick' else GAPS[0::2] + [6]:
            if tier == 'quick' and e and (a not in (-70, -1, 5)):
              continue
            yield (a, b, mask, e, g, 1)
  for a, b in itertools.product((-9, 5), (0, 61)):
    for g in GAPS:
      yield (a, b, 127, 0, g, 0)


def run_single(x, case):
  a, b, mask, e, gap, trips = case
  exc = [(off(d), t) for d, t in EXC[e]]
  judge(x, [(off(a), off(b), mask, exc, trips)], None, gap, case)


def gen_days(tier):
  """Every activity pattern of nine days, as exceptions only."""
  n = 8 if tier == 'quick' else 10
  for pat in itertools.product((0, 1), repeat=n):
    for gap in (1, 2, 3):
      for shift in (-4, 0, 2) if tier == 'quick' else (-8, -4, -2, 0, 2):
        yield (pat, gap, shift, 2)
      # trips that visit one stop or none are trips
      for stops in (0, 1):
        yield (pat, gap, gap - 2, stops)


def run_days(x, case):
  pat, gap, shift, stops = case
  exc = [(off(i + shift), 1) for i, v in enumerate(pat) if v]
  judge(x, [(None, None, 0, exc, 1, stops)], None, gap, case)


INFOS = [None, (None, None), (-20, None), (3, None), (None, 30), (None, 200),
         (-100, 82), (-100, 81), (-3, 400)]
SERVICES = [
    (None, None, 0, (), 1), (-10, 100, 127, (), 1), (-10, 100, 31, (), 0),
    (20, 70, 127, ((25, 2),), 1), (None, None, 0, ((10, 1), (300, 1)), 1),
    (-10, 10, 96, ((-10, 2),), 2), (30, 400, 1, (), 1)]


def gen_mixed(tier):
  for i in range(len(INFOS)):
    for k in (0, 1, 2):
      for combo in itertools.combinations(range(len(SERVICES)), k):
        for g in (None, 7, 14):
          yield (i, combo, g)


def run_mixed(x, case):
  i, combo, gap = case
  conv = lambda v: None if v is None else off(v)
  info = INFOS[i] and tuple(conv(v) for v in INFOS[i])
  services = []
  for c in combo:
    lo, hi, mask, exc, trips = SERVICES[c]
    services.append((conv(lo), conv(hi), mask,
                     [(off(d), e) for d, e in exc], trips))
  judge(x, services, info, gap, case)


SCENARIOS = [
    Scenario('single', gen_single, run_single,
             bound='one service: 8 starts x 15 ends x 4 weekday sets x 4 '
                   'exception sets x gap lengths'),
    Scenario('days', gen_days, run_days,
             bound='every activity pattern of 8 (10) days x 3 gap lengths x '
                   'positions of the validation date; trips '
                   'with 2, 1 or no stops'),
    Scenario('mixed', gen_mixed, run_mixed,
             bound='up to two of 7 services (with 0-2 trips) x 9 feed info '
                   'ranges x 3 gap lengths'),
]
