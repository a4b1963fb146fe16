# -*- coding: utf-8 -*-
"""C03: service periods against a set-of-dates model."""
import datetime
import itertools

import transitfeed

import feeds
from core import Scenario

DAYS = ('monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday',
        'sunday')


def day(s):
  return datetime.date(int(s[:4]), int(s[4:6]), int(s[6:]))


def fmt(d):
  return '%04d%02d%02d' % (d.year, d.month, d.day)


def window(origin, a, b):
  d0 = day(origin)
  return [fmt(d0 + datetime.timedelta(days=i)) for i in range(a, b)]


class Model(object):
  def __init__(self):
    self.start = self.end = None
    self.dow = [False] * 7
    self.exc = {}
    self.id = 'S'

  def active(self, d):
    if d in self.exc:
      return self.exc[d] == 1
    return bool(self.start and self.end and self.start <= d <= self.end and
                self.dow[day(d).weekday()])

  def range(self):
    lo = [v for v in [self.start] if v]
    hi = [v for v in [self.end] if v]
    add = [d for d, e in self.exc.items() if e == 1]
    start = min(lo + add) if lo + add else None
    end = max(hi + add) if hi + add else None
    if start is None:
      start = end
    if end is None:
      end = start
    return (start, end)


def compare(x, p, m, win, when, outside=()):
  act = [d for d in win if m.active(d)]
  got = [d for d in win if p.IsActiveOn(d)]
  x.eq(got, act, 'IsActiveOn', when)
  got = [d for d in win if p.IsActiveOn(d, day(d))]
  x.eq(got, act, 'IsActiveOn-with-object', when)
  for d in outside:
    x.eq(bool(p.IsActiveOn(d)), m.active(d), 'IsActiveOn-far', when + ' ' + d)
  x.eq(tuple(p.GetDateRange()), m.range(), 'GetDateRange', when)
  got = p.ActiveDates()
  x.eq(got, act, 'ActiveDates', when)
  for d in win:
    e = m.exc.get(d)
    x.eq(bool(p.HasDateExceptionOn(d)), e == 1, 'HasDateExceptionOn',
         '%s %s' % (when, d))
    x.eq(bool(p.HasDateExceptionOn(d, 2)), e == 2,
         'HasDateExceptionOn-removed', '%s %s' % (when, d))
  x.eq(bool(p.HasExceptions()), bool(m.exc), 'HasExceptions', when)
  x.eq(bool(p.HasDateExceptionTypeAdded()), 1 in m.exc.values(),
       'HasDateExceptionTypeAdded', when)
  x.eq([getattr(p, n) for n in DAYS], [int(v) for v in m.dow], 'weekdays',
       when)
  x.eq([p[n] for n in DAYS], [int(v) for v in m.dow], 'weekday-items', when)
  x.eq(sorted((s, d, int(e)) for s, d, e in
              p.GetCalendarDatesFieldValuesTuples()),
       sorted((m.id, d, e) for d, e in m.exc.items()), 'exception-tuples',
       when)
  row = p.GetCalendarFieldValuesTuple()
  if m.start and m.end:
    x.eq(list(row), [m.id, m.start, m.end] +
         [int(v) for v in m.dow], 'calendar-tuple', when)
  else:
    x.check(not row, 'calendar-tuple', when)
  x.step()
  x.state((m.start, m.end, m.dow, m.exc, got))


ORIGINS = ['20120228', '20101231', '21000301', '20100704']
MASKS = [0, 1, 2, 4, 8, 16, 32, 64, 127, 31, 96, 85, 42]


def gen_calendar(tier):
  """Ranges x weekday masks x exceptions on 4 dates around the borders."""
  ranges = [(None, None), (-1, 2), (0, 0), (0, 8), (3, -2), (None, 2),
            (-1, None), (0, 1)]
  for o in ORIGINS if tier != 'quick' else ORIGINS[:2]:
    for r in ranges:
      for mask in MASKS if tier == 'quick' else range(128):
        for exc in itertools.product((0, 1, 2), repeat=3):
          yield (o, r, mask, exc)


def run_calendar(x, case):
  o, (a, b), mask, exc = case
  win = window(o, -14, 16)
  at = lambda i: None if i is None else win[14 + i]
  m = Model()
  m.start, m.end = at(a), at(b)
  p = transitfeed.ServicePeriod('S')
  p.SetStartDate(m.start)
  p.SetEndDate(m.end)
  for i in range(7):
    m.dow[i] = bool(mask >> i & 1)
    p.SetDayOfWeekHasService(i, m.dow[i])
  for off, e in zip((-3, 1, 6), exc):
    if e:
      m.exc[at(off)] = e
      p.SetDateHasService(at(off), e == 1)
  compare(x, p, m, win, repr(case), ('19700101', '20991231'))
  x.outcome('active%d' % min(3, len(p.ActiveDates())))


def gen_loaded(tier):
  for mask in range(128):
    yield ((0, 8), mask, (0, 0, 0))
  for exc in itertools.product((0, 1, 2), repeat=4 if tier != 'quick' else 3):
    for mask in (127, 31, 0):
      yield ((-1, 3), mask, exc)
      yield (None, mask, exc)
  yield ((0, 1), 127, (1, 2, 1))
  yield ((1, 1), 127, (0, 0, 0))


def run_loaded(x, case):
  rng, mask, exc = case
  win = window('20120228', -14, 16)
  at = lambda i: win[14 + i]
  m = Model()
  f = feeds.base()
  if rng is not None:
    m.start, m.end = at(rng[0]), at(rng[1])
    m.dow = [bool(mask >> i & 1) for i in range(7)]
    f['calendar.txt'].rows[0].update(
        [('start_date', feeds.U(m.start)), ('end_date', feeds.U(m.end))] +
        [(n, u'1' if v else u'0') for n, v in zip(DAYS, m.dow)])
  else:
    f['calendar.txt'].rows.pop(0)
    if not any(exc):
      x.outcome('no-service')
      return
  rows = f['calendar_dates.txt'].rows
  del rows[:2]
  for off, e in zip((-3, 1, 6, -1), exc):
    if e:
      m.exc[at(off)] = e
      rows.insert(off % 2, {'service_id': u'WK', 'date': feeds.U(at(off)),
                            'exception_type': unicode(e)})
  s, rec = feeds.load(f)
  x.check(not [k for k in rec.keys() if k[1] == 'E'], 'load-errors',
          lambda: '%r %r' % (case, rec.keys()))
  m.id = 'WK'
  compare(x, s.GetServicePeriod('WK'), m, win, repr(case))
  x.outcome('loaded')


OPS = ([('start', i) for i in (None, 0, 4)] + [('end', i) for i in (None, 0, 5)]
       + [('dow', i, v) for i in (0, 5) for v in (1, 0)] +
       [('week', 1), ('week', 0), ('weekend', 1), ('weekend', 0)] +
       [('date', i, v) for i in (-2, 2, 7) for v in (1, 0)] +
       [('reset', -2), ('reset', 2)])


def gen_edits(tier):
  n = 3 if tier == 'quick' else 4
  for first in (0, 1):
    for w in itertools.product(OPS, repeat=n):
      yield (first, w)


def run_edits(x, case):
  first, ops = case
  win = window('20120228', -7, 12)
  at = lambda i: None if i is None else win[7 + i]
  m = Model()
  p = transitfeed.ServicePeriod('S' if first else None)
  p.SetServiceId('S')
  if first:
    m.start, m.end, m.dow = at(0), at(5), [True] * 7
    p.SetStartDate(at(0))
    p.SetEndDate(at(5))
    p.SetWeekdayService()
    p.SetWeekendService()
  for k, op in enumerate(ops):
    if op[0] == 'start':
      m.start = at(op[1])
      p.SetStartDate(m.start)
    elif op[0] == 'end':
      m.end = at(op[1])
      p.SetEndDate(m.end)
    elif op[0] == 'dow':
      m.dow[op[1]] = bool(op[2])
      if op == ('dow', 5, 1):
        p.SetDayOfWeekHasService(op[1])     # service is the default
      else:
        p.SetDayOfWeekHasService(op[1], bool(op[2]))
    elif op[0] == 'week':
      m.dow[:5] = [bool(op[1])] * 5
      p.SetWeekdayService(bool(op[1]))
    elif op[0] == 'weekend':
      m.dow[5:] = [bool(op[1])] * 2
      p.SetWeekendService(bool(op[1]))
    elif op[0] == 'date':
      m.exc[at(op[1])] = 1 if op[2] else 2
      if op[1:] == (2, 1):
        p.SetDateHasService(at(op[1]))      # service is the default
      else:
        p.SetDateHasService(at(op[1]), bool(op[2]))
    else:
      m.exc.pop(at(op[1]), None)
      p.ResetDateToNormalService(at(op[1]))
    x.step()
    if k >= 1 or ops[0] == op:
      compare(x, p, m, win, repr((first, ops[:k + 1])))
    if x.case_failures:
      return
  x.outcome('active%d' % min(3, len(p.ActiveDates())))


KINDS = [((None, None), 0, ()), ((0, 5), 127, ()), ((0, 5), 31, ()),
         ((0, 4), 127, ()), ((1, 5), 127, ()), ((0, 5), 127, ((1, 1),)),
         ((0, 5), 127, ((1, 2),)), ((0, 5), 127, ((2, 2),)),
         ((None, None), 0, ((1, 1),)), ((None, None), 0, ((1, 1), (2, 1))),
         ((0, 5), 127, ((1, 2), (2, 1)))]


def gen_equal(tier):
  for a in range(len(KINDS)):
    for b in range(len(KINDS)):
      for same_id in (0, 1):
        yield (a, b, same_id)


def run_equal(x, case):
  a, b, same_id = case
  win = window('20120228', 0, 12)
  ps = []
  for i, k in enumerate((a, b)):
    (lo, hi), mask, exc = KINDS[k]
    p = transitfeed.ServicePeriod('S' if same_id or not i else 'S2')
    if lo is not None:
      p.SetStartDate(win[lo])
      p.SetEndDate(win[hi])
    for d in range(7):
      p.SetDayOfWeekHasService(d, bool(mask >> d & 1))
    # insertion order must not matter
    for d, e in (exc if not i else tuple(reversed(exc))):
      p.SetDateHasService(win[d], e == 1)
    ps.append(p)
  x.step()
  # a period without any date has no rows, hence no identifier to compare
  want = a == b and (bool(same_id) or a == 0)
  x.eq(bool(ps[0] == ps[1]), want, 'equality', repr(case))
  x.eq(bool(ps[0] != ps[1]), not want, 'inequality', repr(case))
  x.check(ps[0] == ps[0] and not ps[0] != ps[0], 'equality-self', repr(case))
  x.state(case)
  x.outcome('eq%d' % want)


SCENARIOS = [
    Scenario('calendar', gen_calendar, run_calendar,
             bound='8 date ranges x 13 (thorough 128) weekday sets x all '
                   'exceptions on 3 dates x 2 (4) origins, each asked about '
                   '30 days'),
    Scenario('loaded', gen_loaded, run_loaded,
             bound='all 128 weekday sets and all exceptions on 3 (4) dates, '
                   'loaded from calendar.txt and calendar_dates.txt'),
    Scenario('edits', gen_edits, run_edits,
             bound='all words of 3 (4) edits over 24 operations from an empty '
                   'and a full period, observed at every step'),
    Scenario('equal', gen_equal, run_equal,
             bound='all pairs of 11 periods'),
]
