# -*- coding: utf-8 -*-
"""C18: a dated merge switches from the old to the new service at the cutoff.

Service periods over a window of a few days are enumerated with all start/end
dates (and none), day masks and exceptions; every cutoff in and around the
window is applied by the real merger, and the active dates are compared with
those of the rows, cut at the date."""
import datetime
import itertools
import os
import shutil
import sys
import tempfile

import transitfeed
import merge
from core import Scenario
from feeds import Feed, T, base, load, reporter, text
import feeds

FMT = '%Y%m%d'
WEEKDAYS = ('monday', 'tuesday', 'wednesday', 'thursday', 'friday',
            'saturday', 'sunday')


def day(d0, k):
  d = datetime.date(*d0) + datetime.timedelta(k)
  return '%04d%02d%02d' % (d.year, d.month, d.day)


def dt(s):
  return datetime.date(int(s[:4]), int(s[4:6]), int(s[6:]))


# a config is (start, end, mask, exceptions): offsets from the first day of the
# window (start None: no regular service), a mask of seven week days and the
# exceptions ((offset, type), ...)
MASKS = {'all': (1,) * 7, 'none': (0,) * 7, 'alt': (1, 0, 1, 0, 1, 0, 1),
         'mon': (1, 0, 0, 0, 0, 0, 0)}


def active(d0, c):
  """Dates on which the config is in service."""
  start, end, mask, exc = c
  out = set()
  if start is not None:
    for k in range(start, end + 1):
      if MASKS[mask][dt(day(d0, k)).weekday()]:
        out.add(day(d0, k))
  for k, t in exc:
    (out.add if t == 1 else out.discard)(day(d0, k))
  return sorted(out)


def span(d0, c):
  """The documented range: regular service and added dates."""
  start, end, mask, exc = c
  ds = [] if start is None else [day(d0, start), day(d0, end)]
  ds += [day(d0, k) for k, t in exc if t == 1]
  return (min(ds), max(ds)) if ds else None


def service(d0, sid, c):
  start, end, mask, exc = c
  p = transitfeed.ServicePeriod(sid)
  if start is not None:
    p.SetStartDate(day(d0, start))
    p.SetEndDate(day(d0, end))
  for i, v in enumerate(MASKS[mask]):
    p.SetDayOfWeekHasService(i, bool(v))
  for k, t in exc:
    p.SetDateHasService(day(d0, k), t == 1)
  return p


def observed(d0, p, lo, hi):
  """Active dates according to the period itself, asked in every way."""
  one = sorted(p.ActiveDates())
  two = [day(d0, k) for k in range(lo, hi) if p.IsActiveOn(day(d0, k))]
  return one, two


def merger(acs, bcs, d0, same_ids=True):
  a, b = [transitfeed.Schedule(memory_db=True,
                               problem_reporter=reporter()[0])
          for _ in 'ab']
  sa, sb = [], []
  for s, cs, out, pre in ((a, acs, sa, 'S'),
                          (b, bcs, sb, 'S' if same_ids else 'N')):
    for i, c in enumerate(cs):
      p = service(d0, '%s%d' % (pre, i), c)
      s.AddServicePeriodObject(p)
      out.append(p)
  rec = feeds.Recorder()
  fm = merge.FeedMerger(
      a, b, transitfeed.Schedule(memory_db=True,
                                 problem_reporter=reporter()[0]),
      merge.MergeProblemReporter(rec))
  spm = merge.ServicePeriodMerger(fm)
  fm.AddMerger(spm)
  return fm, spm, sa, sb, rec


def check_range(x, p, want, lo, hi, key):
  """The reported range lies within [lo, hi] and covers the active dates."""
  s, e = p.GetDateRange()
  if not s and not e:
    x.check(not want, key, 'no range but active on %r' % (want,))
    return
  ok = (isinstance(s, basestring) and isinstance(e, basestring) and
        len(s) == 8 and len(e) == 8 and lo <= s <= e <= hi and
        (not want or s <= want[0] and want[-1] <= e))
  x.check(ok, key, 'range %r..%r, allowed %s..%s, active %r' % (
      s, e, lo, hi, want))


CUT_BASES = [(2010, 3, 10), (2011, 12, 29), (2012, 2, 27)]


def configs(n, max_exc, masks):
  spans = [(None, None)] + [(i, j) for i in range(n) for j in range(i, n)]
  excs = [()]
  for k in range(1, max_exc + 1):
    for pos in itertools.combinations(range(n), k):
      for ts in itertools.product((1, 2), repeat=k):
        excs.append(tuple(zip(pos, ts)))
  for s, e in spans:
    for m in masks:
      if s is None and m != 'none':
        continue
      for ex in excs:
        yield (s, e, m, ex)


def gen_cutoff(tier):
  n = 4 if tier == 'quick' else 5
  for bi, b in enumerate(CUT_BASES):
    me = 2 if tier == 'quick' else 4
    for c in configs(n, me if bi == 0 else 1, ('all', 'alt', 'none')):
      for cut in range(-1, n + 2):
        yield (b, c, cut)
  # weeks on either side of the window
  for c in configs(3, 1, ('all', 'mon')):
    for cut in (-400, -31, 35, 366):
      yield (CUT_BASES[0], c, cut)


def run_cutoff(x, case):
  d0, c, cut = case
  cutoff = day(d0, cut)
  before = day(d0, cut - 1)
  fm, spm, sa, sb, rec = merger([c], [c], d0, same_ids=(cut % 2 == 0))
  act = active(d0, c)
  wa = [d for d in act if d < cutoff]
  wb = [d for d in act if d >= cutoff]
  for p in sa + sb:
    x.eq(observed(d0, p, -3, 9), (act, act), 'input', 'active dates at first')
  spm.DisjoinCalendars(cutoff)
  x.step()
  for p, want, side, lo, hi in ((sa[0], wa, 'old', '', before),
                                (sb[0], wb, 'new', cutoff, '99999999')):
    one, two = observed(d0, p, -3, 9)
    x.eq(one, want, 'active:' + side, 'ActiveDates of the %s service with '
         'cutoff %s' % (side, cutoff))
    x.eq(two, want, 'isactive:' + side, 'IsActiveOn of the %s service with '
         'cutoff %s' % (side, cutoff))
    check_range(x, p, want, lo, hi, 'range:' + side)
  x.check(spm.CheckDisjointCalendars(), 'still-overlap', 'cutoff %s' % cutoff)
  ok = fm.MergeSchedules()
  x.step()
  if not x.check(ok, 'refused', 'merge refused after the cutoff'):
    return
  out = fm.GetMergedSchedule()
  x.eq(len(out.GetServicePeriodList()), 2, 'count', 'service periods')
  for mp, p, want, side, lo, hi in (
      (fm.a_merge_map, sa[0], wa, 'old', '', before),
      (fm.b_merge_map, sb[0], wb, 'new', cutoff, '99999999')):
    q = mp.get(p)
    if not x.check(q is not None and q in out.GetServicePeriodList(),
                   'lost:' + side, 'not in the merged feed'):
      continue
    x.eq(observed(d0, q, -3, 9), (want, want), 'merged:' + side,
         'active dates, cutoff %s' % cutoff)
    check_range(x, q, want, lo, hi, 'merged-range:' + side)
  x.state((wa, wb))
  x.outcome('%s/%s' % ('some' if wa else 'none', 'some' if wb else 'none'))


# --- several services; recognising overlap ----------------------------------
FEW = [(None, None, 'none', ()), (None, None, 'none', ((1, 1),)),
       (None, None, 'none', ((3, 1), (0, 2))), (0, 1, 'all', ()),
       (2, 3, 'all', ()), (1, 2, 'none', ()), (0, 0, 'all', ((3, 1),)),
       (3, 4, 'mon', ((4, 2),)), (1, 1, 'all', ((1, 2),)),
       (2, 4, 'all', ((0, 1),)), (4, 4, 'alt', ()), (0, 4, 'all', ()),
       (None, None, 'none', ((2, 2),))]


def gen_disjoint(tier):
  n = 3 if tier == 'quick' else 4
  cs = list(configs(n, 1, ('all', 'none') if tier == 'quick' else
                    ('all', 'alt', 'none')))
  for a in cs:
    for b in cs:
      yield (CUT_BASES[0], (a,), (b,))
  for k, l in ((2, 1), (1, 2), (2, 2)):
    if tier == 'quick' and k + l == 4:
      continue
    for a in itertools.product(FEW, repeat=k):
      for b in itertools.product(FEW, repeat=l):
        yield (CUT_BASES[1], a, b)
  for a in FEW:
    yield (CUT_BASES[2], (), (a,))
    yield (CUT_BASES[2], (a,), ())


def overlap(d0, acs, bcs):
  for a in acs:
    for b in bcs:
      s, t = span(d0, a), span(d0, b)
      if s and t and max(s[0], t[0]) <= min(s[1], t[1]):
        return True
  return False


def run_disjoint(x, case):
  d0, acs, bcs = case
  fm, spm, sa, sb, rec = merger(acs, bcs, d0)
  want = not overlap(d0, acs, bcs)
  got = spm.CheckDisjointCalendars()
  x.step()
  x.eq(bool(got), want, 'disjoint', 'CheckDisjointCalendars')
  if not want and set(d for c in acs for d in active(d0, c)) & set(
      d for c in bcs for d in active(d0, c)):
    x.outcome('common dates')
  ok = fm.MergeSchedules()
  x.step()
  x.eq(bool(ok), want, 'merge', 'MergeSchedules')
  names = [e.__class__.__name__ for e in rec.problems]
  x.eq('CalendarsNotDisjoint' in names, not want, 'report', repr(names))
  if not want and not ok:
    # on request, overlapping calendars are merged all the same
    fm, spm, sa, sb, rec = merger(acs, bcs, d0)
    spm.require_disjoint_calendars = False
    x.check(fm.MergeSchedules(), 'not-required', 'refused all the same')
    x.step()
    x.check('CalendarsNotDisjoint' not in
            [e.__class__.__name__ for e in rec.problems], 'report',
            'CalendarsNotDisjoint although not required')
    ok = True
  if ok:
    out = fm.GetMergedSchedule().GetServicePeriodList()
    x.eq(len(out), len(acs) + len(bcs), 'count', 'service periods')
    for mp, ps, cs in ((fm.a_merge_map, sa, acs), (fm.b_merge_map, sb, bcs)):
      for p, c in zip(ps, cs):
        q = mp.get(p)
        if x.check(q is not None and q in out, 'lost', 'not in merged feed'):
          act = active(d0, c)
          x.eq(observed(d0, q, -3, 9), (act, act), 'unchanged',
               'active dates')
  x.state((sorted(span(d0, c) for c in acs), sorted(span(d0, c) for c in bcs)))
  x.outcome('disjoint' if want else 'overlap')


def gen_several(tier):
  for k in (2,) if tier == 'quick' else (2, 3):
    for a in itertools.combinations(FEW, k):
      for b in itertools.combinations(FEW, 2):
        if tier == 'quick' and FEW.index(a[0]) > FEW.index(b[0]):
          continue
        for cut in (0, 2, 4) if tier == 'quick' else range(-1, 6):
          yield (CUT_BASES[0], a, b, cut)


def run_several(x, case):
  d0, acs, bcs, cut = case
  fm, spm, sa, sb, rec = merger(acs, bcs, d0)
  cutoff = day(d0, cut)
  spm.DisjoinCalendars(cutoff)
  x.step()
  if not x.check(fm.MergeSchedules(), 'refused', 'refused after the cutoff'):
    return
  for mp, ps, cs, keep in (
      (fm.a_merge_map, sa, acs, lambda d: d < cutoff),
      (fm.b_merge_map, sb, bcs, lambda d: d >= cutoff)):
    for p, c in zip(ps, cs):
      want = [d for d in active(d0, c) if keep(d)]
      x.eq(observed(d0, mp[p], -3, 9), (want, want), 'several',
           'active dates of %r with cutoff %s' % (c, cutoff))
  x.state((case[1], case[2], cut))
  x.outcome('cut')


# --- the program, from files to a file ---------------------------------------
def feed_of(d0, cs, tag):
  f = base()
  t = f.tables
  for n in ('calendar.txt', 'calendar_dates.txt', 'feed_info.txt',
            'frequencies.txt'):
    del t[n]
  t['calendar.txt'] = T('service_id,start_date,end_date,' +
                        ','.join(WEEKDAYS))
  t['calendar_dates.txt'] = T('service_id,date,exception_type')
  trips, times = t['trips.txt'], t['stop_times.txt']
  trips.rows = []
  times.rows = []
  blank = lambda tab: dict((c, u'') for c in tab.cols)
  for i, (start, end, mask, exc) in enumerate(cs):
    sid = u'S%d' % i
    if start is not None:
      r = dict(zip(t['calendar.txt'].cols, [sid, day(d0, start), day(d0, end)] +
                   [str(v) for v in MASKS[mask]]))
      t['calendar.txt'].rows.append(dict((k, text(v)) for k, v in r.items()))
    for k, e in exc:
      t['calendar_dates.txt'].rows.append(
          {'service_id': sid, 'date': text(day(d0, k)),
           'exception_type': text(e)})
    d = blank(trips)
    d.update(route_id=u'R1', service_id=sid, trip_id=u'T%d' % i,
             trip_headsign=u'%s%d' % (tag, i))
    trips.rows.append(d)
    for q, s in enumerate(('S1', 'S2')):
      d = blank(times)
      d.update(trip_id=u'T%d' % i, arrival_time=u'08:0%d:00' % (i + q * 3),
               departure_time=u'08:0%d:00' % (i + q * 3), stop_id=text(s),
               stop_sequence=text(q))
      times.rows.append(d)
  return f


RUN_SETS = [
    [(0, 4, 'all', ())], [(0, 1, 'all', ()), (3, 4, 'all', ())],
    [(0, 4, 'alt', ((1, 1), (2, 2)))],
    [(None, None, 'none', ((0, 1), (2, 1), (4, 1))), (2, 2, 'all', ())],
    [(0, 0, 'all', ()), (None, None, 'none', ((4, 1),))],
    [(0, 4, 'all', ()), (4, 4, 'all', ((0, 1), (4, 2)))],
]


def gen_runs(tier):
  for a in range(len(RUN_SETS)):
    for b in range(len(RUN_SETS)):
      for cut in (None, 0, 2, 4) if tier == 'quick' else (
          None, -1, 0, 1, 2, 3, 4, 5):
        yield (a, b, cut)


def run_runs(x, case):
  ia, ib, cut = case
  d0 = CUT_BASES[2]
  A, B = RUN_SETS[ia], RUN_SETS[ib]
  d = tempfile.mkdtemp()
  try:
    for n, f in (('a.zip', feed_of(d0, A, 'old')),
                 ('b.zip', feed_of(d0, B, 'new'))):
      h = open(os.path.join(d, n), 'wb')
      h.write(f.zip())
      h.close()
    argv = sys.argv
    sys.argv = ['merge.py', '--no_browser', '-m', '--latest_version=' +
                transitfeed.__version__, '--html_output_path=' +
                os.path.join(d, 'r.html')] + (
                    ['--cutoff_date=' + day(d0, cut)] if cut is not None else
                    []) + [os.path.join(d, n)
                           for n in ('a.zip', 'b.zip', 'm.zip')]
    try:
      merge.main()
    finally:
      sys.argv = argv
    x.step()
    m = os.path.join(d, 'm.zip')
    want = cut is not None or not overlap(d0, A, B)
    html = open(os.path.join(d, 'r.html')).read()
    x.eq('not disjoint' in html.replace('\n', ' '), not want, 'html',
         'the report says that the calendars are not disjoint')
    if not x.check(os.path.exists(m) == want, 'file',
                   'merged feed written: %r' % os.path.exists(m)):
      return
    if not want:
      x.outcome('refused')
      return
    s, r = load(open(m, 'rb').read())
    bad = [e for e in r.keys() if e[1] == 'E']
    x.check(not bad, 'file-errors', repr(bad))
    got = {}
    for t in s.GetTripList():
      got.setdefault(text(t.trip_headsign), []).append(
          sorted(s.GetServicePeriod(t.service_id).ActiveDates()))
    exp = {}
    for tag, cs, keep in (
        ('old', A, lambda q: cut is None or q < day(d0, cut)),
        ('new', B, lambda q: cut is None or q >= day(d0, cut))):
      for i, c in enumerate(cs):
        exp['%s%d' % (tag, i)] = [[q for q in active(d0, c) if keep(q)]]
    x.eq(got, exp, 'dates', 'active dates of the trips, cutoff %r' % (
        cut is not None and day(d0, cut),))
    x.state(sorted(exp.items()))
    x.outcome('merged')
  finally:
    shutil.rmtree(d)


SCENARIOS = [
    Scenario('cutoff', gen_cutoff, run_cutoff,
             bound='one service per feed over a window of 4 (thorough 5) days '
                   'at 3 places of the calendar, at most 2 exceptions, every '
                   'cutoff around the window'),
    Scenario('disjoint', gen_disjoint, run_disjoint,
             bound='all pairs of single services over 3 (thorough 4) days; up to 3 '
                   'services from 13 in both feeds'),
    Scenario('several', gen_several, run_several,
             bound='pairs of services from 13 on either side, 3 cutoffs'),
    Scenario('runs', gen_runs, run_runs,
             bound='6 x 6 feeds, with and without cutoff, through merge.py'),
]
