# -*- coding: utf-8 -*-
"""C30: validation and merge reports state the feeds' contents and results."""
import StringIO
import datetime
import itertools
import os
import re
import shutil
import sys
import tempfile

import transitfeed
import feedvalidator
import merge

from core import Scenario, words
from props import c17

DAY = datetime.timedelta(days=1)
ABC = ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')
MON = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
       'Nov', 'Dec')
MONTHS = ('January', 'February', 'March', 'April', 'May', 'June', 'July',
          'August', 'September', 'October', 'November', 'December')


def short(d):
  return '%s %s %02d' % (ABC[d.weekday()], MON[d.month - 1], d.day)


def ymd(d):
  return '%04d%02d%02d' % (d.year, d.month, d.day)


def long_date(s):
  if re.match(r'\d{8}$', s) and s >= '1900':
    try:
      d = datetime.date(int(s[:4]), int(s[4:6]), int(s[6:]))
    except ValueError:
      return s
    return '%s %02d, %d' % (MONTHS[d.month - 1], d.day, d.year)
  return s


def plain(html):
  """The text of a page, one line per block."""
  if isinstance(html, str):
    html = html.decode('utf-8')
  html = re.sub(r'(?s)<style.*?</style>|<title.*?</title>', '', html)
  html = re.sub(r'<br/?>|</p>|</tr>|</li>|</h\d>|</table>|</div>', '\n', html)
  html = re.sub(r'</t[dh]>|<th[^>]*/>', '\t', html)
  html = re.sub(r'<[^>]*>', '', html)
  return html


def report(schedule, path='/a/feed.zip', extension=None, problems=()):
  acc = feedvalidator.HTMLCountingProblemAccumulator(5)
  for p in problems:
    acc._Report(p)
  f = StringIO.StringIO()
  acc.WriteOutput(path, f, schedule, extension)
  return f.getvalue()


def field(text, label):
  m = re.findall(r'(?m)^\s*%s:\t(.*?)\t?\s*$' % re.escape(label), text)
  return m[0] if len(m) == 1 else m


def names(dates):
  if not dates:
    return '0 service dates'
  s = [short(d) for d in dates[:3]] + (['...'] if len(dates) > 3 else [])
  return '%d service date%s (%s)' % (len(dates), '' if len(dates) == 1 else
                                     's', ', '.join(s))


def upcoming(services, trips, today, first, last):
  """[(date, runs)] for the dates of the summary.

  services: sid -> function date -> bool; trips: [(sid, runs)]."""
  d = max(today, first)
  end = min(today + 60 * DAY, last)
  out = []
  while d < end:
    out.append((d, sum(n for sid, n in trips if services[sid](d))))
    d += DAY
  return out


def check_summary(x, text, days, what):
  if not days:
    for label in ('Average trips per date', 'Most trips on a date',
                  'Least trips on a date'):
      x.check(label not in text, 'summary-absent', what)
    x.check('upcoming service dates' not in text, 'summary-absent', what)
    return
  m = re.findall(r'During the upcoming service dates (.*) to (.*):', text)
  x.eq(m, [(short(days[0][0]), short(days[-1][0]))], 'summary-range', what)
  ns = [n for _, n in days]
  x.eq(field(text, 'Average trips per date'), str(sum(ns) // len(ns)),
       'average', what)
  for label, n in (('Most trips on a date', max(ns)),
                   ('Least trips on a date', min(ns))):
    x.eq(field(text, label), '%d, on %s' % (
        n, names([d for d, k in days if k == n])), label, what)


# ---- upcoming service -------------------------------------------------------------
OFFS = (-400, -60, -2, -1, 0, 1, 2, 3, 4, 6, 30, 58, 59, 60, 61, 62, 300)
EXCS = ((), ((0, 1),), ((0, 2), (1, 2)), ((2, 1), (3, 2)), ((59, 1), (60, 1)),
        ((-1, 1), (1, 2), (61, 1)))
# trips: (service, stops, frequency (runs))
TRIPS = ((), (('A', 2, ()),), (('A', 0, ()), ('B', 2, ())),
         (('A', 2, (3,)), ('B', 2, ()), ('B', 1, (2, 4))),
         (('A', 2, ()), ('A', 2, ()), ('B', 2, (5,))))
MASKS = (127, 0, 31, 96, 36)


def gen_upcoming(tier):
  i = 0
  for a, b in itertools.combinations_with_replacement(OFFS, 2):
    for mask in MASKS:
      for e in range(len(EXCS)):
        for t in range(len(TRIPS)):
          i += 1
          if tier != 'quick' or (i % 5 == 0) or (t == 3 and mask == 31):
            yield (a, b, mask, e, t)


def build(spec, today):
  """A schedule and its services; spec: sid -> (start, end, mask, excs)."""
  s = transitfeed.Schedule()
  services = {}
  lo, hi = [], []
  for sid in sorted(spec):
    a, b, mask, excs = spec[sid]
    p = transitfeed.ServicePeriod(sid)
    for w in range(7):
      p.SetDayOfWeekHasService(w, bool(mask >> w & 1))
    ex = {}
    for d, k in excs:
      ex[today + d * DAY] = k
      p.SetDateHasService(ymd(today + d * DAY), k == 1)
    if a is not None:
      p.SetStartDate(ymd(today + a * DAY))
      p.SetEndDate(ymd(today + b * DAY))
      lo.append(today + a * DAY)
      hi.append(today + b * DAY)
    for d in ex:
      if ex[d] == 1:
        lo.append(d)
        hi.append(d)
    s.AddServicePeriodObject(p, validate=False)

    def active(d, a=a, b=b, mask=mask, ex=ex):
      if d in ex:
        return ex[d] == 1
      return (a is not None and today + a * DAY <= d <= today + b * DAY and
              bool(mask >> d.weekday() & 1))
    services[sid] = active
  return s, services, (min(lo) if lo else None), (max(hi) if hi else None)


def add_trips(s, trips, nroutes=1):
  stops = [s.AddStop(36.1 + i * 0.01, -116.1, 'Stop %d' % i) for i in range(2)]
  routes = [s.AddRoute('r%d' % i, 'Route %d' % i, 'Bus')
            for i in range(nroutes)]
  out = []
  for i, (sid, n, freqs) in enumerate(trips):
    t = routes[i % nroutes].AddTrip(s, service_period=s.GetServicePeriod(sid))
    for k in range(n):
      t.AddStopTime(stops[k], stop_time='08:%02d:00' % (10 * k))
    at = 36000
    for f in freqs:
      t.AddFrequency(at, at + 600 * f, 600)
      at += 600 * f
    out.append((sid, sum(freqs) or 1))
  return out


def with_today(run):
  """Runs run(x, case) again if midnight passed meanwhile."""
  def g(x, case):
    today = datetime.date.today()
    before = list(x.case_failures)
    run(x, case, today)
    if datetime.date.today() != today:
      x.case_failures[:] = before
      run(x, case, datetime.date.today())
  return g


def run_upcoming(x, case, today):
  a, b, mask, e, t = case
  s, services, lo, hi = build({'A': (a, b, mask, EXCS[e]),
                               'B': (1, 9, 85, ((4, 2),))}, today)
  trips = add_trips(s, TRIPS[t])
  text = plain(report(s))
  x.step()
  days = upcoming(services, trips, today, lo, hi)
  check_summary(x, text, days, repr(case))
  x.eq(field(text, 'Effective'), '%s to %s' % (long_date(ymd(lo)),
                                               long_date(ymd(hi))),
       'effective', repr(case))
  x.state([n for _, n in days])
  x.outcome('days%d' % min(len(days), 5))


# ---- effective dates ----------------------------------------------------------------
INFO = (None, '', '19000101', '20100131', '20240229', '20251231', '20230229',
        '99991231', 'soon', 'T-1', 'T+0', 'T+1', 'T+2', 'T+59', 'T+61')
OWN = (None, (-3, 3), (0, 0), (0, 1), (2, 90))


def gen_effective(tier):
  for own in range(len(OWN)):
    for i in INFO:
      for j in INFO:
        yield (own, i, j)


def run_effective(x, case, today):
  own, i, j = case
  if OWN[own] is None:
    s, services, lo, hi = build({'A': (None, None, 127, ())}, today)
  else:
    s, services, lo, hi = build({'A': OWN[own] + (127, ())}, today)
  trips = add_trips(s, (('A', 2, ()), ('A', 2, (2,))))
  ends = []
  for v, d in ((i, lo), (j, hi)):
    if v and v[0] == 'T':
      v = ymd(today + int(v[1:]) * DAY)
    ends.append(v)
  d = {'feed_publisher_name': 'x', 'feed_publisher_url': 'http://x',
       'feed_lang': 'en'}
  if ends[0]:
    d['feed_start_date'] = ends[0]
  if ends[1]:
    d['feed_end_date'] = ends[1]
  s.AddFeedInfoObject(transitfeed.FeedInfo(field_dict=d))
  text = plain(report(s))
  x.step()
  got = field(text, 'Effective')
  days = []
  if lo is None:
    x.eq(got, 'No valid service dates found', 'no-dates', repr(case))
  else:
    a, b = ends[0] or ymd(lo), ends[1] or ymd(hi)
    x.eq(got, '%s to %s' % (long_date(a), long_date(b)), 'effective',
         repr(case))
    if long_date(a) != a and long_date(b) != b:
      da, db = [datetime.date(int(v[:4]), int(v[4:6]), int(v[6:]))
                for v in (a, b)]
      days = upcoming(services, trips, today, da, db)
  check_summary(x, text, days, repr(case))
  x.state(got)
  x.outcome('dates' if lo else 'none')


# ---- what the feed contains ------------------------------------------------------------
AGENCIES = ((u'One', 'http://one/'), (u'Zwöi & Co', 'http://two/x?y'),
            (u'Three', None))
PATHS = ('/a/feed.zip', 'feed.zip', 'dir/', '/feed/feed', './x y/f-1.zip',
         u'/tmp/m\xfc/f.zip'.encode('utf-8'), u'/tmp/m\xfc/\u20ac.zip')
EXTS = (None, 'extensions.googletransit')


def gen_page(tier):
  counts = (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 11)
  i = 0
  for ag in [c for n in range(4) for c in itertools.combinations(range(3), n)]:
    for n in itertools.product(counts, repeat=3):
      for sh in (0, 1, 2):
        for p in range(len(PATHS)):
          for e in range(len(EXTS)):
            i += 1
            if tier != 'quick' or i % 7 == 0:
              yield (ag, n, sh, p, e)


def run_page(x, case, today):
  ag, (nr, ns, nt), sh, p, e = case
  if not ag and nr:
    x.outcome('routes need an agency')
    return
  s = transitfeed.Schedule()
  for k in ag:
    s.AddAgencyObject(transitfeed.Agency(
        name=AGENCIES[k][0], url=AGENCIES[k][1], timezone='Europe/Rome',
        id='a%d' % k))
  for k in range(ns):
    st = transitfeed.Stop(36 + k * 0.1, -116, 'S%d' % k, 's%d' % k)
    if k == 1:
      st.location_type = 1
    s.AddStopObject(st)
  for k in range(nr):
    s.AddRouteObject(transitfeed.Route('r%d' % k, 'Route %d' % k, 'Bus',
                                       'R%d' % k,
                                       agency_id='a%d' % ag[0]))
  sp = transitfeed.ServicePeriod('W')
  s.AddServicePeriodObject(sp, validate=False)
  for k in range(nt if nr else 0):
    t = transitfeed.Trip(field_dict={'trip_id': 't%d' % k, 'service_id': 'W',
                                     'route_id': 'R%d' % (k % nr)})
    s.AddTripObject(t)
  for k in range(sh):
    shape = transitfeed.Shape('sh%d' % k)
    shape.AddPoint(36, -116)
    s.AddShapeObject(shape)
  html = report(s, PATHS[p], EXTS[e])
  text = plain(html)
  x.step()
  what = repr(case)
  path = PATHS[p]
  if isinstance(path, str):
    path = path.decode('utf-8')
  x.check(re.search(u'for feed:\\s+%s\n' % re.escape(path), text), 'path', what)
  x.check('FeedValidator extension used: %s\n' % EXTS[e] in text, 'extension',
          what)
  x.eq([field(text, k) for k in ('Routes', 'Stops', 'Trips', 'Shapes')],
       [str(nr), str(ns), str(nt if nr else 0), str(sh)], 'counts', what)
  if ag:
    got = field(text, 'Agencies')
    x.eq(sorted(got.split(', ')), sorted(AGENCIES[k][0] for k in ag),
         'agencies', what)
    u = html.decode('utf-8')
    for k in ag:
      if AGENCIES[k][1]:
        x.check(u'<a href="%s">%s</a>' % (AGENCIES[k][1], AGENCIES[k][0]) in u,
                'agency-link', what)
  else:
    x.eq(field(text, 'Agencies'), '?', 'agencies', what)
  x.eq(field(text, 'Effective'), 'No valid service dates found', 'no-dates',
       what)
  x.check(transitfeed.__version__ in text, 'version', what)
  x.check('feed validated successfully' in text, 'success', what)
  x.state((ag, nr, ns, nt, sh))
  x.outcome('agencies%d' % len(ag))


# ---- the merge report: what was reported ---------------------------------------------------
MERGERS = (merge.AgencyMerger, merge.StopMerger, merge.TripMerger)
EVENTS = tuple(itertools.product(('same', 'calendar', 'fare', 'todo', 'new'),
                                 range(3)))
EVENTS = tuple(e for e in EVENTS if e[0] != 'new' or e[1] == 0)


def gen_told(tier):
  yield ()
  for w in words(EVENTS, 2 if tier == 'quick' else 3):
    yield w
  few = (('same', 0), ('same', 1), ('calendar', 2), ('new', 0))
  for w in words(few, 4 if tier == 'quick' else 6):
    if len(w) > 2:
      yield w


def run_told(x, case):
  a, b = transitfeed.Schedule(), transitfeed.Schedule()
  m = transitfeed.Schedule()
  acc = merge.HTMLProblemAccumulator()
  rep = merge.MergeProblemReporter(acc)
  fm = merge.FeedMerger(a, b, m, rep)
  fm.AddDefaultMergers()
  ms = [fm.GetMerger(c) for c in MERGERS]
  for n, (kind, k) in enumerate(case):
    if kind == 'same':
      rep.SameIdButNotMerged(ms[k], 'id-%d' % n, u'why-%d-\xe4\nmore' % n)
    elif kind == 'calendar':
      rep.CalendarsNotDisjoint(ms[k])
    elif kind == 'fare':
      rep.FareRulesBroken(ms[k])
    elif kind == 'todo':
      rep.MergeNotImplemented(ms[k])
    else:
      rep.NewVersionAvailable('9.%d.9' % n)
    x.step()
  f = StringIO.StringIO()
  merged = '/x/merged.zip' if len(case) % 2 == 0 else None
  acc.WriteOutput(f, fm, '/x/old.zip', '/x/new.zip', merged)
  check_told(x, f.getvalue(), fm, case, merged)
  x.state(case)
  x.outcome('told%d' % len(case))


TEXTS = {'calendar': 'not disjoint', 'fare': 'unable to handle fare rules',
         'todo': 'does not currently support merging in this file'}


def check_told(x, html, fm, case, merged):
  what = repr(case)
  text = plain(html)
  x.check('Old feed: /x/old.zip\n' in text and 'New feed: /x/new.zip\n' in
          text, 'paths', what)
  x.eq(re.findall('Merged feed created: (.*)', text),
       [merged] if merged else [], 'merged-path', what)
  n = {'notices': sum(k == 'new' for k, _ in case),
       'errors': sum(k == 'calendar' for k, _ in case),
       'warnings': sum(k in ('same', 'fare', 'todo') for k, _ in case)}
  for k in n:
    x.eq(re.findall(r'(?m)^%s: (\d+)$' % k, text), [str(n[k])] if n[k] else [],
         'count-' + k, what)
  x.eq('feeds merged successfully' in text, not case, 'merge-success', what)
  # each problem once, under its file and severity
  u = html.decode('utf-8')
  parts = re.split(r'<h2[^>]*>(\w+):</h2>', u)
  got = {}
  for title, body in zip(parts[1::2], parts[2::2]):
    if title == 'Notices':
      got[title] = re.findall(r'<li[^>]*>(.*?)</li>', body)
    else:
      sub = re.split(r'<h3>(.*?)</h3>', body)
      got[title] = dict((sub[i], re.findall(r'<li>(.*?)</li>', sub[i + 1]))
                        for i in range(1, len(sub), 2))
      x.eq(len(got[title]), len(sub) // 2, 'file-once', what)
  want = {}
  for i, (kind, k) in enumerate(case):
    if kind == 'new':
      want.setdefault('Notices', []).append('9.%d.9' % i)
      continue
    title = 'Errors' if kind == 'calendar' else 'Warnings'
    frag = [u"'id-%d'" % i] if kind == 'same' else [TEXTS[kind]]
    want.setdefault(title, {}).setdefault(MERGERS[k].FILE_NAME, []).append(
        frag)
  x.eq(sorted(got), sorted(want), 'sections', what)
  for title in want:
    if title not in got:
      continue
    if title == 'Notices':
      x.check(len(got[title]) == len(want[title]) and all(
          w in g for g, w in zip(got[title], want[title])), 'notices', what)
      continue
    x.eq(sorted(got[title]), sorted(want[title]), 'files', what)
    for fn in want[title]:
      g = got[title].get(fn, [])
      x.check(len(g) == len(want[title][fn]) and all(
          all(p in item for p in ps) for item, ps in zip(g, want[title][fn])),
          'listed', lambda: '%s %s %r' % (what, fn, g))


# ---- the merge report: statistics ---------------------------------------------------------
ROWS = {'Agencies': ('agency.txt', ('agency_id',)),
        'Stops': ('stops.txt', ('stop_id',)),
        'Routes': ('routes.txt', ('route_id',)),
        'Fares': ('fare_attributes.txt', ('fare_id',)),
        'Shapes': ('shapes.txt', ('shape_id',)),
        'Transfers': ('transfers.txt', None)}


def count(f, name):
  fn, key = ROWS[name]
  if fn not in f.tables:
    return 0
  return len(set(i if key is None else r.get(key[0], u'')
                 for i, r in enumerate(f[fn].rows)))


KIND = {'Agencies': 'agency', 'Stops': 'stop', 'Routes': 'route',
        'Fares': 'fare', 'Shapes': 'shape'}


def gen_stats(tier):
  one = [(s, n) for n in c17.NAMES for s in 'ab']
  yield ()
  for d in one:
    yield (d,)
  k = 0
  for d, e in itertools.combinations(one, 2):
    k += 1
    if d[1] == e[1] and tier == 'quick':
      yield (d, e)
    elif tier != 'quick' and k % 4 == 0:
      yield (d, e)


def run_stats(x, case):
  try:
    fa, fb = c17.feeds_of(case)
  except c17.Skip:
    x.outcome('impossible')
    return
  d = tempfile.mkdtemp(prefix='mc30-')
  try:
    for n, f in (('a.zip', fa), ('b.zip', fb)):
      h = open(os.path.join(d, n), 'wb')
      h.write(f.zip())
      h.close()
    argv = sys.argv
    out = os.path.join(d, 'r.html')
    paths = [os.path.join(d, n) for n in ('a.zip', 'b.zip', 'm.zip')]
    sys.argv = ['merge.py', '--no_browser', '-m', '--latest_version=' +
                transitfeed.__version__, '--html_output_path=' + out] + paths
    try:
      try:
        merge.main()
      except SystemExit:
        x.outcome('refused')
        x.check(not os.path.exists(paths[2]), 'refused-but-wrote', repr(case))
        return
    finally:
      sys.argv = argv
    x.step()
    h = open(out, 'rb')
    html = h.read()
    h.close()
    text = plain(html)
    what = repr(case)
    x.check('Old feed: %s\n' % paths[0] in text and
            'New feed: %s\n' % paths[1] in text, 'paths', what)
    made = os.path.exists(paths[2])
    x.eq(re.findall('Merged feed created: (.*)', text),
         paths[2:] if made else [], 'merged-path', what)
    rows = re.findall(r'(?m)^\s*([A-Z][A-Za-z ]*)\t(\d+)\t(\d+)\t(\d+)\t', text)
    table = dict((r[0], tuple(int(v) for v in r[1:])) for r in rows)
    x.eq(len(table), len(rows), 'stats-once', what)
    x.check('Merged\tCopied from old feed\tCopied from new feed' in text,
            'stats-head', what)
    # one line for every list entry in the counts
    u = html.decode('utf-8')
    listed = {}
    for title, body in zip(*[iter(re.split(r'<h2[^>]*>(\w+):</h2>', u)[1:])] *
                           2):
      listed[title.lower()] = len(re.findall('<li', body))
    for k in ('notices', 'errors', 'warnings'):
      n = re.findall(r'(?m)^%s: (\d+)$' % k, text)
      x.eq([int(v) for v in n], [listed[k]] if listed.get(k) else [],
           'count-' + k, what)
    if not made:
      x.check(listed.get('errors'), 'no-feed-no-error', what)
      x.outcome('not merged')
      x.state(sorted(table.items()))
      return
    h = open(paths[2], 'rb')
    fm = c17.as_feed(h.read())
    h.close()
    x.eq(sorted(table), sorted(ROWS), 'stats-rows', what)
    for name in ROWS:
      if name not in table:
        continue
      m, ca, cb = table[name]
      na, nb, nm = [count(f, name) for f in (fa, fb, fm)]
      x.eq(m + ca + cb, nm, 'stats-sum', '%s %s' % (what, name))
      if name != 'Transfers':
        x.eq((m + ca, m + cb), (na, nb), 'stats', '%s %s' % (what, name))
    # what could not be combined is listed with its id, in its file
    M = c17.Model(fa, fb).run()
    for name, kind in KIND.items():
      fn = ROWS[name][0]
      ids = []
      for f in (fa, fb):
        ids.append(set(r[ROWS[name][1][0]] for r in f[fn].rows)
                   if fn in f.tables else set())
      want = sorted((ids[0] & ids[1]) - set(M.combined[kind]))
      sec = re.findall(r'(?s)<h3>%s</h3><ol>(.*?)</ol>' % re.escape(fn), u)
      got = sorted(re.findall(r"with id '(.*?)'", ''.join(sec)))
      x.eq(got, want, 'not-combined', '%s %s' % (what, name))
    x.state(sorted(table.items()))
    x.outcome('merged')
  finally:
    shutil.rmtree(d)


SCENARIOS = [
    Scenario('upcoming', gen_upcoming, with_today(run_upcoming),
             bound='all pairs of 17 start/end days around today x 5 weekday '
                   'sets x 6 sets of exceptions x 5 sets of trips (quick: '
                   'every fifth and all of one column), two services'),
    Scenario('effective', gen_effective, with_today(run_effective),
             bound='5 service ranges x 15 x 15 feed info dates'),
    Scenario('page', gen_page, with_today(run_page),
             bound='all sets of 3 agencies x 4^3 (5^3) numbers of routes, '
                   'stops, trips x 3 of shapes x 7 paths x 2 extensions '
                   '(quick: every seventh)'),
    Scenario('told', gen_told, run_told,
             bound='all words of 13 merge problems up to length 2 (3), of 4 '
                   'up to length 4 (6)'),
    Scenario('stats', gen_stats, run_stats,
             bound='all pairs of feeds at most one deviation from the base '
                   'pair, one on both sides (thorough: a quarter of all '
                   'pairs of deviations), merged by the program'),
]
