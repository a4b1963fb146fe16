# -*- coding: utf-8 -*-
"""C32: the example programs build exactly the feed their input describes."""
import itertools
import os
import random
import re
import shutil
import tempfile
import urlparse
import datetime

import transitfeed
import prog
from core import Scenario, words
from feeds import Feed, T, U, load, observe, expected, base, text

STOPS = (('N Ave', 36.915682, -116.751677), ('Alpha', 36.914944, -116.761472),
         ('mid St / B', 36.909489, -116.768242))


def tempdir(run):
  def g(x, case):
    d = tempfile.mkdtemp(prefix='mc32-')
    try:
      return run(x, case, d)
    finally:
      shutil.rmtree(d)
  return g


def put(path, data):
  f = open(path, 'wb')
  f.write(data)
  f.close()


def get(path):
  f = open(path, 'rb')
  try:
    return f.read()
  finally:
    f.close()


def hms(v):
  return '%d:%02d:%02d' % (v // 3600, v // 60 % 60, v % 60)


def view(o):
  """The feed without identifiers of the program's choosing."""
  names = dict((k, v.get(u'stop_name')) for k, v in o['stops.txt'].items())
  routes = dict((k, (v.get(u'route_short_name', u''),
                     v.get(u'route_long_name', u'')))
                for k, v in o['routes.txt'].items())
  return {
      'agency': [(a.get('agency_name'), a.get('agency_url'),
                  a.get('agency_timezone')) for a in o['agency.txt'].values()],
      'stops': sorted((v.get('stop_name'), v.get('stop_lat'),
                       v.get('stop_lon')) for v in o['stops.txt'].values()),
      'routes': sorted(routes.values()),
      'calendar': sorted(o['calendar'].values()),
      'trips': sorted(
          (routes[v['route_id']],
           [(st[0], st[1], names[st[2]]) for st in o['stop_times.txt'][k]])
          for k, v in o['trips.txt'].items()),
      'service': sorted(set(v['service_id'] for v in o['trips.txt'].values())),
      'types': sorted(set(v.get('route_type') for v in
                          o['routes.txt'].values())),
  }


# ---- table.py -------------------------------------------------------------------------
OPTIONS = (('weekday',), ('start_date', '20070315'), ('end_date', '20071215'),
           ('remove_date', '20070704'), ('agency_name', 'Gbus'),
           ('agency_url', 'http://shuttle/'),
           ('agency_timezone', 'America/Los_Angeles'))
OPTSETS = (OPTIONS, OPTIONS[::-1],
           OPTIONS[1:] + (('add_date', '20070324'), ('add_date', '20070325')),
           OPTIONS + (('add_date', '20070325'), ('remove_date', '20070705'),
                      ('remove_date', '20070706')),
           tuple((o[0].upper(),) + o[1:] for o in OPTIONS))
# times of the stops of one trip (None: not visited)
CELLS = (None, 0, 300, 90000)
LAYOUTS = ('plain', 'trimmed', 'blank lines', 'no final', 'case', 'spaces')


def calendar(opts):
  start = end = u''
  dow = [False] * 7
  exc = {}
  for o in opts:
    k = o[0].lower()
    if k == 'weekday':
      dow = [True] * 5 + [False] * 2
    elif k == 'start_date':
      start = U(o[1])
    elif k == 'end_date':
      end = U(o[1])
    elif k in ('add_date', 'remove_date'):
      exc[U(o[1])] = 1 if k == 'add_date' else 2
  return (start, end, tuple(dow), sorted(exc.items()))


def gen_table(tier):
  trips = [t for t in itertools.product(CELLS, repeat=3)
           if sum(c is not None for c in t) > 1]
  orders = list(itertools.permutations(range(3)))
  k = 0
  for o in range(len(OPTSETS)):
    for lay in LAYOUTS:
      yield (o, lay, ())
      for i, t in enumerate(trips):
        yield (o, lay, ((orders[i % 6], (t,)),))
  for t, u in itertools.product(trips, repeat=2):
    for lay in LAYOUTS:
      k += 1
      if tier != 'quick' or k % 5 == 0:
        yield (0, lay, ((orders[k % 6], (t, u)),))
        yield (0, lay, ((orders[k % 6], (t,)), (orders[(k + 1) % 6], (u, t))))


def run_table(x, case, d):
  o, lay, routes = case
  opts = OPTSETS[o]
  blocks = [['options'] + ['\t'.join(p) for p in opts],
            ['stops'] + ['%s\t%r\t%r' % s for s in STOPS]]
  want = []
  for r, (order, trips) in enumerate(routes):
    rows = ['R%d\tLine %d' % (r, r)]
    for i in order:
      name = STOPS[i][0]
      cells = ['' if t[i] is None else hms(28800 + 3600 * k + t[i])
               for k, t in enumerate(trips)]
      if lay == 'spaces':
        cells = [c or ' ' for c in cells]
      row = '\t'.join([name.upper() if lay == 'case' else name] + cells)
      rows.append(row.rstrip('\t') if lay == 'trimmed' else row)
    blocks.append(rows)
    for k, t in enumerate(trips):
      visits = sorted((28800 + 3600 * k + t[i], n, STOPS[i][0])
                      for n, i in enumerate(order) if t[i] is not None)
      want.append(((u'R%d' % r, u'Line %d' % r),
                   [(v, v, U(s)) for v, _, s in visits]))
  gap = '\n\n\n' if lay == 'blank lines' else '\n\n'
  if lay == 'case':
    blocks[0][0] = 'Options'
    blocks[1][0] = 'STOPS'
  data = gap.join('\n'.join(b) for b in blocks) + {
      'no final': '', 'blank lines': '\n\n\n'}.get(lay, '\n')
  put(os.path.join(d, 'in.txt'), data)
  out = os.path.join(d, 'out.zip')
  what = repr(case)
  # What fails in the program for certain is a finding of its own: see
  # known_findings.json.
  ragged = any(len(set(len(l.rstrip().split('\t')) for l in b[1:])) > 1 or
               any(len(l.rstrip().split('\t')) < len(b[1].rstrip().split('\t'))
                   for l in b[1:]) for b in blocks[2:])
  try:
    code, _ = prog.run('examples/table.py', ['--input',
                                             os.path.join(d, 'in.txt'),
                                             '--output=' + out])
  except TypeError as e:
    if not ragged or 'NoneType' not in str(e):
      raise
    x.fail('short-rows', '%s: %s' % (what, e))
    x.outcome('short rows')
    return
  except IndexError as e:
    if lay != 'blank lines':
      raise
    x.fail('blank-lines', '%s: %s' % (what, e))
    x.outcome('blank lines')
    return
  x.step()
  if not x.check(not code and os.path.exists(out), 'table-exit', what):
    return
  s, rec = load(get(out))
  v = view(observe(s))
  x.eq(v['agency'], [(u'Gbus', u'http://shuttle/', u'America/Los_Angeles')],
       'table-agency', what)
  x.eq(v['stops'], sorted((U(n), a, b) for n, a, b in STOPS), 'table-stops',
       what)
  x.eq(v['routes'], sorted((u'R%d' % r, u'Line %d' % r)
                           for r in range(len(routes))), 'table-routes', what)
  # Known: stops visited at the same time are put in order of their names.
  written = (lambda n: n.upper()) if lay == 'case' else (lambda n: n)
  by_name = sorted((r, sorted(visits, key=lambda v: (v[0], written(v[2]))))
                   for r, visits in want)
  if v['trips'] == by_name != sorted(want):
    x.fail('same-time-by-name', '%s: %r' % (what, v['trips']))
  else:
    x.eq(v['trips'], sorted(want), 'table-trips', what)
  if routes:
    x.eq(v['types'], [3.0], 'table-type', what)
  x.eq(v['calendar'], [calendar(opts)], 'table-calendar', what)
  x.state(case)
  x.outcome(lay)


# ---- shuttle_from_xmlfeed.py -------------------------------------------------------------
HOLIDAYS = ('0528', '0704', '0903', '1122', '1123', '1224', '1225', '1226',
            '1231')
GROUPS = ('Loop', 'Test', u'Línea', 'Testing')


def gen_shuttle(tier):
  times = (36000, 36060, 36061)
  visits = [v for n in (2, 3) for p in itertools.permutations(range(3), n)
            for v in itertools.product([p], itertools.product(times,
                                                              repeat=n))]
  k = 0
  for g in range(len(GROUPS)):
    for v in visits:
      k += 1
      if tier != 'quick' or g == 0 or k % 4 == 0:
        yield (((g, (v,)),))
  for g, h in itertools.product(range(len(GROUPS)), repeat=2):
    if g == h:
      continue
    for i, v in enumerate(visits):
      if tier != 'quick' or i % 7 == 0:
        yield ((g, (v, visits[i - 5])), (h, (visits[i - 11],)))


def run_shuttle(x, case, d):
  if case and not isinstance(case[0], (tuple, list)):
    case = (case,)
  xml = [u'<shuttle><office><stops>']
  for i, (n, a, b) in enumerate(STOPS):
    xml.append(u'<stop id="%d" name="%s" shortName="s" lat="%r" lng="%r"/>' % (
        i + 1, n, a, b))
  xml.append(u'</stops><shuttleGroups>')
  want = []
  rid = 0
  for g, routes in case:
    xml.append(u'<shuttleGroup id="%d" name="%s"><routes>' % (g, GROUPS[g] if
               isinstance(GROUPS[g], unicode) else U(GROUPS[g])))
    for order, times in routes:
      rid += 1
      xml.append(u'<route id="r%d" name="Out &amp; %d"><schedules>' % (rid,
                                                                       rid))
      for i, t in zip(order, times):
        xml.append(u'<schedule id="1" stopId="%d" time="%d000"/>' % (i + 1, t))
      xml.append(u'</schedules></route>')
      if GROUPS[g] != 'Test':
        vs = sorted((t, n, STOPS[i][0]) for n, (i, t) in
                    enumerate(zip(order, times)))
        want.append(((u'r%d' % rid, u'Out & %d' % rid, U(GROUPS[g])),
                     [(t, t, U(n)) for t, _, n in vs]))
    xml.append(u'</routes></shuttleGroup>')
  xml.append(u'</shuttleGroups></office></shuttle>')
  put(os.path.join(d, 'in.xml'), ('\n'.join(xml)).encode('utf-8'))
  today = datetime.date.today()
  code, _ = prog.run('examples/shuttle_from_xmlfeed.py', [
      '--input', 'file:' + os.path.join(d, 'in.xml'),
      '--output', os.path.join(d, 'out-YYYYMMDD.zip')])
  x.step()
  what = repr(case)
  names = [n for n in os.listdir(d) if n.endswith('.zip')]
  days = [t.strftime('%Y%m%d') for t in (today, datetime.date.today())]
  if not x.check(not code and len(names) == 1 and
                 names[0] in ['out-%s.zip' % t for t in days],
                 'shuttle-file', '%s %r' % (what, names)):
    return
  s, rec = load(get(os.path.join(d, names[0])))
  o = observe(s)
  v = view(o)
  x.eq(v['agency'], [(u'GBus', u'http://shuttle/', u'America/Los_Angeles')],
       'shuttle-agency', what)
  x.eq(v['stops'], sorted((U(n), a, b) for n, a, b in STOPS),
       'shuttle-stops', what)
  x.eq(v['routes'], sorted((u'', U(GROUPS[g])) for g, _ in case
                           if GROUPS[g] != 'Test'), 'shuttle-routes', what)
  stops = dict((k, e['stop_name']) for k, e in o['stops.txt'].items())
  got = [((k, t.get('trip_headsign', u''),
           o['routes.txt'][t['route_id']].get('route_long_name')),
          [(st[0], st[1], stops[st[2]]) for st in o['stop_times.txt'][k]])
         for k, t in o['trips.txt'].items()]
  # Known: stops visited at the same time are in no particular order.
  loose = lambda l: sorted((r, sorted(visits)) for r, visits in l)
  tied = any(len(set(v[0] for v in visits)) < len(visits) for _, visits in want)
  if tied and sorted(got) != sorted(want) and loose(got) == loose(want):
    x.fail('same-time-any-order', '%s: %r' % (what, got))
  else:
    x.eq(sorted(got), sorted(want), 'shuttle-trips', what)
  x.eq(v['calendar'], [(u'20070314', u'20071231', (True,) * 5 + (False,) * 2,
                        [(U('2007' + h), 2) for h in HOLIDAYS])],
       'shuttle-calendar', what)
  x.state(case)
  x.outcome('groups%d' % len(case))


# ---- filter_unused_stops.py ---------------------------------------------------------------
def gen_filter(tier):
  # visited, parent station, in a transfer, for three stops; the station S4
  # may be named by a transfer
  for visits in itertools.product((0, 1), repeat=3):
    if sum(visits) == 1:
      continue
    for parents in itertools.product((0, 1), repeat=3):
      for tr in ((), (0,), (2,), (3,), (0, 3)):
        for listed in (0, 1):
          for extra in (0, 1):
            if tier != 'quick' or listed == 0 or extra == 0:
              yield (visits, parents, tr, listed, extra)


def run_filter(x, case, d):
  visits, parents, tr, listed, extra = case
  f = base()
  t = f.tables
  ids = ['S1', 'S2', 'S3', 'ST']
  for r in t['stops.txt'].rows:
    k = ids.index(r['stop_id'])
    if k < 3:
      r['parent_station'] = u'ST' if parents[k] else u''
  if extra:
    t['stops.txt'].rows.append(dict(
        t['stops.txt'].rows[2], stop_id=u'S5', stop_name=u'Fünf',
        stop_lat=u'36.2'))
  used = [k for k in range(3) if visits[k]]
  t['stop_times.txt'].rows = []
  for i, tid in enumerate(('T1', 'T2', 'T3')):
    seq = used if i != 1 else used[::-1][:2]
    for n, k in enumerate(seq):
      tm = U('%02d:%02d:00' % (6 + i, 20 * n))
      t['stop_times.txt'].rows.append(dict(
          [(c, u'') for c in t['stop_times.txt'].cols], trip_id=U(tid),
          arrival_time=tm, departure_time=tm, stop_id=U(ids[k]),
          stop_sequence=U(str(n))))
  t['transfers.txt'].rows = [
      {'from_stop_id': U(ids[k]), 'to_stop_id': U(ids[k]),
       'transfer_type': u'0', 'min_transfer_time': u''} for k in tr]
  if not tr:
    del t['transfers.txt']
  if not used:
    for n in ('stop_times.txt', 'trips.txt', 'frequencies.txt'):
      t[n].rows = []
  src, dst = os.path.join(d, 'in.zip'), os.path.join(d, 'out.zip')
  put(src, f.zip())
  code, out = prog.run('examples/filter_unused_stops.py',
                       (['-l'] if listed else []) + [src, dst])
  x.step()
  what = repr(case)
  if not x.check(not code and os.path.exists(dst), 'filter-exit', what):
    return
  keep = set(used) | set(tr)
  if any(parents[k] for k in keep if k < 3):
    keep.add(3)
  want = expected(f)
  s, rec = load(get(dst))
  got = observe(s)
  # Known: only stops that trips visit are kept, not those that transfers or
  # kept stops refer to.
  if keep != set(used) and set(got['stops.txt']) == set(ids[k] for k in used):
    x.fail('referenced-stops', '%s: %r left' % (what, sorted(got['stops.txt'])))
    keep = set(used)
  gone = [i for i in want['stops.txt'] if i not in [ids[k] for k in keep]]
  names = dict((i, want['stops.txt'][i]['stop_name']) for i in gone)
  for i in gone:
    del want['stops.txt'][i]
  for part in want:
    x.eq(got.get(part), want[part], 'filter-' + part, what)
  lines = re.findall(r'(?m)^Removing (\S+) \((.*)\)$', out.decode('utf-8'))
  x.eq(sorted(lines), sorted(names.items()) if listed else [], 'filter-list',
       what)
  n = len(gone)
  said = ('No unused stops.' if not n else 'Removed 1 stop\n' if n == 1 else
          'Removed %d stops' % n)
  x.check(said in out, 'filter-says', '%s: %r' % (what, out))
  x.state((sorted(keep), listed))
  x.outcome('removed%d' % n)


# ---- google_random_queries.py ---------------------------------------------------------------
def gen_queries(tier):
  for n in (0, 1, 2, 3):
    for perm in itertools.permutations(range(n)):
      for limit in (None, 0, 1, 2, 5):
        for r in itertools.product((0.0, 0.5, 1 - 2.0 ** -53), repeat=2):
          for when in (0, 3600 * 24 * 7, 86399):
            yield (n, perm, limit, r, when)


def run_queries(x, case, d):
  n, perm, limit, r, when = case
  f = base()
  t = f.tables
  spots = [(36.1, -116.1), (-33.5, 151.2), (60.0, 10.5)][:n]
  t['stops.txt'].rows = [dict(
      [(c, u'') for c in t['stops.txt'].cols], stop_id=U('q%d' % i),
      stop_name=U('Q %d' % i), stop_lat=U(repr(a)), stop_lon=U(repr(b)))
      for i, (a, b) in enumerate(spots)]
  for name in ('stop_times.txt', 'transfers.txt', 'frequencies.txt'):
    t[name].rows = []
  t['agency.txt'].rows[1]['agency_name'] = u'Zwöi'
  src, dst = os.path.join(d, 'in.zip'), os.path.join(d, 'q.html')
  put(src, f.zip())
  rs = itertools.cycle(r)
  saved = random.random, random.shuffle, random.randint

  def shuffle(l, *a):
    l[:] = [l[i] for i in perm] if len(perm) == len(l) else l
  random.random = lambda: next(rs)
  random.shuffle = shuffle
  random.randint = lambda a, b: min(max(a + when, a), b)
  now = datetime.datetime.today()
  try:
    code, out = prog.run('examples/google_random_queries.py', [
        '--output', dst] + ([] if limit is None else ['-l', str(limit)]) +
        [src])
  finally:
    random.random, random.shuffle, random.randint = saved
  then = datetime.datetime.today()
  x.step()
  what = repr(case)
  if not x.check(not code and os.path.exists(dst), 'queries-exit', what):
    return
  html = get(dst).decode('utf-8')
  x.check('First Agency' in html and u'Zwöi' in html and 'in.zip' in html and
          html.rstrip().endswith('</html>'), 'queries-page', what)
  links = re.findall(r"<li><a href='(.*?)'>(.*?)</a>", html)
  x.eq(len(links), max(0, min(50 if limit is None else limit, n - 1)),
       'queries-number', what)
  ends = []
  import math
  for url, label in links:
    u = urlparse.urlsplit(url)
    q = dict(urlparse.parse_qsl(u.query))
    x.eq((u.netloc, u.path, q.get('dirflg')), ('maps.google.com', '/maps', 'r'),
         'queries-url', what)
    e = []
    for k in ('saddr', 'daddr'):
      a, b = [float(v) for v in q[k].split(',')]
      near = [i for i, (la, lo) in enumerate(spots)
              if abs(a - la) * 111195 < 501 and
              abs(b - lo) * 111195 * math.cos(math.radians(la)) < 501]
      e.append(near[0] if len(near) == 1 else None)
    x.check(None not in e and e[0] != e[1], 'queries-near',
            '%s: %r' % (what, q))
    ends.append(e)
    at = datetime.datetime.strptime(q['date'] + ' ' + q['time'],
                                    '%Y-%m-%d %I:%M%p')
    x.check(now - datetime.timedelta(seconds=60) <= at <= then +
            datetime.timedelta(days=7), 'queries-when', '%s: %s' % (what, at))
    x.check('from:%s to:%s on ' % (q['saddr'], q['daddr']) in label,
            'queries-label', what)
  for side in (0, 1):
    es = [e[side] for e in ends]
    x.eq(len(set(es)), len(es), 'queries-once', what)
  x.state((n, perm, limit, ends))
  x.outcome('links%d' % len(links))


SCENARIOS = [
    Scenario('table', gen_table, tempdir(run_table),
             bound='all trips over 3 stops x 4 times, singly with 5 option '
                   'lists and 6 layouts, in pairs (quick: every fifth) in one '
                   'and two routes'),
    Scenario('shuttle', gen_shuttle, tempdir(run_shuttle),
             bound='all visits of 2 and 3 stops at 3 times in 4 groups, pairs '
                   'of groups (quick: every seventh)'),
    Scenario('filter', gen_filter, tempdir(run_filter),
             bound='all sets of visited stops x parents x transfers x listing '
                   'x an extra stop'),
    Scenario('queries', gen_queries, tempdir(run_queries),
             bound='up to 3 stops in every shuffled order x 5 limits x 9 '
                   'noises x 3 times'),
]
