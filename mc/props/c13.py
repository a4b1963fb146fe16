# -*- coding: utf-8 -*-
"""C13: broken references and duplicate keys."""
import StringIO
import collections
import datetime
import itertools

import feeds
from core import Scenario

TODAY = datetime.date(2010, 6, 1)

# file, column, what it refers to
REFS = [
    ('routes.txt', 'agency_id', 'agency'),
    ('trips.txt', 'route_id', 'route'),
    ('trips.txt', 'service_id', 'service'),
    ('trips.txt', 'shape_id', 'shape'),
    ('stops.txt', 'parent_station', 'stop'),
    ('stop_times.txt', 'trip_id', 'trip'),
    ('stop_times.txt', 'stop_id', 'stop'),
    ('frequencies.txt', 'trip_id', 'trip'),
    ('fare_rules.txt', 'fare_id', 'fare'),
    ('fare_rules.txt', 'route_id', 'route'),
    ('fare_rules.txt', 'origin_id', 'zone'),
    ('fare_rules.txt', 'destination_id', 'zone'),
    ('fare_rules.txt', 'contains_id', 'zone'),
    ('transfers.txt', 'from_stop_id', 'stop'),
    ('transfers.txt', 'to_stop_id', 'stop'),
]
DEFINES = {'agency': ('agency.txt', 'agency_id'),
           'route': ('routes.txt', 'route_id'),
           'service': ('calendar.txt', 'service_id'),
           'shape': ('shapes.txt', 'shape_id'),
           'stop': ('stops.txt', 'stop_id'),
           'trip': ('trips.txt', 'trip_id'),
           'fare': ('fare_attributes.txt', 'fare_id'),
           'zone': ('stops.txt', 'zone_id')}
COLUMNS = set(c for _, c, _ in REFS)
KEYED = [('agency.txt', 'agency_id'), ('stops.txt', 'stop_id'),
         ('routes.txt', 'route_id'), ('trips.txt', 'trip_id'),
         ('calendar.txt', 'service_id'), ('fare_attributes.txt', 'fare_id')]


def model(feed):
  """The problems the feed must get and the rows that are kept."""
  want = collections.Counter()
  t = feed.tables
  out = feeds.Feed([(n, feeds.Table(tb.cols, [])) for n, tb in t.items()])
  rows = lambda n: t[n].rows if n in t and n not in feed.missing else []
  g = lambda r, c: r.get(c, u'').strip()
  def add(cls, col, val, typ='E'):
    want[cls, typ, col, val] += 1
  def keyed(n, col, keep=lambda r: True):
    seen = set()
    for r in rows(n):
      k = g(r, col)
      if k in seen:
        add('DuplicateID', col, k)
      elif keep(r):
        seen.add(k)
        out[n].rows.append(r)
    return seen
  agencies = keyed('agency.txt', 'agency_id')
  stops = keyed('stops.txt', 'stop_id')
  def route_ok(r):
    a = g(r, 'agency_id')
    if a in agencies or (not a and len(agencies) == 1):
      return True
    add('InvalidValue', 'agency_id', a)
    return False
  routes = keyed('routes.txt', 'route_id', route_ok)
  services = keyed('calendar.txt', 'service_id')
  seen = {}
  for r in rows('calendar_dates.txt'):
    k = g(r, 'service_id'), g(r, 'date')
    services.add(k[0])
    if k in seen:
      add('DuplicateID', '(service_id, date)', '(%s, %s)' % k, 'W')
      out['calendar_dates.txt'].rows.remove(seen[k])
    seen[k] = r
    out['calendar_dates.txt'].rows.append(r)
  shapes = set(g(r, 'shape_id') for r in rows('shapes.txt'))
  out['shapes.txt'].rows = rows('shapes.txt')
  trips = keyed('trips.txt', 'trip_id')
  for r in out['trips.txt'].rows:
    for col, known in (('route_id', routes), ('service_id', services),
                       ('shape_id', shapes)):
      v = g(r, col)
      if v and v not in known:
        add('InvalidValue', col, v)
      elif not v and col != 'shape_id':
        add('MissingValue', col, None)
  bad = collections.Counter()
  for r in rows('trips.txt'):
    # what a repeated row lacks is told as well
    if not any(r is k for k in out['trips.txt'].rows):
      for col in ('route_id', 'service_id'):
        if not g(r, col):
          add('MissingValue', col, None)
  kind = dict((g(r, 'stop_id'), g(r, 'location_type') or u'0')
              for r in out['stops.txt'].rows)
  for r in rows('stops.txt'):
    if g(r, 'location_type') == u'1' and g(r, 'parent_station'):
      add('InvalidValue', 'parent_station', g(r, 'parent_station'))
  for r in out['stops.txt'].rows:
    p = g(r, 'parent_station')
    if p and g(r, 'location_type') != u'1' and kind.get(p) != u'1':
      add('InvalidValue', 'parent_station', p)
  zones = set(g(r, 'zone_id') for r in out['stops.txt'].rows)
  for r in rows('stop_times.txt'):
    if g(r, 'stop_id') not in stops:
      add('InvalidValue', 'stop_id', g(r, 'stop_id'))
    elif g(r, 'trip_id') not in trips:
      add('InvalidValue', 'trip_id', g(r, 'trip_id'))
    else:
      out['stop_times.txt'].rows.append(r)
  for r in rows('frequencies.txt'):
    if g(r, 'trip_id') not in trips:
      add('InvalidValue', 'trip_id', g(r, 'trip_id'))
    else:
      out['frequencies.txt'].rows.append(r)
  fares = keyed('fare_attributes.txt', 'fare_id')
  for r in rows('fare_rules.txt'):
    if not g(r, 'fare_id'):
      add('MissingValue', 'fare_id', None)
      continue
    for col, known in (('route_id', routes), ('origin_id', zones),
                       ('destination_id', zones), ('contains_id', zones)):
      if g(r, col) and g(r, col) not in known:
        add('InvalidValue', col, g(r, col))
    if g(r, 'fare_id') not in fares:
      add('InvalidValue', 'fare_id', g(r, 'fare_id'))
    else:
      out['fare_rules.txt'].rows.append(r)
  pairs = set()
  for r in rows('transfers.txt'):
    ends = [g(r, c) for c in ('from_stop_id', 'to_stop_id')]
    for c, v in zip(('from_stop_id', 'to_stop_id'), ends):
      if not v:
        add('MissingValue', c, None)
      elif all(ends) and v not in stops:
        add('InvalidValue', c, v)
    if not all(ends):
      continue
    if tuple(ends) in pairs:
      add('DuplicateID', '(from_stop_id, to_stop_id)', '(%s, %s)' % tuple(ends),
          'W')
    pairs.add(tuple(ends))
    out['transfers.txt'].rows.append(r)
  out['feed_info.txt'].rows = rows('feed_info.txt')
  return want, out


def clean_rows(feed):
  """What the loader makes of padded values."""
  for t in feed.tables.values():
    t.rows = [dict((c, v.strip()) for c, v in r.items()) for r in t.rows]
  return feed


def compare(x, feed, what, order='same'):
  want, kept = model(feed)
  data = feed
  if order != 'same':
    data = feed.copy()
  if order == 'files':
    files = feed.files()
    data = feeds.zip_bytes(collections.OrderedDict(
        reversed(list(files.items()))))
  s, rec = feeds.load(data)
  x.step()
  s.Validate(transitfeed_reporter(rec), validate_children=False, today=TODAY)
  x.step()
  got = collections.Counter()
  for e in rec.problems:
    k = feeds.problem_key(e)
    if k[0] == 'DuplicateID' or k[0] == 'InvalidAgencyID' or (
        k[0] in ('InvalidValue', 'MissingValue') and k[2] in COLUMNS):
      got[k if k[0] != 'MissingValue' else k[:3] + (None,)] += 1
  x.state(sorted(got.items()))
  x.outcome('%d' % min(3, sum(want.values())))
  if got != want:
    lost = want - got
    extra = got - want
    x.check(not lost, 'not-reported', lambda: '%s: %r (reported %r)' % (
        what, dict(lost), dict(extra)))
    x.check(not extra, 'reported-wrongly', lambda: '%s: %r' % (
        what, dict(extra)))
  a, b = feeds.observe(s), feeds.expected(clean_rows(kept))
  for k in sorted(b):
    if k == 'shapes.txt' and 'shapes.txt' in feed.missing:
      continue
    x.eq(a[k], b[k], 'kept:' + k, what)


def transitfeed_reporter(rec):
  import transitfeed
  return transitfeed.ProblemReporter(rec)


ORDERS = ['same', 'reverse', 'files', 'rotate']


def reorder(feed, order):
  if order in ('reverse', 'rotate'):
    for n, t in feed.tables.items():
      if n == 'feed_info.txt':
        continue
      t.rows = t.rows[::-1] if order == 'reverse' else t.rows[1:] + t.rows[:1]
  return feed


def base(variant):
  f = feeds.base()
  if variant == 'one-agency':
    del f['agency.txt'].rows[1]
    f['routes.txt'].rows[0]['agency_id'] = u''
    f['routes.txt'].rows[1]['agency_id'] = u'AG1'
  elif variant == 'dates-only':
    f.missing.add('calendar.txt')
    for r in f['feed_info.txt'].rows:
      r['feed_start_date'] = r['feed_end_date'] = u''
  elif variant == 'deep':
    f['stops.txt'].rows.append(dict(f['stops.txt'].rows[3], stop_id=u'SU',
                                    stop_lat=u'36.3', zone_id=u'Z3'))
    f['shapes.txt'].rows.append(dict(f['shapes.txt'].rows[0],
                                     shape_id=u'SH3'))
  return f


VARIANTS = ['plain', 'one-agency', 'dates-only', 'deep']


def values(kind, f):
  n, col = DEFINES[kind]
  ids = []
  for r in f[n].rows:
    if r.get(col) and r[col] not in ids:
      ids.append(r[col])
  first = ids[0]
  return ids + [u'NOPE', u'', first.lower(), first + u'x', first[:-1],
                u' %s ' % first, u'\xd6', u'0', u'%s,%s' % (first, first),
                u'None']


def gen_single(tier):
  for variant in VARIANTS:
    f = base(variant)
    for k, (n, col, kind) in enumerate(REFS):
      for i in range(len(f[n].rows)):
        for v in values(kind, f):
          for o in (ORDERS if tier != 'quick' else
                    [ORDERS[(i + len(v)) % 4]] if variant == 'plain' else
                    ['same'] if i == 0 else []):
            yield (variant, k, i, v, o)


def run_single(x, case):
  variant, k, i, v, order = case
  f = base(variant)
  n, col, kind = REFS[k]
  f[n].rows[i][col] = v
  compare(x, reorder(f, order), repr((variant, n, col, i, v, order)), order)


def gen_pairs(tier):
  for a, b in itertools.combinations_with_replacement(range(len(REFS)), 2):
    for va, vb in (((u'NOPE', u'NOPE'), (u'NOPE', u'')) if tier == 'quick' else
                   itertools.product((u'NOPE', u'', u'S1', u'R1', u'T1'),
                                     repeat=2)):
      for ib in ((1,) if tier == 'quick' else (0, 1)):
        yield (a, va, 0, b, vb, ib)


def run_pairs(x, case):
  a, va, ia, b, vb, ib = case
  f = base('plain')
  f[REFS[a][0]].rows[ia][REFS[a][1]] = va
  f[REFS[b][0]].rows[ib][REFS[b][1]] = vb
  compare(x, f, repr((REFS[a], va, ia, REFS[b], vb, ib)))


# ---- all references of one row ---------------------------------------------------
def gen_rowrefs(tier):
  for n in sorted(set(r[0] for r in REFS)):
    cols = [r for r in REFS if r[0] == n]
    for i in ((0, 1) if tier != 'quick' else (0,)):
      for vals in itertools.product((None, u'NOPE', u''), repeat=len(cols)):
        yield (n, i, vals)


def run_rowrefs(x, case):
  n, i, vals = case
  f = base('plain')
  for (_, col, _), v in zip([r for r in REFS if r[0] == n], vals):
    if v is not None:
      f[n].rows[i][col] = v
  compare(x, f, repr(case))


# ---- what a row defines is gone -------------------------------------------------
def all_rows():
  f = feeds.base()
  return [(n, i) for n, t in f.tables.items() if n != 'feed_info.txt'
          for i in range(len(t.rows))]


def gen_drop(tier):
  rows = all_rows()
  for a in rows:
    yield (a,)
  for i, (a, b) in enumerate(itertools.combinations(rows, 2)):
    if tier == 'quick' and i % 2:
      continue
    yield (a, b)


def run_drop(x, case):
  f = base('plain')
  for n, i in sorted(case, key=lambda k: -k[1]):
    del f[n].rows[i]
  compare(x, f, repr(case))


# ---- duplicate keys --------------------------------------------------------------
def gen_dup(tier):
  for k, (n, col) in enumerate(KEYED + [('transfers.txt', 'from_stop_id'),
                                        ('calendar_dates.txt', 'date'),
                                        ('fare_rules.txt', 'fare_id')]):
    rows = feeds.base()[n].rows
    for src in range(len(rows)):
      for pos in range(len(rows) + 1):
        for change in ('same', 'other', 'case', 'pad', 'unknown'):
          for times in (1, 2):
            for o in (ORDERS if tier != 'quick' else
                      [ORDERS[(src + pos) % 4]]):
              yield (n, col, src, pos, change, times, o)


OTHER = {'agency.txt': ('agency_name', u'Other'),
         'stops.txt': ('stop_name', u'Other'),
         'routes.txt': ('route_long_name', u'Other'),
         'trips.txt': ('trip_headsign', u'Other'),
         'calendar.txt': ('end_date', u'20101130'),
         'fare_attributes.txt': ('price', u'9.5'),
         'transfers.txt': ('transfer_type', u'1'),
         'calendar_dates.txt': ('exception_type', u'2'),
         'fare_rules.txt': ('origin_id', u'Z2')}
UNKNOWN = {'routes.txt': 'agency_id', 'trips.txt': 'route_id',
           'fare_rules.txt': 'route_id', 'transfers.txt': 'to_stop_id',
           'stops.txt': 'parent_station'}


def run_dup(x, case):
  n, col, src, pos, change, times, order = case
  f = base('plain')
  rows = f[n].rows
  for j in range(times):
    row = dict(rows[src])
    if change == 'other':
      row[OTHER[n][0]] = OTHER[n][1]
      if n == 'transfers.txt':
        row['min_transfer_time'] = u''
    elif change == 'case':
      if col == 'date':
        row[col] = u'2010080%d' % (j + 1)
      else:
        row[col] = row[col].lower()
    elif change == 'pad':
      row[col] = u' %s ' % row[col]
    elif change == 'unknown':
      row[UNKNOWN.get(n, OTHER[n][0])] = u'NOPE' if n in UNKNOWN else \
          OTHER[n][1]
    if n == 'agency.txt' and change == 'case':
      row['agency_name'] = u'Lower'
    rows.insert(pos if j == 0 else len(rows), row)
    if pos <= src and j == 0:
      src += 1
  compare(x, reorder(f, order), repr(case), order)


def gen_dupref(tier):
  """A key defined twice, with references to it and broken ones."""
  for k in range(len(KEYED)):
    for r in range(len(REFS)):
      for v in (u'NOPE', u'second'):
        for o in ORDERS if tier != 'quick' else ORDERS[:1]:
          yield (k, r, v, o)


def run_dupref(x, case):
  k, r, v, order = case
  f = base('plain')
  n, col = KEYED[k]
  second = dict(f[n].rows[0])
  second[OTHER[n][0]] = OTHER[n][1]
  if n == 'stops.txt':
    second['zone_id'] = u'Z9'
  f[n].rows.append(second)
  rn, rcol, kind = REFS[r]
  f[rn].rows[-1][rcol] = v if v == u'NOPE' else {
      'zone': u'Z9'}.get(kind, f[DEFINES[kind][0]].rows[0][DEFINES[kind][1]])
  compare(x, reorder(f, order), repr(case), order)


SCENARIOS = [
    Scenario('single', gen_single, run_single,
             bound='15 reference columns x every row x 12+ targets, 4 feeds, '
                   'row and file orders'),
    Scenario('pairs', gen_pairs, run_pairs,
             bound='all pairs of reference columns broken or blank'),
    Scenario('rowrefs', gen_rowrefs, run_rowrefs,
             bound='every combination of sound, broken and blank over all '
                   'references of one row'),
    Scenario('drop', gen_drop, run_drop,
             bound='every row, and half of (all) pairs of rows, left out'),
    Scenario('dup', gen_dup, run_dup,
             bound='9 keyed tables x every row repeated at every place once '
                   'or twice, equal, changed, differently cased or padded'),
    Scenario('dupref', gen_dupref, run_dupref,
             bound='6 doubled keys x 15 reference columns x 2 targets'),
]
