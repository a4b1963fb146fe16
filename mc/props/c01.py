# -*- coding: utf-8 -*-
"""C01: write -> load round trip keeps every entity and value."""
import StringIO
import csv
import itertools

import transitfeed

import feeds
from core import Scenario, deviations

TEXT = [u'', u'0', u'x', u'Zürich – Café', u'a,b', u'say "hi", ok', u"it's",
        u'  inner  x', u'中文', u'a\tb', u'back\\slash', u'1.0', u'00', u'-',
        u'#', u"'", u'"', u';', u'😀', u'None', u'null', u'e\u0301', u'%s %d',
        u'{0}', u'<b>&amp;</b>']
IDS = [u'0', u'Ω,1', u'a "q"', u'x y', u'1', u'10', u'001', u'None', u'%',
       u'é']
TIMEZONES = [u'Europe/Zurich', u'America/New_York']

# column -> values that the format allows (each loads without an error)
V = {
    'agency_name': TEXT[1:], 'agency_url': [u'https://x/?a=1,2&b="q"',
                                            u'http://ü.example'],
    'agency_lang': [u'', u'de', u'EN'], 'agency_phone': TEXT,
    'agency_fare_url': [u'', u'https://y/ü'],
    'agency_email': [u'', u'a@b.c', u'ü@b.c'],
    'stop_name': TEXT[1:], 'stop_desc': TEXT, 'stop_code': TEXT,
    'stop_lat': [u'0', u'-36.5', u'90', u'36', u'+36.10', u'36.123456789',
                 u'-0.000001', u'1e1'],
    'stop_lon': [u'0', u'-180', u'180.0', u'116.123456789', u'-0.5'],
    'stop_url': [u'', u'http://z/?q="1,2"', u'https://ü'],
    'location_type': [u'', u'0', u'2', u'3', u'4'],
    'stop_timezone': [u'', u'Asia/Tokyo'], 'wheelchair_boarding':
        [u'', u'0', u'1', u'2'],
    'route_short_name': TEXT, 'route_long_name': TEXT[1:],
    'route_desc': TEXT, 'route_type': [u'0', u'1', u'2', u'7', u'03'],
    'route_url': [u'', u'https://ü/,'], 'route_color':
        [u'', u'00FFff', u'000000', u'0000fF'], 'route_text_color':
        [u'', u'FFFFFF', u'012345'], 'bikes_allowed': [u'', u'0', u'1', u'2'],
    'trip_headsign': TEXT, 'trip_short_name': TEXT, 'direction_id':
        [u'', u'0', u'1'], 'block_id': TEXT, 'wheelchair_accessible':
        [u'', u'0', u'1', u'2'], 'original_trip_id': TEXT,
    'stop_headsign': TEXT, 'pickup_type': [u'', u'0', u'1', u'2', u'3'],
    'drop_off_type': [u'', u'0', u'1', u'2', u'3'],
    'timepoint': [u'', u'0', u'1'], 'exact_times': [u'', u'0', u'1'],
    'headway_secs': [u'1', u'60', u'86400'],
    'price': [u'0', u'0.0', u'1', u'0.05', u'123456.78', u'1e2'],
    'currency_type': [u'EUR', u'JPY'], 'payment_method': [u'0', u'1'],
    'transfers': [u'', u'0', u'1', u'2'],
    'transfer_duration': [u'', u'0', u'1', u'7200'],
    'transfer_type': [u'', u'0', u'1', u'2', u'3'],
    'min_transfer_time': [u'', u'0', u'1', u'600'],
    'feed_publisher_name': TEXT[1:], 'feed_publisher_url':
        [u'https://ü/"'], 'feed_lang': [u'de', u'EN'], 'feed_start_date':
        [u'', u'20090101'], 'feed_end_date': [u'', u'20111231'],
    'feed_version': TEXT,
    'start_date': [u'20000229', u'20100601'], 'end_date':
        [u'20100102', u'20991231'],
    'monday': [u'0', u'1'], 'tuesday': [u'0', u'1'], 'wednesday':
        [u'0', u'1'], 'thursday': [u'0', u'1'], 'friday': [u'0', u'1'],
    'saturday': [u'0', u'1'], 'sunday': [u'0', u'1'],
    'date': [u'20100101', u'20200229', u'20090101'],
    'exception_type': [u'1', u'2'],
    'shape_pt_lat': [u'36', u'-36.5', u'90', u'36.123456789', u'0'],
    'shape_pt_lon': [u'-180', u'0', u'1', u'116.123456789'],
}
# (file, column) specific
VF = {
    ('shapes.txt', 'shape_dist_traveled'): {
        0: [u'', u'0', u'0.5'], 1: [u'', u'0', u'1.23456789', u'1'],
        2: [u'', u'2', u'1000.25'], 3: [u'', u'0', u'1'],
        4: [u'', u'2', u'100']},
    ('stop_times.txt', 'shape_dist_traveled'): {
        0: [u'', u'0', u'0.0', u'0.5'], 1: [u'', u'0.25', u'1.23456789'],
        2: [u'', u'2', u'2.999'], 3: [u'', u'0', u'0.5'],
        4: [u'', u'1', u'1.5'], 5: [u'', u'0'], 6: [u'', u'0', u'7']},
    ('shapes.txt', 'shape_pt_sequence'): {
        0: [u'0', u'1'], 1: [u'2'], 2: [u'10', u'100', u'2000000000'],
        3: [u'0', u'3'], 4: [u'2', u'44']},
    ('stop_times.txt', 'stop_sequence'): {
        0: [u'0', u'1'], 1: [u'2'], 2: [u'100', u'2000000000'], 3: [u'0', u'4'],
        4: [u'6'], 5: [u'0', u'9'], 6: [u'1', u'11']},
    ('stop_times.txt', 'arrival_time'): {0: [u'5:59:59', u'00:00:00'],
                                         2: [u'6:20:59'], 5: [u'0:00:00'],
                                         6: [u'24:00:00', u'24:12:00']},
    ('stop_times.txt', 'departure_time'): {2: [u'6:20:00', u'99:59:59'],
                                           6: [u'47:00:00', u'100:00:00',
                                               u'999:59:59']},
    ('frequencies.txt', 'start_time'): {0: [u'0:00:00', u'9:59:59'],
                                        1: [u'10:00:01']},
    ('frequencies.txt', 'end_time'): {0: [u'9:59:59', u'08:00:01'],
                                      1: [u'24:00:00', u'100:00:00']},
    ('fare_rules.txt', 'route_id'): {0: [u'', u'R1', u'R2']},
    ('fare_rules.txt', 'origin_id'): {0: [u'', u'Z1', u'Z2'], 2: [u'Z1']},
    ('fare_rules.txt', 'destination_id'): {0: [u'', u'Z1']},
    ('fare_rules.txt', 'contains_id'): {0: [u'Z2'], 2: [u'']},
    ('trips.txt', 'shape_id'): {0: [u'', u'SH2'], 2: [u'SH1']},
    ('stops.txt', 'parent_station'): {0: [u'', u'ST'], 1: [u'ST']},
    ('stops.txt', 'location_type'): {3: [u'1']},
}
# identifier renamings: (file, column) and where it is referred to
REFS = {
    ('agency.txt', 'agency_id', u'AG1'): [('routes.txt', 'agency_id')],
    ('stops.txt', 'stop_id', u'S1'): [('stop_times.txt', 'stop_id'),
                                      ('transfers.txt', 'from_stop_id'),
                                      ('transfers.txt', 'to_stop_id')],
    ('stops.txt', 'stop_id', u'ST'): [('stops.txt', 'parent_station')],
    ('stops.txt', 'zone_id', u'Z1'): [('fare_rules.txt', 'origin_id'),
                                      ('fare_rules.txt', 'contains_id')],
    ('routes.txt', 'route_id', u'R1'): [('trips.txt', 'route_id'),
                                        ('fare_rules.txt', 'route_id')],
    ('calendar.txt', 'service_id', u'WK'): [('trips.txt', 'service_id'),
                                            ('calendar_dates.txt',
                                             'service_id')],
    ('shapes.txt', 'shape_id', u'SH1'): [('trips.txt', 'shape_id')],
    ('trips.txt', 'trip_id', u'T1'): [('stop_times.txt', 'trip_id')],
    ('trips.txt', 'trip_id', u'T3'): [('stop_times.txt', 'trip_id'),
                                      ('frequencies.txt', 'trip_id')],
    ('fare_attributes.txt', 'fare_id', u'F1'): [('fare_rules.txt',
                                                 'fare_id')],
}
BASE = feeds.base()


def values(fn, col, i):
  if (fn, col) in VF:
    return VF[(fn, col)].get(i, [])
  return V.get(col, [])


def normalised(data):
  """File contents without row order: header set and sorted rows."""
  out = {}
  for name, raw in feeds.unzip(data).items():
    rows = list(csv.reader(StringIO.StringIO(raw)))
    head = rows[0]
    out[name] = (sorted(head), sorted(
        sorted((h, v) for h, v in itertools.izip_longest(head, r,
                                                         fillvalue='<none>'))
        for r in rows[1:]), len(set(head)) == len(head))
  return out


def write(s):
  out = StringIO.StringIO()
  s.WriteGoogleTransitFeed(out)
  return out.getvalue()


# Judgements about distances between places; not about reading a value.
GEO = ('TransferDistanceTooBig', 'TransferWalkingSpeedTooFast',
       'StopTooFarFromParentStation', 'StopTooFarFromShapeWithDistTraveled')


def hard(rec):
  return [k for k in rec.keys(True) if k[1] == 'E' and k[0] not in GEO]


def round_trip(x, s1, want, what):
  """s1 was loaded/built and means want; write, load, compare; again."""
  one = feeds.observe(s1)
  x.step()
  if one != want:
    x.fail('load:' + feeds.diff_key(one, want),
           what + '\n' + '\n'.join(feeds.diff(one, want)))
    return
  w1 = write(s1)
  s2, rec2 = feeds.load(w1)
  two = feeds.observe(s2)
  x.step()
  x.state(two)
  errs = hard(rec2)
  x.check(not errs, 'reload-errors', lambda: '%s: %r' % (what, errs))
  if two != one:
    x.fail('reload:' + feeds.diff_key(two, one),
           what + '\n' + '\n'.join(feeds.diff(two, one)))
    return
  w2 = write(s2)
  x.step()
  n1, n2 = normalised(w1), normalised(w2)
  if n1 != n2:
    for k in sorted(set(n1) | set(n2)):
      if n1.get(k) != n2.get(k):
        x.fail('rewrite:' + k, '%s: first write %r, second write %r' %
               (what, n1.get(k), n2.get(k)))


def go(x, feed, what):
  s1, rec = feeds.load(feed)
  errs = hard(rec)
  if errs:
    x.outcome('not-sound')
    x.fail('unsound-case', '%s: %r' % (what, errs))
    return
  x.outcome('ok')
  round_trip(x, s1, feeds.expected(feed), what)


def gen_cell(tier):
  yield ()
  for fn, t in BASE.tables.items():
    for i in range(len(t.rows)):
      for c in t.cols:
        for v in values(fn, c, i):
          if v != t.rows[i][c]:
            yield ((fn, i, c, v),)


def zero_like(vals):
  """A few telling values per column for the pair product."""
  pick = [v for v in vals if v in (u'', u'0', u'0.0', u'a,b', u'2', u'1')]
  return pick[:3] or vals[:1]


def gen_pair(tier):
  for fn, t in BASE.tables.items():
    for i in range(len(t.rows)):
      if tier == 'quick' and i > 0:
        continue
      for c, d in itertools.combinations(t.cols, 2):
        cv, dv = values(fn, c, i), values(fn, d, i)
        if tier == 'quick':
          cv, dv = zero_like(cv), zero_like(dv)
        else:
          cv, dv = cv[:8], dv[:8]
        for v in cv:
          for w in dv:
            if v != t.rows[i][c] and w != t.rows[i][d]:
              yield ((fn, i, c, v), (fn, i, d, w))


def run_cells(x, case):
  f = BASE.copy()
  for fn, i, c, v in case:
    f[fn].rows[i][c] = v
  if not consistent(f):
    x.outcome('skipped-inconsistent')
    return
  go(x, f, repr(case))


def consistent(f):
  """Keep only cases whose rows obey the format's cross-field rules."""
  for r in f['routes.txt'].rows:
    if not r['route_short_name'] and not r['route_long_name']:
      return False
    if r['route_desc'] and r['route_desc'] in (r['route_short_name'],
                                               r['route_long_name']):
      return False
  for r in f['transfers.txt'].rows:
    if r['min_transfer_time'] and r['transfer_type'] != u'2':
      return False
  for r in f['stops.txt'].rows:
    if r['location_type'] == u'1' and r['parent_station']:
      return False
  for r in f['feed_info.txt'].rows:
    if (r['feed_start_date'] and r['feed_end_date'] and
        r['feed_start_date'] > r['feed_end_date']):
      return False
  for r in f['calendar.txt'].rows:
    if r['start_date'] > r['end_date']:
      return False
  seen = set()
  for r in f['calendar_dates.txt'].rows:
    k = (r['service_id'], r['date'])
    if k in seen:
      return False
    seen.add(k)
  for r in f['stop_times.txt'].rows:
    a, d = feeds.secs(r['arrival_time']), feeds.secs(r['departure_time'])
    if a is not None and d is not None and d < a:
      return False
  for r in f['frequencies.txt'].rows:
    if feeds.secs(r['start_time']) >= feeds.secs(r['end_time']):
      return False
  for fn in ('shapes.txt',):
    last = {}
    for r in f[fn].rows:
      if (abs(float(r['shape_pt_lat'])) < 1 and
          abs(float(r['shape_pt_lon'])) < 1):
        return False
      if r['shape_dist_traveled'] == u'':
        continue
      d = float(r['shape_dist_traveled'])
      if d < last.get(r['shape_id'], -1):
        return False
      last[r['shape_id']] = d
  return True


def gen_ids(tier):
  for k in sorted(REFS):
    for v in IDS:
      yield (k, v)


def run_ids(x, case):
  (fn, col, old), new = case
  f = BASE.copy()
  for fn2, col2 in [(fn, col)] + list(REFS[(fn, col, old)]):
    for r in f[fn2].rows:
      if r[col2] == old:
        r[col2] = new
  go(x, f, repr(case))


OPTIONAL = ['calendar.txt', 'calendar_dates.txt', 'shapes.txt',
            'frequencies.txt', 'fare_attributes.txt', 'fare_rules.txt',
            'transfers.txt', 'feed_info.txt']


def gen_tables(tier):
  # every subset of optional tables, absent or header only
  for absent in itertools.product((0, 1, 2) if tier != 'quick' else (0, 1),
                                  repeat=len(OPTIONAL)):
    if absent[0] and absent[1]:
      continue
    if absent[4] and not absent[5]:
      continue
    yield absent
  if tier == 'quick':
    for i in range(len(OPTIONAL)):
      a = [0] * len(OPTIONAL)
      a[i] = 2
      if OPTIONAL[i] == 'fare_attributes.txt':
        a[5] = 1
      yield tuple(a)


def run_tables(x, case):
  f = BASE.copy()
  for name, a in zip(OPTIONAL, case):
    if a == 1:
      del f.tables[name]
    elif a == 2:
      f[name].rows = []
  if case[0] and case[1]:
    return
  if case[0]:
    have = set(r['service_id'] for r in f['calendar_dates.txt'].rows)
    f['trips.txt'].rows = [r for r in f['trips.txt'].rows
                           if r['service_id'] in have]
  if case[2]:
    for r in f['trips.txt'].rows:
      r['shape_id'] = u''
  if case[4] == 2 and not case[5]:
    f['fare_rules.txt'].rows = []
  ids = set(r['trip_id'] for r in f['trips.txt'].rows)
  for n in ('stop_times.txt', 'frequencies.txt'):
    if n in f.tables:
      f[n].rows = [r for r in f[n].rows if r['trip_id'] in ids]
  go(x, f, repr(case))


NEEDED = set(['stop_id', 'stop_name', 'stop_lat', 'stop_lon', 'route_id',
              'route_short_name', 'route_long_name', 'route_type',
              'service_id', 'trip_id', 'arrival_time', 'departure_time',
              'stop_sequence', 'agency_name', 'agency_url',
              'agency_timezone', 'fare_id', 'price', 'currency_type',
              'payment_method', 'transfers', 'shape_id', 'shape_pt_lat',
              'shape_pt_lon', 'shape_pt_sequence', 'start_date', 'end_date',
              'monday', 'tuesday', 'wednesday', 'thursday', 'friday',
              'saturday', 'sunday', 'date', 'exception_type', 'from_stop_id',
              'to_stop_id', 'transfer_type', 'start_time', 'end_time',
              'headway_secs', 'feed_publisher_name', 'feed_publisher_url',
              'feed_lang', 'agency_id', 'zone_id'])
DICT_TABLES = ['agency.txt', 'stops.txt', 'routes.txt', 'trips.txt',
               'feed_info.txt', 'transfers.txt']


def gen_columns(tier):
  opts = [(fn, c) for fn, t in BASE.tables.items() for c in t.cols
          if c not in NEEDED or (fn, c) in (('trips.txt', 'shape_id'),
                                            ('routes.txt', 'agency_id'))]
  for o in opts:
    yield ('drop', (o,))
  k = [p for p in itertools.combinations(opts, 2)
       if tier != 'quick' or p[0][0] == p[1][0]]
  for p in k:
    yield ('drop', p)
  for fn in DICT_TABLES:
    for name in (u'extra', u'ext ra', u'größe', u'x"y', u'a,b', u'schedule',
                 u'name', u'0'):
      for v in TEXT if name == u'extra' else (u'', u'0', u'é,"'):
        yield ('add', fn, name, v)
  for fn in DICT_TABLES:
    yield ('add2', fn)
  yield ('single-agency',)


def run_columns(x, case):
  f = BASE.copy()
  if case[0] == 'drop':
    for fn, c in case[1]:
      f[fn].cols.remove(c)
      for r in f[fn].rows:
        del r[c]
    if ('routes.txt', 'agency_id') in [tuple(p) for p in case[1]]:
      f['agency.txt'].rows = f['agency.txt'].rows[:1]
    if ('stops.txt', 'location_type') in [tuple(p) for p in case[1]]:
      for r in f['stops.txt'].rows:
        if 'parent_station' in r:
          r['parent_station'] = u''
  elif case[0] == 'add':
    f[case[1]].add_col(case[2])
    f[case[1]].rows[-1][case[2]] = case[3]
  elif case[0] == 'add2':
    f[case[1]].cols.insert(0, u'first')
    f[case[1]].cols.insert(2, u'third')
    for i, r in enumerate(f[case[1]].rows):
      r[u'first'] = u'f%d' % i
      r[u'third'] = u'' if i else u't'
  else:
    f['agency.txt'].rows = f['agency.txt'].rows[:1]
    f['agency.txt'].rows[0]['agency_id'] = u''
    for r in f['routes.txt'].rows:
      r['agency_id'] = u''
  want = feeds.expected(f)
  s1, rec = feeds.load(f)
  errs = hard(rec)
  x.check(not errs, 'unsound-case', lambda: '%r %r' % (case, errs))
  round_trip(x, s1, want, repr(case))


# ---- row multiplicity and order ------------------------------------------
def gen_rows(tier):
  n = 3 if tier == 'quick' else 4
  for fn in BASE.tables:
    for size in range(0, n + 1):
      for word in itertools.product(range(2), repeat=size):
        yield (fn, word)
  for perm in itertools.permutations(range(3)):
    for fn in ('stop_times.txt', 'shapes.txt', 'calendar_dates.txt',
               'frequencies.txt', 'fare_rules.txt', 'stops.txt'):
      yield (fn, 'perm', perm)


def run_rows(x, case):
  f = BASE.copy()
  fn = case[0]
  t = f[fn]
  if len(case) == 3:
    rows = t.rows[:3]
    if len(rows) == 3:
      t.rows = [rows[i] for i in case[2]] + t.rows[3:]
    go(x, f, repr(case))
    return
  # extra rows derived from the first two, made unique where required
  extra = []
  for n, i in enumerate(case[1]):
    r = dict(t.rows[i % len(t.rows)])
    if fn in feeds.KEYS:
      r[feeds.KEYS[fn]] = u'NEW%d' % n
    elif fn == 'calendar.txt':
      r['service_id'] = u'NEW%d' % n
    elif fn == 'calendar_dates.txt':
      r['date'] = u'2010081%d' % n
    elif fn == 'shapes.txt':
      r['shape_id'] = u'NEW%d' % i
      r['shape_pt_sequence'] = unicode(10 - n)
      r['shape_dist_traveled'] = unicode(20 - 2 * n)
    elif fn == 'stop_times.txt':
      r['stop_sequence'] = unicode(50 - n)
      r['arrival_time'] = r['departure_time'] = u'%d:00:00' % (20 - n)
      r['shape_dist_traveled'] = u''
      r['trip_id'] = u'T%d' % (i + 1)
    elif fn == 'frequencies.txt':
      r['start_time'] = u'%d:00:00' % (20 - n)
      r['end_time'] = u'%d:30:00' % (20 - n)
      r['trip_id'] = u'T%d' % (i + 1)
    elif fn == 'feed_info.txt':
      return
    extra.append(r)
  t.rows = t.rows + extra
  go(x, f, repr(case))


# ---- schedules built through the API -------------------------------------
API = [
    ('stop.stop_lat', [0, 0.0, 45, -33.5, 89.999999999]),
    ('stop.stop_lon', [0, 0.0, 151, 179.123456789]),
    ('stop.location_type', [0, 2, None]),
    ('stop.stop_desc', [u'é', 'plain', None, 0]),
    ('stop.wheelchair_boarding', ['0', '1']),
    ('stop.custom', [u'c,"', 0, 1.5, None]),
    ('route.route_type', [0, 1, 3]),
    ('route.route_desc', [u'', u'déf', None]),
    ('route.custom', [u'c', 0]),
    ('trip.direction_id', ['0', '1', None]),
    ('trip.block_id', ['0', u'é', None]),
    ('trip.bikes_allowed', ['0', '1']),
    ('trip.custom', [u'c', 0]),
    ('agency.agency_phone', ['0', u'é']),
    ('agency.custom', [u'c', 0]),
    ('st.pickup_type', [0, 1, 3, None]),
    ('st.drop_off_type', [0, 2, None]),
    ('st.timepoint', [0, 1, None]),
    ('st.shape_dist_traveled', [0, 0.0, 1, 2.25, None]),
    ('st.stop_headsign', [u'é"', '0', None]),
    ('st.time', ['00:00:00', '23:59:59', '100:00:00']),
    ('fare.price', [0, 0.0, 1.5]), ('fare.payment_method', [0, 1]),
    ('fare.transfers', [0, 1, None]), ('fare.transfer_duration', [0, 5, None]),
    ('rule.origin_id', [None, 'Z']), ('rule.route_id', [None, 'R']),
    ('freq.headway', [1, 600]), ('freq.exact', [0, 1]),
    ('freq.start', ['0:00:00', '6:00:00']),
    ('shape.dist', [0, None, 3.5]), ('shape.lat', [45, -0.0, 0]),
    ('cal.dates', [(), (('20100601', True),), (('20100601', False),
                                               ('20110101', True))]),
    ('cal.range', [('20100101', '20101231'), (None, None)]),
    ('xfer.transfer_type', [0, 1, 2, 3]),
    ('xfer.min_transfer_time', [None, 0, 300]),
    ('feedinfo', [None, 1]),
]
API_BASE = dict((n, v[0]) for n, v in API)
API_BASE['shape.lat'] = 45
API_BASE['stop.stop_lat'] = 45
API_BASE['stop.stop_lon'] = 151
API_BASE['cal.dates'] = ()
for _n in ('stop.custom', 'route.custom', 'trip.custom', 'agency.custom'):
  API_BASE[_n] = 'absent'


def gen_api(tier):
  doms = [(n, list(v)) for n, v in API]
  for d, dev in deviations(API_BASE, doms, 2 if tier != 'quick' else 1):
    yield dev
  if tier == 'quick':  # pairs inside one entity
    groups = {}
    for n, v in API:
      groups.setdefault(n.split('.')[0], []).append((n, v[:3]))
    for g in sorted(groups):
      for d, dev in deviations(API_BASE, groups[g], 2):
        if len(dev) == 2:
          yield dev


def run_api(x, case):
  c = dict(API_BASE)
  c.update((k, v) for k, v in case)
  s = transitfeed.Schedule()
  a = s.AddAgency('Ag', 'http://x/', 'Europe/Zurich', agency_id='A')
  s.AddStop(45.5, 151.5, 'far', stop_id='OTHER')
  stop = s.AddStop(c['stop.stop_lat'], c['stop.stop_lon'], 'st', stop_id='ST')
  stop.zone_id = 'Z'
  s.fare_zones['Z'] = True
  route = s.AddRoute('1', 'Long', c['route.route_type'], route_id='R')
  p = s.NewDefaultServicePeriod()
  p.SetStartDate(c['cal.range'][0])
  p.SetEndDate(c['cal.range'][1])
  p.SetWeekdayService(True)
  for d, on in c['cal.dates']:
    p.SetDateHasService(d, on)
  if c['cal.range'][0] is None:
    p.SetWeekdayService(False)
    p.SetDateHasService('20100909')
  trip = route.AddTrip(s, headsign='hd', trip_id='T')
  for obj, name in ((stop, 'stop'), (route, 'route'), (trip, 'trip'),
                    (a, 'agency')):
    for k in sorted(c):
      if k.startswith(name + '.') and k not in ('stop.stop_lat',
                                                'stop.stop_lon',
                                                'route.route_type'):
        if c[k] != 'absent':
          setattr(obj, k.split('.')[1], c[k])
  trip.AddStopTime(stop, stop_time=c['st.time'], pickup_type=c['st.pickup_type'],
                   drop_off_type=c['st.drop_off_type'],
                   timepoint=c['st.timepoint'],
                   stop_headsign=c['st.stop_headsign'],
                   shape_dist_traveled=c['st.shape_dist_traveled'])
  trip.AddStopTime(s.GetStop('OTHER'), stop_time='101:00:00')
  trip.AddFrequency(c['freq.start'], '7:00:00', c['freq.headway'],
                    c['freq.exact'])
  sh = transitfeed.Shape('SH')
  sh.AddPoint(c['shape.lat'], 100, c['shape.dist'])
  sh.AddPoint(46, 100.5, None if c['shape.dist'] is None else 4)
  s.AddShapeObject(sh)
  trip.shape_id = 'SH'
  fare = transitfeed.FareAttribute(
      'F', c['fare.price'], 'USD', c['fare.payment_method'],
      c['fare.transfers'], c['fare.transfer_duration'])
  s.AddFareAttributeObject(fare)
  rule = transitfeed.FareRule('F', c['rule.route_id'], c['rule.origin_id'],
                              None, None)
  s.AddFareRuleObject(rule)
  xf = transitfeed.Transfer(from_stop_id='ST', to_stop_id='OTHER',
                            transfer_type=str(c['xfer.transfer_type']))
  if c['xfer.min_transfer_time'] is not None:
    xf.min_transfer_time = c['xfer.min_transfer_time']
    xf.transfer_type = 2
  s.AddTransferObject(xf)
  if c['feedinfo']:
    fi = transitfeed.FeedInfo(field_dict={
        'feed_publisher_name': u'é', 'feed_publisher_url': 'http://x',
        'feed_lang': 'en'})
    s.AddFeedInfoObject(fi)
  # the model of what was built, from the arguments alone
  def drop(d):
    return dict((k, feeds.cell(k, v)) for k, v in d.items()
                if feeds.cell(k, v) != u'')
  cust = lambda n: None if c[n] == 'absent' else c[n]
  want = {
      'agency.txt': {u'A': drop({
          'agency_id': 'A', 'agency_name': 'Ag', 'agency_url': 'http://x/',
          'agency_timezone': 'Europe/Zurich',
          'agency_phone': c['agency.agency_phone'],
          'custom': cust('agency.custom')})},
      'routes.txt': {u'R': drop({
          'route_id': 'R', 'agency_id': 'A', 'route_short_name': '1',
          'route_long_name': 'Long', 'route_type': c['route.route_type'],
          'route_desc': c['route.route_desc'],
          'custom': cust('route.custom')})},
      'trips.txt': {u'T': drop({
          'trip_id': 'T', 'route_id': 'R', 'service_id': p.service_id,
          'trip_headsign': 'hd', 'direction_id': c['trip.direction_id'],
          'block_id': c['trip.block_id'], 'shape_id': 'SH',
          'bikes_allowed': c['trip.bikes_allowed'],
          'custom': cust('trip.custom')})},
      'fare_attributes.txt': {u'F': drop({
          'fare_id': 'F', 'price': c['fare.price'], 'currency_type': 'USD',
          'payment_method': c['fare.payment_method'],
          'transfers': c['fare.transfers'],
          'transfer_duration': c['fare.transfer_duration']})},
      'fare_rules.txt': [sorted(drop({
          'fare_id': 'F', 'route_id': c['rule.route_id'],
          'origin_id': c['rule.origin_id']}).items())],
      'transfers.txt': [sorted(drop({
          'from_stop_id': 'ST', 'to_stop_id': 'OTHER',
          'transfer_type': c['xfer.transfer_type']
              if c['xfer.min_transfer_time'] is None else 2,
          'min_transfer_time': c['xfer.min_transfer_time']}).items())],
      'shapes.txt': {u'SH': [
          (float(c['shape.lat']), 100.0, None if c['shape.dist'] is None
           else float(c['shape.dist'])),
          (46.0, 100.5, None if c['shape.dist'] is None else 4.0)]},
      'stop_times.txt': {u'T': [
          (feeds.secs(U(c['st.time'])), feeds.secs(U(c['st.time'])), u'ST', 1,
           feeds.text(c['st.stop_headsign']), c['st.pickup_type'],
           c['st.drop_off_type'], None if c['st.shape_dist_traveled'] is None
           else float(c['st.shape_dist_traveled']), c['st.timepoint']),
          (363600, 363600, u'OTHER', 2, u'', None, None, None, None)]},
      'frequencies.txt': {u'T': [(feeds.secs(U(c['freq.start'])), 25200,
                                  c['freq.headway'], c['freq.exact'])]},
      'feed_info.txt': {'feed_publisher_name': u'é', 'feed_publisher_url':
                        u'http://x', 'feed_lang': u'en'}
                       if c['feedinfo'] else None,
  }
  ex = [(d, 1 if on else 2) for d, on in c['cal.dates']]
  wd = (True,) * 5 + (False,) * 2
  if c['cal.range'][0] is None:
    ex.append(('20100909', 1))
    wd = (False,) * 7
  want['calendar'] = {U(p.service_id): (
      U(c['cal.range'][0] or ''), U(c['cal.range'][1] or ''), wd,
      sorted((U(d), e) for d, e in ex))}
  want['stops.txt'] = {
      u'OTHER': drop({'stop_id': 'OTHER', 'stop_name': 'far',
                      'stop_lat': 45.5, 'stop_lon': 151.5}),
      u'ST': drop({'stop_id': 'ST', 'stop_name': 'st',
                   'stop_lat': c['stop.stop_lat'],
                   'stop_lon': c['stop.stop_lon'], 'zone_id': 'Z',
                   'location_type': c['stop.location_type'],
                   'stop_desc': c['stop.stop_desc'],
                   'wheelchair_boarding': c['stop.wheelchair_boarding'],
                   'custom': cust('stop.custom')})}
  w1 = write(s)
  x.step()
  s2, rec = feeds.load(w1)
  got = feeds.observe(s2)
  for o in (got, want):
    for d in o['stops.txt'].values():
      d.setdefault('location_type', 0.0)
  x.state(got)
  x.outcome('ok')
  x.step()
  errs = hard(rec)
  x.check(not errs, 'reload-errors', lambda: '%r: %r' % (case, errs))
  if got != want:
    x.fail('api:' + feeds.diff_key(got, want),
           '%r\n%s' % (case, '\n'.join(feeds.diff(got, want))))
  w2 = write(s2)
  s3, rec3 = feeds.load(w2)
  n1, n2 = normalised(w2), normalised(write(s3))
  x.step()
  if got == want and n1 != n2:
    for k in sorted(set(n1) | set(n2)):
      if n1.get(k) != n2.get(k):
        x.fail('rewrite:' + k, '%r: one write %r, next write %r' %
               (case, n1.get(k), n2.get(k)))



U = feeds.U

# ---- calendars built through the API --------------------------------------------------
CALEXC = ((), (('20100601', 1),), (('20100602', 2),),
          (('20091231', 1), ('20110101', 2)), (('20100606', 2), ('20100607', 1)))


def gen_calendar(tier):
  for ranged in (1, 0):
    for e in range(len(CALEXC)):
      for part in range(8):
        if ranged or (e and part == 0):
          yield (ranged, e, part)


def run_calendar(x, case):
  ranged, e, part = case
  s = transitfeed.Schedule()
  s.AddAgency('Ag', 'http://x/', 'Europe/Zurich', agency_id='A')
  s.AddStop(45.5, 151.5, 'a', stop_id='ST')
  s.AddStop(45.6, 151.5, 'b', stop_id='SU')
  r = s.AddRoute('1', 'Long', 3, route_id='R')
  want = {}
  masks = range(16 * part, 16 * part + 16) if ranged else [0]
  for m in masks:
    p = transitfeed.ServicePeriod('P%d' % m)
    if ranged:
      p.SetStartDate('20100101')
      p.SetEndDate('20101231')
    dow = [bool(m >> k & 1) for k in range(7)]
    for k in range(7):
      p.SetDayOfWeekHasService(k, dow[k])
    for d, t in CALEXC[e]:
      p.SetDateHasService(d, t == 1)
    s.AddServicePeriodObject(p)
    want[U('P%d' % m)] = (U('20100101' if ranged else ''),
                          U('20101231' if ranged else ''), tuple(dow),
                          sorted((U(d), t) for d, t in CALEXC[e]))
    trip = r.AddTrip(s, service_period=p, trip_id='T%d' % m)
    trip.AddStopTime(s.GetStop('ST'), stop_time='08:%02d:00' % (m % 60))
    trip.AddStopTime(s.GetStop('SU'), stop_time='10:00:00')
  for k in range(2):
    s, rec = feeds.load(write(s))
    x.step()
    x.eq(feeds.observe(s)['calendar'], want, 'calendar', repr((case, k)))
    x.eq(sorted(p.service_id for p in s.GetServicePeriodList()),
         sorted(want), 'services', repr((case, k)))
  x.state(want)
  x.outcome('ranged' if ranged else 'dates only')


SCENARIOS = [
    Scenario('calendar', gen_calendar, run_calendar,
             bound='all 128 weekday sets x 5 exception sets with a date range '
                   'and 4 without, built through the API'),
    Scenario('cell', gen_cell, run_cells,
             bound='base feed (13 tables, all columns), every cell, every '
                   'value of its alphabet'),
    Scenario('ids', gen_ids, run_ids,
             bound='every identifier renamed with its references, 10 values'),
    Scenario('columns', gen_columns, run_columns,
             bound='1-2 optional columns dropped, extra columns added'),
    Scenario('tables', gen_tables, run_tables,
             bound='all subsets of 8 optional tables'),
    Scenario('rows', gen_rows, run_rows,
             bound='up to 3 (4) extra rows per table, row permutations'),
    Scenario('api', gen_api, run_api,
             bound='schedules built through the API, <=2 deviations from the '
                   'default arguments'),
    Scenario('pair', gen_pair, run_cells,
             bound='two cells of one row changed'),
]
