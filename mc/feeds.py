# -*- coding: utf-8 -*-
"""In-memory feeds, problem recording and observation of loaded schedules."""
import StringIO
import collections
import copy
import os
import zipfile

import transitfeed

U = lambda s: s if isinstance(s, unicode) else s.decode('utf-8')


class Table(object):
  """A feed file: ordered columns and rows (dicts column -> unicode)."""

  def __init__(self, cols, rows):
    self.cols = list(cols)
    self.rows = [dict(zip(self.cols, [U(v) for v in r]))
                 if not isinstance(r, dict) else dict(r) for r in rows]

  def copy(self):
    t = Table(self.cols, [])
    t.rows = [dict(r) for r in self.rows]
    return t

  def add_col(self, name, default=u''):
    self.cols.append(name)
    for r in self.rows:
      r[name] = default


def quote(v, mode='min'):
  if isinstance(v, unicode):
    v = v.encode('utf-8')
  if mode == 'all' or any(c in v for c in ',"\r\n') or (v and v[0] == ' ' and
                                                       mode != 'raw'):
    return '"' + v.replace('"', '""') + '"'
  return v


def table_bytes(t, eol='\n', q='min', final=True):
  lines = [','.join(quote(c, q) for c in t.cols)]
  for r in t.rows:
    lines.append(','.join(quote(r.get(c, u''), q) for c in t.cols))
  s = eol.join(lines)
  return s + eol if final else s


class Feed(object):
  def __init__(self, tables=None):
    self.tables = collections.OrderedDict(tables or [])
    self.raw = {}       # file -> bytes overriding the table
    self.missing = set()

  def copy(self):
    f = Feed([(k, v.copy()) for k, v in self.tables.items()])
    f.raw = dict(self.raw)
    f.missing = set(self.missing)
    return f

  def __getitem__(self, name):
    return self.tables[name]

  def files(self, **kw):
    out = collections.OrderedDict()
    for k, t in self.tables.items():
      if k in self.missing:
        continue
      out[k] = self.raw[k] if k in self.raw else table_bytes(t, **kw)
    for k in self.raw:
      if k not in out and k not in self.missing:
        out[k] = self.raw[k]
    return out

  def zip(self, **kw):
    return zip_bytes(self.files(**kw))


def zip_bytes(files):
  s = StringIO.StringIO()
  z = zipfile.ZipFile(s, 'w')
  for name, data in files.items():
    z.writestr(name, data)
  z.close()
  return s.getvalue()


def unzip(data):
  z = zipfile.ZipFile(StringIO.StringIO(data), 'r')
  d = dict((n, z.read(n)) for n in z.namelist())
  z.close()
  return d


def write_dir(files, path):
  os.mkdir(path)
  for name, data in files.items():
    f = open(os.path.join(path, name), 'wb')
    f.write(data)
    f.close()


class Recorder(transitfeed.ProblemAccumulatorInterface):
  """Keeps every problem."""

  def __init__(self):
    self.problems = []

  def _Report(self, e):
    self.problems.append(e)

  def keys(self, full=False):
    return [problem_key(e, full) for e in self.problems]

  def clear(self):
    self.problems = []


TYPES = {0: 'E', 1: 'W', 2: 'N'}


def ptype(e):
  return 'E' if e.IsError() else 'W' if e.IsWarning() else 'N'


def txt(v):
  if v is None:
    return None
  if isinstance(v, unicode):
    return v
  if isinstance(v, str):
    try:
      return v.decode('utf-8')
    except UnicodeDecodeError:
      return v.decode('latin-1')
  return unicode(v)


def problem_key(e, full=False):
  k = [e.__class__.__name__, ptype(e), txt(getattr(e, 'column_name', None)),
       txt(getattr(e, 'value', None))]
  if full:
    k += [txt(getattr(e, 'file_name', None)), getattr(e, 'row_num', None)]
  return tuple(k)


def reporter():
  rec = Recorder()
  return transitfeed.ProblemReporter(rec), rec


def load(feed, extra_validation=False, memory_db=True, factory=None,
         check_duplicate_trips=False, load_stop_times=True):
  """Loads a Feed (or zip bytes or path); returns schedule, recorder."""
  pr, rec = reporter()
  if isinstance(feed, Feed):
    feed = feed.zip()
  if isinstance(feed, str) and not feed.startswith('/'):
    feed = StringIO.StringIO(feed)
  kw = {}
  if factory is not None:
    kw['gtfs_factory'] = factory
  loader_class = factory.Loader if factory is not None else transitfeed.Loader
  s = loader_class(feed, problems=pr, extra_validation=extra_validation,
                   memory_db=memory_db, load_stop_times=load_stop_times,
                   check_duplicate_trips=check_duplicate_trips, **kw).Load()
  return s, rec


def T(cols, *rows):
  return Table(cols.split(','), rows)


def base():
  """A sound feed with every table and every column, no problems at all."""
  f = Feed()
  t = f.tables
  t['agency.txt'] = T(
      'agency_id,agency_name,agency_url,agency_timezone,agency_lang,'
      'agency_phone,agency_fare_url,agency_email',
      ['AG1', 'First Agency', 'http://a.example/', 'America/Los_Angeles', 'en',
       '123', 'http://a.example/fare', 'x@a.example'],
      ['AG2', 'Second Agency', 'http://b.example/', 'America/Los_Angeles', 'en',
       '', '', ''])
  t['stops.txt'] = T(
      'stop_id,stop_name,stop_lat,stop_lon,stop_desc,zone_id,stop_url,'
      'stop_code,location_type,parent_station,stop_timezone,'
      'wheelchair_boarding',
      ['S1', 'One', '36.100000', '-116.100000', 'first', 'Z1',
       'http://a.example/s1', '11', '0', 'ST', '', '1'],
      ['S2', 'Two', '36.110000', '-116.110000', '', 'Z2', '', '12', '0', '',
       'America/Los_Angeles', '2'],
      ['S3', 'Three', '36.120000', '-116.120000', '', 'Z1', '', '', '', '', '',
       '0'],
      ['ST', 'Station', '36.100100', '-116.100000', '', '', '', '', '1', '', '',
       ''])
  t['routes.txt'] = T(
      'route_id,route_short_name,route_long_name,route_type,agency_id,'
      'route_desc,route_url,route_color,route_text_color,bikes_allowed',
      ['R1', '1', 'First Line', '3', 'AG1', 'desc one', 'http://a.example/r1',
       'FFFFFF', '000000', '1'],
      ['R2', '2', 'Second Line', '3', 'AG2', '', '', '', '', ''])
  t['calendar.txt'] = T(
      'service_id,start_date,end_date,monday,tuesday,wednesday,thursday,'
      'friday,saturday,sunday',
      ['WK', '20100101', '20101231', '1', '1', '1', '1', '1', '0', '0'],
      ['WE', '20100101', '20101231', '0', '0', '0', '0', '0', '1', '1'])
  t['calendar_dates.txt'] = T(
      'service_id,date,exception_type',
      ['WK', '20100704', '1'], ['WK', '20100705', '2'],
      ['WE', '20100705', '1'])
  t['shapes.txt'] = T(
      'shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,'
      'shape_dist_traveled',
      ['SH1', '36.1', '-116.1', '1', '0'],
      ['SH1', '36.11', '-116.11', '2', '1.5'],
      ['SH1', '36.12', '-116.12', '3', '3'],
      ['SH2', '36.12', '-116.12', '1', '0'],
      ['SH2', '36.11', '-116.11', '4', '2'])
  t['trips.txt'] = T(
      'route_id,service_id,trip_id,trip_headsign,trip_short_name,'
      'direction_id,block_id,shape_id,bikes_allowed,wheelchair_accessible,'
      'original_trip_id',
      ['R1', 'WK', 'T1', 'to three', 't1', '0', 'B1', 'SH1', '1', '1', 'o1'],
      ['R1', 'WE', 'T2', '', '', '1', 'B1', 'SH2', '', '2', ''],
      ['R2', 'WK', 'T3', 'back', '', '', '', '', '2', '', ''])
  t['stop_times.txt'] = T(
      'trip_id,arrival_time,departure_time,stop_id,stop_sequence,'
      'stop_headsign,pickup_type,drop_off_type,shape_dist_traveled,timepoint',
      ['T1', '06:00:00', '06:00:00', 'S1', '1', 'head', '0', '0', '0', '1'],
      ['T1', '', '', 'S2', '2', '', '1', '0', '1.5', '0'],
      ['T1', '06:20:00', '06:21:00', 'S3', '3', '', '', '1', '3', ''],
      ['T2', '07:00:00', '07:00:00', 'S3', '1', '', '', '', '0', ''],
      ['T2', '07:10:00', '07:10:00', 'S2', '5', '', '2', '3', '2', ''],
      ['T3', '23:50:00', '23:50:00', 'S2', '0', '', '', '', '', ''],
      ['T3', '24:10:00', '24:12:00', 'S1', '10', '', '', '', '', ''])
  t['frequencies.txt'] = T(
      'trip_id,start_time,end_time,headway_secs,exact_times',
      ['T3', '08:00:00', '10:00:00', '1800', '0'],
      ['T3', '10:00:00', '11:00:00', '600', '1'])
  t['fare_attributes.txt'] = T(
      'fare_id,price,currency_type,payment_method,transfers,'
      'transfer_duration',
      ['F1', '1.25', 'USD', '0', '0', '3600'],
      ['F2', '2.5', 'USD', '1', '', ''])
  t['fare_rules.txt'] = T(
      'fare_id,route_id,origin_id,destination_id,contains_id',
      ['F1', 'R1', 'Z1', 'Z2', ''], ['F1', 'R2', '', '', ''],
      ['F2', '', '', '', 'Z1'])
  t['transfers.txt'] = T(
      'from_stop_id,to_stop_id,transfer_type,min_transfer_time',
      ['S1', 'S2', '0', ''], ['S2', 'S1', '2', '1200'])
  t['feed_info.txt'] = T(
      'feed_publisher_name,feed_publisher_url,feed_lang,feed_start_date,'
      'feed_end_date,feed_version',
      ['Publisher', 'http://p.example/', 'en', '20100101', '20101231', 'v1'])
  return f


KEYS = {'agency.txt': 'agency_id', 'stops.txt': 'stop_id',
        'routes.txt': 'route_id', 'trips.txt': 'trip_id',
        'fare_attributes.txt': 'fare_id'}


def num(v):
  """Numbers are compared as numbers, everything else as text."""
  if v is None or v == '':
    return u''
  if isinstance(v, bool):
    return float(v)
  if isinstance(v, (int, long, float)):
    return float(v)
  try:
    return float(v)
  except ValueError:
    return U(v)


def text(v):
  if v is None:
    return u''
  if isinstance(v, str):
    return U(v)
  if isinstance(v, float) and v == int(v) and abs(v) < 1e9:
    return unicode(int(v))
  return unicode(v)


NUMERIC = set(['stop_lat', 'stop_lon', 'location_type', 'route_type',
               'price', 'payment_method', 'transfers', 'transfer_duration',
               'transfer_type', 'min_transfer_time'])
DEFAULT0 = set(['location_type', 'transfer_type'])


def cell(col, v):
  if col in NUMERIC:
    n = num(v)
    if n == u'' and col in DEFAULT0:
      return 0.0
    return n
  return text(v)


def entity(obj, cols):
  d = {}
  for c in cols:
    try:
      v = obj[c]
    except (AttributeError, KeyError):
      v = getattr(obj, c, None)
    v = cell(c, v)
    if v != u'':
      d[U(c)] = v
  return d


def attrs(obj):
  """Public columns an entity object has."""
  return [k for k in obj.keys() if k not in ('rules',)]


def observe(s):
  """Everything a schedule says, through its public API, order-free."""
  quiet = reporter()[0]
  o = {}
  o['agency.txt'] = dict((text(a.agency_id), entity(a, attrs(a)))
                         for a in s.GetAgencyList())
  o['stops.txt'] = dict((text(a.stop_id), entity(a, attrs(a)))
                        for a in s.GetStopList())
  o['routes.txt'] = dict((text(a.route_id), entity(a, attrs(a)))
                         for a in s.GetRouteList())
  o['trips.txt'] = dict((text(a.trip_id), entity(a, attrs(a)))
                        for a in s.GetTripList())
  o['calendar'] = dict((text(p.service_id), period(p))
                       for p in s.GetServicePeriodList())
  o['fare_attributes.txt'] = dict(
      (text(f.fare_id), entity(f, f._FIELD_NAMES))
      for f in s.GetFareAttributeList())
  o['fare_rules.txt'] = sorted(
      sorted(entity(r, r._FIELD_NAMES).items())
      for f in s.GetFareAttributeList() for r in f.GetFareRuleList())
  o['transfers.txt'] = sorted(
      sorted(entity(t, attrs(t)).items()) for t in s.GetTransferList())
  o['shapes.txt'] = dict(
      (text(sh.shape_id), [(float(a), float(b),
                            None if c is None else float(c))
                           for a, b, c in sh.points])
      for sh in s.GetShapeList())
  o['stop_times.txt'] = dict(
      (text(t.trip_id), [stoptime(st) for st in t.GetStopTimes(quiet)])
      for t in s.GetTripList())
  o['frequencies.txt'] = dict(
      (text(t.trip_id), [tuple(f) for f in t.GetFrequencyTuples()])
      for t in s.GetTripList() if t.GetFrequencyTuples())
  fi = s.feed_info
  o['feed_info.txt'] = entity(fi, attrs(fi)) if fi else None
  return o


def period(p):
  return (p.start_date or u'', p.end_date or u'',
          tuple(bool(d) for d in p.day_of_week),
          sorted((U(d), int(e[0])) for d, e in p.date_exceptions.items()))


def stoptime(st):
  d = st.shape_dist_traveled
  return (st.arrival_secs, st.departure_secs, text(st.stop_id),
          st.stop_sequence, text(st.stop_headsign), st.pickup_type,
          st.drop_off_type, None if d in (None, '') else float(d),
          st.timepoint)


def secs(v):
  if v == u'':
    return None
  h, m, s = v.split(':')
  return int(h) * 3600 + int(m) * 60 + int(s)


def intn(v):
  return None if v == u'' else int(v)


def expected(feed):
  """What a sound feed means, computed from its rows alone."""
  t = feed.tables
  present = lambda n: n in t and n not in feed.missing
  rows = lambda n: t[n].rows if present(n) else []
  o = {}
  def ent(row, cols):
    d = {}
    for c in cols:
      v = cell(c, row.get(c, u'').strip())
      if v != u'':
        d[U(c)] = v
    return d
  for n, key in KEYS.items():
    o[n] = dict((r.get(key, u''), ent(r, t[n].cols)) for r in rows(n))
  for d in o['stops.txt'].values():
    d.setdefault('location_type', 0.0)
  o['fare_rules.txt'] = sorted(sorted(ent(r, t['fare_rules.txt'].cols).items())
                               for r in rows('fare_rules.txt'))
  trs = []
  for r in rows('transfers.txt'):
    d = ent(r, t['transfers.txt'].cols)
    d.setdefault('transfer_type', 0.0)
    trs.append(sorted(d.items()))
  o['transfers.txt'] = sorted(trs)
  cal = {}
  for r in rows('calendar.txt'):
    cal[r['service_id']] = [r['start_date'], r['end_date'], tuple(
        r[d] == u'1' for d in ('monday', 'tuesday', 'wednesday', 'thursday',
                               'friday', 'saturday', 'sunday')), []]
  for r in rows('calendar_dates.txt'):
    p = cal.setdefault(r['service_id'], [u'', u'', (False,) * 7, []])
    p[3].append((r['date'], int(r['exception_type'])))
  o['calendar'] = dict((k, (v[0], v[1], v[2], sorted(v[3])))
                       for k, v in cal.items())
  sh = {}
  for r in rows('shapes.txt'):
    d = r.get('shape_dist_traveled', u'')
    sh.setdefault(r['shape_id'], []).append(
        (int(r['shape_pt_sequence']), float(r['shape_pt_lat']),
         float(r['shape_pt_lon']), None if d == u'' else float(d)))
  o['shapes.txt'] = dict((k, [p[1:] for p in sorted(v)])
                         for k, v in sh.items())
  st = dict((r['trip_id'], []) for r in rows('trips.txt'))
  for r in rows('stop_times.txt'):
    g = lambda c: r.get(c, u'').strip()
    d = g('shape_dist_traveled')
    st[r['trip_id']].append(
        (secs(r['arrival_time']), secs(r['departure_time']), r['stop_id'],
         int(r['stop_sequence']), g('stop_headsign'), intn(g('pickup_type')),
         intn(g('drop_off_type')), None if d == u'' else float(d),
         intn(g('timepoint'))))
  o['stop_times.txt'] = dict((k, sorted(v, key=lambda x: x[3]))
                             for k, v in st.items())
  fr = {}
  for r in rows('frequencies.txt'):
    fr.setdefault(r['trip_id'], []).append(
        (secs(r['start_time']), secs(r['end_time']), int(r['headway_secs']),
         intn(r.get('exact_times', u'')) or 0))
  o['frequencies.txt'] = fr
  fi = rows('feed_info.txt')
  o['feed_info.txt'] = ent(fi[0], t['feed_info.txt'].cols) if fi else None
  return o


def diff(a, b):
  """Human-readable first differences of two observations."""
  out = []
  for k in sorted(set(a) | set(b)):
    if a.get(k) != b.get(k):
      x, y = a.get(k), b.get(k)
      if isinstance(x, dict) and isinstance(y, dict):
        for kk in sorted(set(x) | set(y)):
          if x.get(kk) != y.get(kk):
            out.append('%s[%r]: got %r, want %r' % (k, kk, x.get(kk),
                                                    y.get(kk)))
      else:
        out.append('%s: got %r, want %r' % (k, x, y))
  return out


def diff_key(a, b):
  """Names which part differs (for the violation key)."""
  parts = set()
  for k in sorted(set(a) | set(b)):
    if a.get(k) != b.get(k):
      x, y = a.get(k), b.get(k)
      if isinstance(x, dict) and isinstance(y, dict):
        for kk in set(x) | set(y):
          u, v = x.get(kk), y.get(kk)
          if u != v:
            if isinstance(u, dict) and isinstance(v, dict):
              for c in set(u) | set(v):
                if u.get(c) != v.get(c):
                  parts.add(u'%s.%s' % (U(k), U(c)))
            else:
              parts.add(k)
      else:
        parts.add(k)
  return ','.join(sorted(parts))
