# -*- coding: utf-8 -*-
"""C21: KML export shows every stop, pattern, shape and trip; import restores
stops and lines.

Feeds are all sets of up to two deviations from a sound feed; each is written
with all (or, for two deviations, four) combinations of the writer's options
and the file is read back with an XML parser and compared, placemark by
placemark, with what the rows of the feed say.  KML documents to be read are
all words over an alphabet of placemarks."""
import itertools
import os
import re
import shutil
import sys
import tempfile
import xml.etree.ElementTree as ET

import transitfeed
import kmlparser
import kmlwriter
import extensions.googletransit as googletransit
from core import Scenario, words
from feeds import base, load, reporter, U, T, unzip

NS = '{http://earth.google.com/kml/2.1}'
NAMES = {0: 'Tram, Streetcar or Light rail', 1: 'Subway or Metro', 2: 'Rail',
         3: 'Bus', 4: 'Ferry', 5: 'Cable car',
         6: 'Gondola or suspended cable car', 7: 'Funicular'}
INVALID = re.compile(u'[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]')


# --- feeds ------------------------------------------------------------------
def start():
  f = base()
  f['stops.txt'].rows[0]['stop_lat'] = u'36.1234567'
  # a second trip of the pattern of T1, and one the other way round
  f['trips.txt'].rows.append(dict(
      f['trips.txt'].rows[0], trip_id=u'T4', service_id=u'WE',
      trip_headsign=u'', original_trip_id=u'', block_id=u'', shape_id=u'SH1'))
  f['stop_times.txt'].rows += T(
      'trip_id,arrival_time,departure_time,stop_id,stop_sequence',
      ['T4', '03:00:00', '03:00:00', 'S1', '1'],
      ['T4', '03:10:00', '03:11:00', 'S2', '2'],
      ['T4', '03:20:00', '03:21:00', 'S3', '3']).rows
  return f


def put(table, i, **kw):
  def g(f):
    for k, v in kw.items():
      if k not in f[table].cols:
        f[table].add_col(k)
      f[table].rows[i][k] = U(v)
  return g


def stop_all(**kw):
  def g(f):
    for r in f['stops.txt'].rows:
      for k, v in kw.items():
        r[k] = U(v)
  return g


def add_stop(**kw):
  def g(f):
    r = dict((c, u'') for c in f['stops.txt'].cols)
    r.update(stop_id=u'N%d' % len(f['stops.txt'].rows), stop_name=u'New',
             stop_lat=u'36.13', stop_lon=u'-116.13')
    r.update((k, U(v)) for k, v in kw.items())
    f['stops.txt'].rows.append(r)
  return g


def add_trip(stops, **kw):
  def g(f):
    tid = u'T%d' % (len(f['trips.txt'].rows) + 1)
    r = dict((c, u'') for c in f['trips.txt'].cols)
    r.update(trip_id=tid, route_id=u'R1', service_id=u'WK')
    r.update((k, U(v)) for k, v in kw.items())
    f['trips.txt'].rows.append(r)
    for n, s in enumerate(stops):
      t = u'1%d:00:00' % n if n in (0, len(stops) - 1) else u''
      f['stop_times.txt'].rows.append(
          dict(trip_id=tid, arrival_time=t, departure_time=t, stop_id=U(s),
               stop_sequence=unicode(n)))
  return g


def add_route(**kw):
  def g(f):
    r = dict((c, u'') for c in f['routes.txt'].cols)
    r.update(route_id=u'R%d' % (len(f['routes.txt'].rows) + 1),
             agency_id=u'AG1', route_type=u'3')
    r.update((k, U(v)) for k, v in kw.items())
    f['routes.txt'].rows.append(r)
  return g


def drop_shapes(f):
  for r in f['trips.txt'].rows:
    r['shape_id'] = u''
  del f.tables['shapes.txt']


def drop_trips(f):
  for n in ('trips.txt', 'stop_times.txt', 'frequencies.txt'):
    f[n].rows = []


def no_times(f):
  f['stop_times.txt'].rows = [r for r in f['stop_times.txt'].rows
                              if r['trip_id'] != u'T2']


def add_shape(name, *pts):
  def g(f):
    if 'shapes.txt' not in f.tables:
      f.tables['shapes.txt'] = T('shape_id,shape_pt_lat,shape_pt_lon,'
                                 'shape_pt_sequence')
    for n, (a, b) in enumerate(pts):
      f['shapes.txt'].rows.append(
          {'shape_id': U(name), 'shape_pt_lat': U(a), 'shape_pt_lon': U(b),
           'shape_pt_sequence': unicode(n)})
  return g


HOSTILE = ['A & B', '<b>x</b>', ']]>', '"q"', "'", '&amp;', 'Übér ☃',
           '\xf0\x9f\x98\x80', 'a\x07b', 'a\x1fb', 'x  y', '0', '-', '<!-- x']
DEVS = [('', lambda f: None)]
for i, h in enumerate(HOSTILE):
  DEVS.append(('stop name %d' % i, put('stops.txt', 0, stop_name=h)))
  DEVS.append(('station name %d' % i, put('stops.txt', 3, stop_name=h)))
for i, h in enumerate(HOSTILE):
  DEVS += [('stop desc %d' % i, put('stops.txt', 1, stop_desc=h)),
           ('route long %d' % i, put('routes.txt', 0, route_long_name=h)),
           ('route short %d' % i, put('routes.txt', 1, route_short_name=h)),
           ('route desc %d' % i, put('routes.txt', 1, route_desc=h)),
           ('headsign %d' % i, put('trips.txt', 1, trip_headsign=h))]
  DEVS.append(('ids %d' % i, lambda f, h=h: rename(f, h)))


def rename(f, h):
  h = U(h)
  for t in f.tables.values():
    for r in t.rows:
      for k, old in (('stop_id', u'S2'), ('from_stop_id', u'S2'),
                     ('to_stop_id', u'S2'), ('route_id', u'R1'),
                     ('trip_id', u'T1'), ('shape_id', u'SH1')):
        if r.get(k) == old:
          r[k] = old + h


CORE = [
    ('one name', stop_all(stop_name='Same')),
    ('one place', stop_all(stop_lat='36.1', stop_lon='-116.1')),
    ('0,0', put('stops.txt', 1, stop_lat='0', stop_lon='0')),
    ('south east', put('stops.txt', 1, stop_lat='-12.3456785',
                       stop_lon='179.9999994')),
    ('pole', put('stops.txt', 1, stop_lat='90', stop_lon='-180')),
    ('small', put('stops.txt', 1, stop_lat='0.0000014',
                  stop_lon='-0.0000016')),
    ('desc url', put('stops.txt', 1, stop_desc='d', stop_url='http://u/?a&b')),
    ('unused stop', add_stop()),
    ('unused platform', add_stop(parent_station='ST')),
    ('unnamed platform', add_stop(parent_station='ST', location_type='0')),
    ('entrance', add_stop(parent_station='ST', location_type='2')),
    ('lone entrance', add_stop(location_type='2')),
    ('lost platform', add_stop(parent_station='nowhere')),
    ('second station', add_stop(location_type='1')),
    ('nested station', add_stop(location_type='1', parent_station='ST')),
    ('platform of stop', add_stop(parent_station='S2')),
    ('no parent', put('stops.txt', 0, parent_station='')),
    ('short only', put('routes.txt', 0, route_long_name='')),
    ('long only', put('routes.txt', 0, route_short_name='')),
    ('no name', put('routes.txt', 0, route_long_name='', route_short_name='')),
    ('same names', put('routes.txt', 1, route_long_name='First Line',
                       route_short_name='1')),
    ('no desc', put('routes.txt', 0, route_desc='', route_url='')),
    ('url only', put('routes.txt', 1, route_url='http://r/')),
    ('colour', put('routes.txt', 1, route_color='12aBcD')),
    ('no colour', put('routes.txt', 0, route_color='')),
    ('two types', put('routes.txt', 1, route_type='0')),
    ('three types', lambda f: [put('routes.txt', 0, route_type='2')(f),
                               add_route(route_type='7',
                                         route_short_name='9')(f)]),
    ('odd type', put('routes.txt', 0, route_type='100')),
    ('route of no trips', add_route(route_short_name='3')),
    ('other pattern', add_trip(['S1', 'S3'])),
    ('same stops other order', add_trip(['S3', 'S2', 'S1'])),
    ('loop', add_trip(['S1', 'S2', 'S1'])),
    ('stays', add_trip(['S2', 'S2'])),
    ('long loop', add_trip(['S1', 'S2', 'S3', 'S1', 'S2', 'S3'])),
    ('R2 as R1', add_trip(['S1', 'S2', 'S3'], route_id='R2',
                          shape_id='SH1')),
    ('prefix', add_trip(['S1', 'S2'], shape_id='SH2')),
    ('other shape', add_trip(['S1', 'S2', 'S3'], shape_id='SH2',
                             trip_id='T0')),
    ('no shape', add_trip(['S1', 'S2', 'S3'], trip_headsign='Hd')),
    ('weekend', add_trip(['S1', 'S2', 'S3'], service_id='WE')),
    ('no stop times', no_times),
    ('no trips', drop_trips),
    ('no shapes', drop_shapes),
    ('unused shape', add_shape('SH9', ('1', '2'), ('3.0000004', '4'))),
    ('shape of a point', add_shape('A', ('1', '2'))),
    ('shape there and back', add_shape('SHB', ('1', '2'), ('1.5', '2'),
                                       ('1', '2'))),
    ('same points', add_shape('SH3', ('36.12', '-116.12'),
                              ('36.11', '-116.11'))),
    ('meeting', add_trip(['S1', 'S2', 'S3'], service_id='WK', trip_id='T40')),
]
DEVS += CORE
DEVMAP = dict(DEVS)

OPTIONS = ['show_trips', 'altitude_per_sec', 'split_routes', 'shape_points',
           'show_stop_hierarchy', 'date_filter']
DOMAIN = [(False, True), (0.0, 1.0, 0.5), (False, True), (False, True),
          (False, True), (None, u'20100705', u'20100704')]
ALL = list(itertools.product(*DOMAIN))
MANY = [(t, a, sp, hp, hp, d) for t, a, d in (
    (False, 1.0, None), (True, 0.0, None), (True, 1.0, None),
    (True, 0.5, u'20100705'), (True, 0.0, u'20100704'))
        for sp in (False, True) for hp in (False, True)]
SOME = [ALL[0], (True, 0.0, False, True, True, None),
        (True, 0.5, True, False, True, u'20100705'),
        (True, 1.0, True, True, False, None)]


# --- what a KML file contains ---------------------------------------------
def clean(s):
  return INVALID.sub(u'', s)


def tag(e):
  return e.tag[len(NS):] if e.tag.startswith(NS) else '?' + e.tag


def child(e, name):
  found = [c for c in e if tag(c) == name]
  assert len(found) < 2, (name, len(found))
  return found[0] if found else None


def words_of(e, name):
  c = child(e, name)
  return None if c is None else U(c.text or u'')


def coords(e):
  c = child(e, 'coordinates')
  return [tuple(float(v) for v in p.split(',')) for p in c.text.split()]


def read(data):
  """-> list of (folder names, name, description, style, kind, coordinates,
  (parent folder number)) for placemarks; folders; styles."""
  root = ET.fromstring(data)
  assert tag(root) == 'kml', root.tag
  doc = child(root, 'Document')
  marks, folders, styles = [], [], []

  def walk(e, path):
    for c in e:
      if tag(c) == 'Folder':
        p = path + ((len(folders), words_of(c, 'name')),)
        folders.append((p, words_of(c, 'description')))
        walk(c, p)
      elif tag(c) == 'Placemark':
        point, line = child(c, 'Point'), child(c, 'LineString')
        assert point is None or line is None
        kind = 'point' if point is not None else (
            'line' if line is not None else 'none')
        g = point if point is not None else line
        marks.append((path, words_of(c, 'name'), words_of(c, 'description'),
                      words_of(c, 'styleUrl'), kind,
                      coords(g) if g is not None else []))
      elif tag(c) == 'Style':
        ls = child(c, 'LineStyle')
        styles.append((U(c.get('id')),
                       words_of(ls, 'color') if ls is not None else None))
  walk(doc, ())
  return marks, folders, styles


def near(got, want, tol=0.51e-6):
  return len(got) == len(want) and all(
      len(g) == len(w) and all(abs(a - b) <= t for a, b, t in
                               zip(g, w, (tol, tol, 1e-3)))
      for g, w in zip(got, want))


def rounded(c):
  return tuple(round(v, 6) + 0.0 for v in c)


# --- what the rows of the feed say ------------------------------------------
class Facts(object):
  def __init__(self, f):
    def rows(n):
      return f[n].rows if n in f.tables else []
    self.stops = dict((r['stop_id'], r) for r in rows('stops.txt'))
    self.at = dict((k, (float(r['stop_lon']), float(r['stop_lat'])))
                   for k, r in self.stops.items())
    self.routes = dict((r['route_id'], r) for r in rows('routes.txt'))
    self.trips = dict((r['trip_id'], r) for r in rows('trips.txt'))
    self.times = {}
    for r in rows('stop_times.txt'):
      self.times.setdefault(r['trip_id'], []).append(r)
    for v in self.times.values():
      v.sort(key=lambda r: int(r['stop_sequence']))
    self.shapes = {}
    for r in sorted(rows('shapes.txt'),
                    key=lambda r: int(r['shape_pt_sequence'])):
      self.shapes.setdefault(r['shape_id'], []).append(
          (float(r['shape_pt_lon']), float(r['shape_pt_lat'])))
    self.calendar = dict((r['service_id'], r) for r in rows('calendar.txt'))
    self.exceptions = dict(((r['service_id'], r['date']),
                            r['exception_type'] == u'1')
                           for r in rows('calendar_dates.txt'))

  def active(self, service, date):
    if (service, date) in self.exceptions:
      return self.exceptions[service, date]
    r = self.calendar.get(service)
    if r is None or not r['start_date'] <= date <= r['end_date']:
      return False
    y, m, d = int(date[:4]), int(date[4:6]), int(date[6:])
    # Zeller, Monday = 0
    if m < 3:
      m, y = m + 12, y - 1
    wd = (d + 13 * (m + 1) // 5 + y + y // 4 - y // 100 + y // 400 + 5) % 7
    return r[('monday', 'tuesday', 'wednesday', 'thursday', 'friday',
              'saturday', 'sunday')[wd]] == u'1'

  def seconds(self, r):
    v = r.get('arrival_time') or r.get('departure_time')
    if not v:
      return None
    h, m, s = v.split(':')
    return int(h) * 3600 + int(m) * 60 + int(s)

  def pattern(self, trip_id):
    return tuple(r['stop_id'] for r in self.times.get(trip_id, []))


def compare(x, f, opt, data):
  o = dict(zip(OPTIONS, opt))
  fx = Facts(f)
  try:
    marks, folders, styles = read(data)
  except ET.ParseError as e:
    x.fail('malformed', '%s\n%s' % (e, data[:1500]))
    return

  def names(path):
    return tuple(n for _, n in path)

  top = set(names(p)[0] for p in [p for p, _ in folders])
  by_route_types = dict(
      (int(r['route_type']),
       u'Routes - %s' % NAMES.get(int(r['route_type']), r['route_type']))
      for r in fx.routes.values())
  want = set()
  if fx.stops:
    want.add(u'Stops')
  if fx.routes:
    want |= set(by_route_types.values()) if o['split_routes'] else set(
        [u'Routes'])
  if fx.shapes:
    want.add(u'Shapes')
  x.eq(top, want, 'folders', 'top folders')
  x.check(all(m[0] for m in marks), 'loose', 'a placemark outside folders')

  # --- stops
  mine = [m for m in marks if m[0] and names(m[0])[0] == u'Stops']
  left = [m for m in mine if m[4] == 'point']
  lines = [m for m in mine if m[4] != 'point']
  for sid, r in sorted(fx.stops.items()):
    hit = [m for m in left if m[1] == clean(r['stop_name']) and
           near(m[5], [fx.at[sid]]) and
           (m[2] or u'').split(u'<br/>')[0] == u'Stop id: ' + clean(sid)]
    if x.check(len(hit) == 1, 'stop', lambda: 'stop %r has %d placemarks: %r'
               % (sid, len(hit), left)):
      left.remove(hit[0])
      for c in ('stop_desc', 'stop_url'):
        x.check(not r[c] or clean(r[c]) in hit[0][2], 'stop ' + c,
                lambda: '%r not in %r' % (r[c], hit[0][2]))
      kind = r.get('location_type')
      group = (u'Stops',)
      if o['show_stop_hierarchy']:
        group += (u'Stations' if kind == u'1' else
                  u'Entrances' if kind == u'2' else
                  u'Platforms' if r['parent_station'] else u'Stand-Alone',)
      x.eq(names(hit[0][0]), group, 'stop group', 'folder of %r' % sid)
  x.eq(left, [], 'extra stop', 'point placemarks of no stop')
  connections = []
  if o['show_stop_hierarchy']:
    for sid, r in fx.stops.items():
      if r['location_type'] != u'1' and r['parent_station'] in fx.stops:
        g = u'Entrances' if r['location_type'] == u'2' else u'Platforms'
        connections.append((
            (u'Stops', g, u'Connections'), clean(r['stop_name']),
            [rounded(fx.at[sid]), rounded(fx.at[r['parent_station']])]))
  x.eq(sorted((names(m[0]), m[1], [rounded(c) for c in m[5]])
              for m in lines), sorted(connections), 'connections',
       'lines between stops and stations')

  # --- routes
  style_of = dict(styles)
  x.eq(len(style_of), len(styles), 'styles', 'a style id used twice')
  route_folders = [(p, d) for p, d in folders
                   if len(p) == 2 and p[0][1].startswith(u'Routes')]
  x.eq(len(route_folders), len(fx.routes), 'routes', 'route folders')
  taken = set()
  for rid, r in sorted(fx.routes.items()):
    parts = []
    if r['route_short_name']:
      parts.append(u'<b>%s</b>' % r['route_short_name'])
    if r['route_long_name']:
      parts.append(r['route_long_name'])
    name = clean(u' - '.join(parts) or rid)
    group = (by_route_types[int(r['route_type'])] if o['split_routes']
             else u'Routes')
    want = route_marks(fx, rid, o)
    cands = [(p, d) for p, d in route_folders if p not in taken and
             names(p) == (group, name)]
    ok = []
    for p, d in cands:
      got = [m for m in marks if m[0][:2] == p]
      why = match(fx, got, want, r, style_of, p)
      if why is None:
        for c in ('route_desc', 'route_url'):
          if r[c] and clean(r[c]) not in (d or u''):
            why = '%s missing in %r' % (c, d)
      if why is None and not r['route_desc'] and not r['route_url'] and d:
        why = 'description %r' % d
      ok.append((why, p))
    good = [p for why, p in ok if why is None]
    if x.check(good, 'route', lambda: 'route %r: %s' % (
        rid, [why for why, p in ok] or
        'no folder %r among %r' % ((group, name),
                                   [names(p) for p, d in route_folders]))):
      taken.add(good[0])

  # --- shapes
  mine = [m for m in marks if m[0] and names(m[0])[0] == u'Shapes']
  got = sorted((names(m[0])[1:], m[1], m[4], [rounded(c) for c in m[5]])
               for m in mine if len(m[0]) == 1)
  x.eq(got, sorted(((), clean(s), 'line', [rounded(c) for c in pts])
                   for s, pts in fx.shapes.items()), 'shapes', 'shapes')
  got = {}
  for m in mine:
    if len(m[0]) > 1:
      got.setdefault(m[0], []).append((m[1], m[4], map(rounded, m[5])))
  want = []
  if o['shape_points']:
    want = [((u'Shapes', clean(s) + u' Shape Points'),
             [(unicode(i + 1), 'point', [rounded(c)])
              for i, c in enumerate(pts)]) for s, pts in fx.shapes.items()]
  x.eq(sorted((names(k), v) for k, v in got.items()), sorted(want),
       'shape points', 'points of shapes')


def route_marks(fx, rid, o):
  """[(subfolder, spec)] expected below the route's folder."""
  trips = sorted(t for t, r in fx.trips.items() if r['route_id'] == rid)
  patterns, shapes = {}, {}
  for t in trips:
    patterns.setdefault(fx.pattern(t), []).append(t)
    s = fx.trips[t]['shape_id']
    if s:
      shapes.setdefault(s, []).append(t)
  want = []
  for p, ts in patterns.items():
    want.append((u'Patterns', None, ts, [fx.at[s] for s in p]))
  for s, ts in shapes.items():
    want.append((u'Shapes', s, ts, fx.shapes[s]))
  if o['show_trips']:
    for t in trips:
      if o['date_filter'] and not fx.active(fx.trips[t]['service_id'],
                                            o['date_filter']):
        continue
      line = []
      times = [fx.seconds(r) for r in fx.times.get(t, [])]
      for i, r in enumerate(fx.times.get(t, [])):
        c = fx.at[r['stop_id']]
        if o['altitude_per_sec'] > 0:
          if times[i] is not None:
            lo = hi = times[i]
          else:
            lo = max(v for v in times[:i] if v is not None)
            hi = min(v for v in times[i:] if v is not None)
          c += (((lo - 14400) * o['altitude_per_sec'],
                 (hi - 14400) * o['altitude_per_sec']),)
        line.append(c)
      want.append((u'Trips', t, [t], line))
  return want


def match(fx, got, want, route, style_of, path):
  """None, or why the placemarks are not the expected ones."""
  got = list(got)
  for m in got:
    if len(m[0]) != 3:
      return 'misplaced %r' % (m,)
    color = route['route_color'].lower()
    style = style_of.get((m[3] or u'')[1:], 'missing')
    if style != (u'ff' + color[4:] + color[2:4] + color[:2] if color
                 else None):
      return 'style %r of %r for colour %r' % (style, m[3], color)
  sizes = {}
  for m in got:
    n = re.search(r'\(trips: (\d+)\)\Z', m[1])
    if n and m[0][2][1] in (u'Patterns', u'Shapes'):
      sizes.setdefault(m[0][2], []).append(int(n.group(1)))
  for v in sizes.values():
    if v != sorted(v, reverse=True):
      return 'not by number of trips: %r' % v
  if len(set(m[0][2] for m in got)) != len(set(w[0] for w in want)):
    return 'folders %r' % set(m[0][2] for m in got)
  for sub, name, ts, line in want:
    for m in got:
      if m[0][2][1] != sub:
        continue
      if sub == u'Trips':
        if m[1] != clean(name):
          continue
        head = fx.trips[name]['trip_headsign']
        if (m[2] or None) != (u'Headsign: ' + clean(head) if head else None):
          continue
      else:
        if not m[1].endswith(u'(trips: %d)' % len(ts)):
          continue
        if sub == u'Shapes' and m[1] != clean(
            u'%s (trips: %d)' % (name, len(ts))):
          continue
        listed = m[2].split(u': ', 1)
        if u'in total' not in listed[0] or \
            u'(%d ' % len(ts) not in listed[0] or \
            sorted(listed[1].split(u', ')) != sorted(clean(t) for t in ts):
          continue
      if not near([c[:2] for c in m[5]], [c[:2] for c in line]):
        continue
      if [len(c) for c in m[5]] != [len(c) for c in line]:
        continue
      if any(len(w) == 3 and not (w[2][0] - 1e-3 <= c[2] <= w[2][1] + 1e-3)
             for c, w in zip(m[5], line)):
        continue
      if (m[4] == 'line') != bool(line):
        continue
      got.remove(m)
      break
    else:
      return 'no %s placemark of %r: %r among %r' % (sub, ts, line, got)
  return None if not got else 'unexpected %r' % got


def kml(s, opt, how='path'):
  d = tempfile.mkdtemp()
  try:
    w = kmlwriter.KMLWriter()
    for k, v in zip(OPTIONS, opt):
      setattr(w, k, v)
    p = os.path.join(d, 'out.kml')
    if how == 'path':
      w.Write(s, p)
    else:
      out = open(p, 'wb')
      w.Write(s, out)
      out.close()
    i = open(p, 'rb')
    data = i.read()
    i.close()
    return data
  finally:
    shutil.rmtree(d)


def gen_write(tier):
  for n, _ in DEVS:
    yield (n,), 'all' if n == '' or tier != 'quick' else \
        'many' if n in dict(CORE) else 'some'
  pool = CORE + (DEVS[1:] if tier != 'quick' else [])
  for a, b in itertools.combinations([n for n, _ in pool], 2):
    yield (a, b), 'two' if tier == 'quick' else 'some'


def run_write(x, case):
  names, how = case
  f = start()
  for n in names:
    DEVMAP[n](f)
  s, rec = load(f)
  for i, opt in enumerate({'all': ALL, 'many': MANY, 'some': SOME,
                            'two': SOME[1:3]}[how]):
    data = kml(s, opt, 'file' if i % 7 == 3 else 'path')
    x.step()
    x.state(data)
    compare(x, f, opt, data)
  x.outcome('%d deviations' % len(names))


# --- every date -------------------------------------------------------------
def gen_dates(tier):
  days = [u'201007%02d' % d for d in range(1, 11)] + [u'20091231', u'20110101']
  mids = days[2:8] if tier == 'quick' else days[:12]
  for w in ('1111111', '1111100', '0000011', '0010000', '0000000'):
    for a, b in itertools.combinations_with_replacement(mids, 2):
      yield w, a, b, days
  # services that run, or do not run, on single days, without a calendar row
  # or with one
  for kept in (False, True):
    for ex in itertools.product((None, '1', '2'), repeat=3):
      yield kept, ex, (u'20100703', u'20100705', u'20110101'), days


def run_exceptions(x, case):
  kept, ex, on, days = case
  f = start()
  sid = f['trips.txt'].rows[0]['service_id']
  if not kept:
    f['calendar.txt'].rows = [r for r in f['calendar.txt'].rows
                              if r['service_id'] != sid]
  t = f['calendar_dates.txt']
  t.rows = [r for r in t.rows if r['service_id'] != sid]
  for d, e in zip(on, ex):
    if e:
      t.rows.append({'service_id': sid, 'date': d, 'exception_type': U(e)})
  if not kept and not any(ex):
    return
  s, rec = load(f)
  for d in days:
    opt = (True, 0.0, False, False, False, d)
    data = kml(s, opt)
    x.step()
    x.state(data)
    compare(x, f, opt, data)
  x.outcome('exceptions')


def run_dates(x, case):
  if isinstance(case[1], tuple) or isinstance(case[1], list):
    return run_exceptions(x, case)
  w, a, b, days = case
  f = start()
  for i, c in enumerate(('monday', 'tuesday', 'wednesday', 'thursday',
                         'friday', 'saturday', 'sunday')):
    f['calendar.txt'].rows[0][c] = U(w[i])
  f['calendar.txt'].rows[0].update(start_date=U(a), end_date=U(b))
  s, rec = load(f)
  for d in days:
    opt = (True, 0.0, False, False, False, d)
    data = kml(s, opt)
    x.step()
    x.state(data)
    compare(x, f, opt, data)
  x.outcome('dates')


# --- the command ------------------------------------------------------------
ARGS = [('-t', '--showtrips'), ('-a', '--altitude_per_sec=0.5'),
        ('-s', '--splitroutes'), ('-p', '--display_shape_points'),
        ('--show_stop_hierarchy',), ('-d', '--date_filter=20100705')]
IN = ['feed.zip', 'feed.v2.zip', 'feed', 'a.b/feed', 'dir.d/']


def gen_main(tier):
  for n in range(len(ARGS) + 1):
    for c in itertools.combinations(range(len(ARGS)), n):
      for form in (0, 1):
        yield c, form, 'feed.zip', True
  for name in IN:
    for out in (True, False):
      yield (0, 3), 1, name, out


def run_main(x, case):
  chosen, form, name, out = case
  f = start()
  f['stops.txt'].rows[0]['stop_name'] = u'Übér & Co'
  d = tempfile.mkdtemp()
  argv, cwd = sys.argv, os.getcwd()
  try:
    path = os.path.join(d, name)
    if not os.path.isdir(os.path.dirname(path)):
      os.makedirs(os.path.dirname(path))
    if name.endswith('.zip'):
      h = open(path, 'wb')
      h.write(f.zip())
      h.close()
    else:
      if not os.path.isdir(path):
        os.makedirs(path)
      for n, data in unzip(f.zip()).items():
        h = open(os.path.join(path, n), 'wb')
        h.write(data)
        h.close()
    args = []
    for i in chosen:
      a = ARGS[i][min(form, len(ARGS[i]) - 1)]
      args.append(a)
      if a == '-a':
        args.append('0.5')
      if a == '-d':
        args.append('20100705')
    args.append(path)
    result = os.path.join(d, 'result.kml')
    if out:
      args.append(result)
    else:
      b = os.path.normpath(path)
      root, base_name = os.path.split(b)
      result = os.path.join(root, (base_name.rsplit('.', 1)[0]
                                   if '.' in base_name else base_name) + '.kml')
    sys.argv = ['kmlwriter.py'] + args
    kmlwriter.main()
    x.step()
    if not x.check(os.path.isfile(result), 'no output',
                   lambda: '%s not written' % result):
      return
    h = open(result, 'rb')
    data = h.read()
    h.close()
    x.state(data)
    opt = (0 in chosen, 0.5 if 1 in chosen else 1.0, 2 in chosen, 3 in chosen,
           4 in chosen, u'20100705' if 5 in chosen else None)
    compare(x, f, opt, data)
    x.outcome('main')
  finally:
    sys.argv = argv
    shutil.rmtree(d)


# --- reading ----------------------------------------------------------------
HEAD = ('<?xml version="1.0" encoding="UTF-8"?>\n'
        '<kml xmlns="http://earth.google.com/kml/2.%d"><Document>\n')


def pt(name, c, raw=None):
  n = '' if name is None else '<name>%s</name>' % (
      raw or name.replace('&', '&amp;').replace('<', '&lt;'))
  return '<Placemark>%s<Point><coordinates>%s</coordinates></Point>' \
      '</Placemark>' % (n, c)


def ln(name, c, raw=None, before=''):
  n = '' if name is None else '<name>%s</name>' % (
      raw or name.replace('&', '&amp;').replace('<', '&lt;'))
  return '<Placemark>%s%s<LineString><tessellate>1</tessellate><coordinates>' \
      '%s</coordinates></LineString></Placemark>' % (before, n, c)


# (xml, what it is)
MARKS = [
    (pt('A', '1.5,-2.5'), ('stop', u'A', (-2.5, 1.5))),
    (pt('A', '1.5,-2.5,7'), ('stop', u'A', (-2.5, 1.5))),
    (pt('B', '\n  -120.123456,36.5,0\n '), ('stop', u'B', (36.5, -120.123456))),
    (pt('Ü & <b>', '0,0'), ('stop', u'Ü & <b>', (0.0, 0.0))),
    (pt('A & B', '3,4', '<![CDATA[A & B]]>'), ('stop', u'A & B', (4.0, 3.0))),
    (pt('x\xf0\x9f\x98\x80y', '3,4', 'x&#x1F600;y'),
     ('stop', u'x\U0001F600y', (4.0, 3.0))),
    (pt('ab', '5,6', 'a<!-- c -->b'), ('stop', u'ab', (6.0, 5.0))),
    (pt('', '5,7'), ('stop', u'', (7.0, 5.0))),
    (pt(None, '5,8'), ('stop', u'', (8.0, 5.0))),
    (pt('late', '179.999999,89.5').replace(
        '<Point>', '<description>d <![CDATA[<i>]]></description><styleUrl>#s'
        '</styleUrl><visibility>0</visibility><Point>'),
     ('stop', u'late', (89.5, 179.999999))),
    ('<Placemark><Point><coordinates>8,9</coordinates></Point>'
     '<name>after</name></Placemark>', ('stop', u'after', (9.0, 8.0))),
    ('<Placemark><name>ext</name><Point><extrude>1</extrude><altitudeMode>'
     'absolute</altitudeMode><coordinates>8,9.5,1</coordinates></Point>'
     '</Placemark>', ('stop', u'ext', (9.5, 8.0))),
    (ln('L', '1,2 3,4'), ('line', u'L', ((2.0, 1.0), (4.0, 3.0)))),
    (ln('L', '1,2,0\n 3,4,5 '), ('line', u'L', ((2.0, 1.0), (4.0, 3.0)))),
    (ln('L', '1,2 3,5'), ('line', u'L', ((2.0, 1.0), (5.0, 3.0)))),
    (ln('L', '3,4 1,2'), ('line', u'L', ((4.0, 3.0), (2.0, 1.0)))),
    (ln('L_1', '7,8 7,9 7,8'),
     ('line', u'L_1', ((8.0, 7.0), (9.0, 7.0), (8.0, 7.0)))),
    (ln('L_2', '7,8 7,9'), ('line', u'L_2', ((8.0, 7.0), (9.0, 7.0)))),
    (ln('M & Ü', '-1,-2 -3,-4.5', before='<description>d</description>'),
     ('line', u'M & Ü', ((-2.0, -1.0), (-4.5, -3.0)))),
    (ln(None, '1,2 3,4'), ('line', None, ((2.0, 1.0), (4.0, 3.0)))),
    (ln(None, '1,2 3,6'), ('line', None, ((2.0, 1.0), (6.0, 3.0)))),
    (ln('cc', '1,2 <!-- x -->3,7'), ('line', u'cc', ((2.0, 1.0), (7.0, 3.0)))),
    ('<Placemark><name>none</name></Placemark>', None),
    ('<Placemark><name>poly</name><Polygon><outerBoundaryIs><LinearRing>'
     '<coordinates>1,2 3,4 5,6 1,2</coordinates></LinearRing>'
     '</outerBoundaryIs></Polygon></Placemark>', None),
    ('<Folder><name>F</name><Folder><name>G</name>' + pt('in', '2,1') +
     '</Folder>' + ln('N', '1,2 3,8') + '</Folder>',
     [('stop', u'in', (1.0, 2.0)), ('line', u'N', ((2.0, 1.0), (8.0, 3.0)))]),
    ('<Folder><name>F</name></Folder>', None),
    ('<Style id="s"><IconStyle><color>ff</color></IconStyle></Style>', None),
]


def gen_read(tier):
  yield ()
  for w in words(range(len(MARKS)), 3 if tier == 'quick' else 4):
    if len(w) == 3 and tier == 'quick' and any(i in (3, 5, 9, 10, 11, 25, 26)
                                               for i in w):
      continue
    if len(w) == 4 and any(i < 11 and i != 0 or i > 20 for i in w):
      continue
    yield w


def content(word):
  stops, lines = [], []
  for i in word:
    m = MARKS[i][1]
    for kind, name, where in (m if isinstance(m, list) else [m] if m else []):
      (stops if kind == 'stop' else lines).append((name, where))
  return stops, lines


def verify(x, s, stops, lines):
  got = sorted((U(t.stop_name or u''), (float(t.stop_lat), float(t.stop_lon)))
               for t in s.GetStopList())
  x.eq(got, sorted(stops), 'stops', 'stops')
  x.eq(len(set(t.stop_id for t in s.GetStopList())), len(got), 'stop ids', '')
  shapes = dict((U(h.shape_id), tuple((float(a), float(b))
                                      for a, b, c in h.points))
                for h in s.GetShapeList())
  first, needed = {}, set()
  for name, where in lines:
    if name is None:
      needed.add((name, where))
      continue
    if name not in first:
      first[name] = where
    needed.add((name, where))
  left = dict(shapes)
  # named lines: the first of a name keeps it, unless a made-up id took it
  most = {}
  for name, where in lines:
    most[where] = most.get(where, 0) + 1
  for name, where in sorted(needed, key=lambda n: (n[0] is None, n)):
    ids = [k for k, v in left.items() if v == where and
           (name is None or k == name or k.startswith(name + u'_'))]
    # prefer the name itself
    ids.sort(key=lambda k: (k != name, -len(k)))
    if x.check(ids, 'line lost', lambda: '%r of %r not in %r' % (
        (name, where), lines, shapes)):
      left.pop(ids[0])
  for k, v in left.items():
    x.check(most.get(v, 0) > 1, 'extra shape', lambda: '%r %r' % (k, v))
  x.check(all(k for k in shapes), 'nameless', lambda: repr(shapes))


def run_read(x, word):
  d = tempfile.mkdtemp()
  try:
    p = os.path.join(d, 'in.kml')
    h = open(p, 'wb')
    h.write(HEAD % (1 + len(word) % 2) + '\n'.join(MARKS[i][0] for i in word)
            + '\n</Document></kml>\n')
    h.close()
    pr, rec = reporter()
    s = transitfeed.Schedule(problem_reporter=pr)
    kmlparser.KmlParser().Parse(p, s)
    x.step()
    stops, lines = content(word)
    x.state(sorted((t.stop_id, t.stop_name, t.stop_lat, t.stop_lon)
                   for t in s.GetStopList()) +
            sorted((t.shape_id, t.points) for t in s.GetShapeList()))
    verify(x, s, stops, lines)
    x.outcome('%d stops %d lines' % (len(stops), len(lines)))
  finally:
    shutil.rmtree(d)


# --- a feed written as KML and read again; the command ----------------------
def gen_round(tier):
  for n, _ in DEVS:
    for opt in SOME:
      yield (n,), opt
  for a, b in itertools.combinations([n for n, _ in CORE], 2):
    if tier != 'quick':
      yield (a, b), SOME[1]


def run_round(x, case):
  names, opt = case
  f = start()
  for n in names:
    DEVMAP[n](f)
  s, rec = load(f)
  data = kml(s, opt)
  d = tempfile.mkdtemp()
  argv = sys.argv
  try:
    p = os.path.join(d, 'in.kml')
    h = open(p, 'wb')
    h.write(data)
    h.close()
    x.step()
    z = os.path.join(d, 'out.zip')
    sys.argv = ['kmlparser.py', p, z]
    kmlparser.main()
    x.step()
    fx = Facts(f)
    h = open(z, 'rb')
    files = unzip(h.read())
    h.close()
    x.state(sorted(files.items()))
    back, rec = load(open_feed(files))
    got = sorted((U(t.stop_name or u'').strip(),
                  rounded((float(t.stop_lat), float(t.stop_lon))))
                 for t in back.GetStopList())
    want = []
    for k, r in fx.stops.items():
      want.append((clean(r['stop_name']).strip(), rounded(fx.at[k][::-1])))
    # a line of one point reads as a stop
    marks = read(data)[0]
    for m in marks:
      if len(m[5]) == 1 and not (m[4] == 'point' and
                                 m[0][0][1] == u'Stops'):
        want.append((m[1].strip(), rounded(m[5][0][1::-1])))
    x.eq(got, sorted(want), 'stops', 'stops read back')
    lines = set(tuple(rounded(c[1::-1]) for c in m[5]) for m in marks
                if len(m[5]) > 1)
    s = transitfeed.Schedule(problem_reporter=reporter()[0])
    kmlparser.KmlParser().Parse(p, s)
    # shapes take points near 0,0 for mistakes
    if not any(abs(c[0]) + abs(c[1]) < 2 for l in lines for c in l):
      for sched in (s, back):
        got = set(tuple(rounded(c[:2]) for c in h.points)
                  for h in sched.GetShapeList())
        x.eq(got, lines, 'lines', 'lines read back')
    x.outcome('round trip')
  finally:
    sys.argv = argv
    shutil.rmtree(d)


def open_feed(files):
  from feeds import zip_bytes
  return zip_bytes(files)


SCENARIOS = [
    Scenario('write', gen_write, run_write,
             bound='base x all option combinations, one deviation x 20, two x two'),
    Scenario('dates', gen_dates, run_dates,
             bound='service windows within 8 days x weekday sets x 16 dates'),
    Scenario('main', gen_main, run_main, bound='all option subsets'),
    Scenario('read', gen_read, run_read, bound='words of placemarks <= 3'),
    Scenario('round', gen_round, run_round, bound='one deviation x 4 options'),
]
