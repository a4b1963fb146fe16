# -*- coding: utf-8 -*-
"""C22: the schedule viewer answers from the schedule and serves nothing else.

The real request handler is run on every request over alphabets of paths and
parameters derived from each feed; its answers are compared with what the rows
of the feed say.  Every path over an alphabet of path pieces is requested from
a server whose file directory lies among files it must not serve, and every
word of requests, sound and broken, is sent to a running server, which must
still answer afterwards.  Words of edits through the location editor are
followed by queries and by saving."""
import itertools
import json
import math
import os
import re
import shutil
import socket
import StringIO
import tempfile
import threading
import urllib
import xml.etree.ElementTree as ET

import transitfeed
import schedule_viewer
import location_editor
from core import Scenario, words
from feeds import base, load, U, T

SVG = '{http://www.w3.org/2000/svg}'


class Server(object):
  def __init__(self, s, file_dir=None, path=None):
    self.schedule = s
    self.file_dir = file_dir or schedule_viewer.FindDefaultFileDir()
    self.key = 'KEY'
    self.host = 'maps.example'
    self.feed_path = path


class Sock(object):
  def __init__(self, data):
    self.i = StringIO.StringIO(data)
    self.o = StringIO.StringIO()
    self.o.close = lambda: None

  def makefile(self, mode, size=-1):
    return self.i if 'r' in mode else self.o

  def sendall(self, data):
    self.o.write(data)


def get(server, path, cls=schedule_viewer.ScheduleRequestHandler):
  """-> status or None when there was no answer, body."""
  k = Sock('GET %s HTTP/1.0\r\n\r\n' % path)
  try:
    cls(k, ('127.0.0.1', 1), server)
  except Exception as e:
    if 'Assert' in type(e).__name__ and 'json' in path:
      raise
  return parse(k.o.getvalue())


def parse(data):
  if not data:
    return None, ''
  if isinstance(data, unicode):
    data = data.encode('utf-8')
  head, _, body = data.partition('\r\n\r\n')
  m = re.match(r'HTTP/1\.\d (\d+) ', head)
  if not m:
    return 0, data
  n = re.search(r'(?i)Content-Length: (\d+)', head)
  if n and int(n.group(1)) != len(body):
    return -1, data
  return int(m.group(1)), body


def q(path, **kw):
  return path + '?' + '&'.join(
      '%s=%s' % (k, urllib.quote((v.encode('utf-8') if isinstance(v, unicode)
                                  else str(v)), ''))
      for k, v in sorted(kw.items()))


# --- feeds ------------------------------------------------------------------
def trip(f, tid, times, stops=('S1', 'S2', 'S3'), **kw):
  r = dict((c, u'') for c in f['trips.txt'].cols)
  r.update(trip_id=U(tid), route_id=u'R1', service_id=u'WK')
  r.update((k, U(v)) for k, v in kw.items() if k != 'heads')
  f['trips.txt'].rows.append(r)
  for n, (t, s) in enumerate(zip(times, stops)):
    f['stop_times.txt'].rows.append(dict(
        trip_id=U(tid), arrival_time=U(t), departure_time=U(t), stop_id=U(s),
        stop_sequence=unicode(n * 2),
        stop_headsign=U(kw.get('heads', {}).get(n, ''))))


def start():
  f = base()
  f['stops.txt'].rows[2]['stop_name'] = u'Thrée & <Co>'
  trip(f, 'T4', ('05:00:00', '', '05:20:00'), trip_headsign='four',
       service_id='WE', heads={1: 'via two'})
  trip(f, 'T5', ('06:00:00', '06:09:30', '06:20:00'), heads={0: 'A', 2: 'C'})
  trip(f, 'T6', ('08:00:00', '08:07:00', '08:20:00'), service_id='WE')
  trip(f, 'T7', ('24:00:00', '24:07:00', '25:20:00'), trip_headsign='late')
  trip(f, 'T8', ('00:00:00', '00:07:00', '00:20:00'), service_id='WK')
  trip(f, 'T9', ('09:00:00', '09:07:00', '09:20:00'), ('S1', 'S2', 'S1'))
  return f


def put(table, i, **kw):
  def g(f):
    for k, v in kw.items():
      if k not in f[table].cols:
        f[table].add_col(k)
      f[table].rows[i][k] = U(v)
  return g


def places(*ll):
  def g(f):
    for r, (a, b) in zip(f['stops.txt'].rows, ll):
      r['stop_lat'], r['stop_lon'] = U(a), U(b)
  return g


def without(table, **kw):
  def g(f):
    f[table].rows = [r for r in f[table].rows
                     if any(r.get(k) != U(v) for k, v in kw.items())]
  return g


def renamed(f):
  for t in f.tables.values():
    for r in t.rows:
      for k in r:
        if k in ('trip_id', 'stop_id', 'route_id', 'parent_station',
                 'from_stop_id', 'to_stop_id') and r[k]:
          r[k] += u' é&<"\'=+%/'


def many(n, service):
  def g(f):
    for i in range(n):
      trip(f, 'M%d' % i, ('1%d:00:00' % i, '', '1%d:30:00' % i),
           service_id=service)
  return g


DEVS = [
    ('', lambda f: None),
    ('ids', renamed),
    ('north', places(('60.0', '10.0'), ('60.0', '10.011'), ('60.006', '10.0'),
                     ('60.0', '10.012'))),
    ('antimeridian', places(('10', '179.999'), ('10', '-179.999'),
                            ('10', '179.99'), ('10.001', '179.999'))),
    ('one place', places(*[('36.1', '-116.1')] * 4)),
    ('two places', places(('36.1', '-116.1'), ('36.1', '-116.1'),
                          ('36.2', '-116.1'), ('36.1', '-116.1'))),
    ('short only', put('routes.txt', 0, route_long_name='')),
    ('long only', put('routes.txt', 0, route_short_name='')),
    ('colour', put('routes.txt', 1, route_color='12aBcD')),
    ('no shape', put('trips.txt', 0, shape_id='')),
    ('six on workdays', many(6, 'WK')),
    ('six on weekends', many(6, 'WE')),
    ('five on weekends', many(5, 'WE')),
    ('three', without('trips.txt', route_id='R1')),
    ('route without trips', lambda f: f['routes.txt'].rows.append(
        dict(f['routes.txt'].rows[1], route_id=u'R3', route_short_name=u'0'))),
    ('same route names', put('routes.txt', 1, route_short_name='1')),
    ('station first', put('stops.txt', 0, location_type='', parent_station='')),
    ('trip type', put('trips.txt', 3, trip_type='1')),
    ('trip type 0', put('trips.txt', 3, trip_type='0')),
    ('headsign', put('trips.txt', 1, trip_headsign='Hé<d')),
    ('one service', put('trips.txt', 3, service_id='WK')),
]
DEVMAP = dict(DEVS)
DATES = ['', '20100705', '20100704', '20100706', '20100710', '20110101']


def secs(v):
  if not v:
    return None
  h, m, s = v.split(':')
  return int(h) * 3600 + int(m) * 60 + int(s)


def metres(a, b):
  (la, lo), (lb, lp) = [map(math.radians, c) for c in (a, b)]
  h = math.sin((lb - la) / 2) ** 2 + \
      math.cos(la) * math.cos(lb) * math.sin((lp - lo) / 2) ** 2
  return 2 * 6378135 * math.asin(min(1.0, math.sqrt(h)))


class Facts(object):
  def __init__(self, f):
    def rows(n):
      return f[n].rows
    self.stops = dict((r['stop_id'], r) for r in rows('stops.txt'))
    self.at = dict((k, (float(r['stop_lat']), float(r['stop_lon'])))
                   for k, r in self.stops.items())
    self.routes = dict((r['route_id'], r) for r in rows('routes.txt'))
    self.trips = dict((r['trip_id'], r) for r in rows('trips.txt'))
    self.times = {}
    for r in rows('stop_times.txt'):
      if r['trip_id'] in self.trips:
        self.times.setdefault(r['trip_id'], []).append(r)
    for v in self.times.values():
      v.sort(key=lambda r: int(r['stop_sequence']))
    self.shapes = {}
    for r in sorted(rows('shapes.txt'),
                    key=lambda r: int(r['shape_pt_sequence'])):
      self.shapes.setdefault(r['shape_id'], []).append(
          [float(r['shape_pt_lat']), float(r['shape_pt_lon'])])
    # services of the base feed: work days and weekends of 2010
    self.on = {'20100705': u'WE', '20100704': u'*', '20100706': u'WK',
               '20100710': u'WE', '20110101': u''}

  def active(self, service, date):
    if not date or self.on[date] == u'*':
      return True
    return service == self.on[date]

  def tuple(self, sid):
    r = self.stops[sid]
    return [sid, r['stop_name'], self.at[sid][0], self.at[sid][1],
            int(r['location_type'] or 0)]

  def starts(self, tid):
    r = self.times[tid][0]
    return secs(r['arrival_time'] or r['departure_time'])

  def pattern(self, tid):
    return tuple(r['stop_id'] for r in self.times.get(tid, []))

  def visits(self, sid):
    """[(time, exact, trip id, headsign)] of visits to a stop."""
    out = []
    for tid, rows in self.times.items():
      t = [secs(r['arrival_time'] or r['departure_time']) for r in rows]
      head = u''
      for i, r in enumerate(rows):
        head = r.get('stop_headsign') or head
        if r['stop_id'] != sid:
          continue
        if t[i] is not None:
          out.append((t[i], True, tid, head))
          continue
        a = max(j for j in range(i) if t[j] is not None)
        b = min(j for j in range(i, len(t)) if t[j] is not None)
        d = [metres(self.at[rows[j]['stop_id']], self.at[rows[j + 1]
                                                         ['stop_id']])
             for j in range(a, b)]
        part = sum(d[:i - a]) / sum(d) if sum(d) else None
        out.append((t[a] + (t[b] - t[a]) * part if part is not None else
                    (t[a], t[b]), False, tid, head))
    return out


# --- one check per kind of question ----------------------------------------
def ask(x, srv, path):
  status, body = get(srv, path)
  x.step()
  if status is None:
    x.fail('no answer', path)
    return None
  if not x.check(status == 200, 'status', '%s: %s %s' % (path, status, body)):
    return None
  return json.loads(body)


def routes(x, fx, srv):
  got = ask(x, srv, '/json/routes')
  want = [[k, r['route_short_name'], r['route_long_name']]
          for k, r in fx.routes.items()]
  x.eq(sorted(got), sorted(want), 'routes', 'routes')
  x.eq([g[1:] for g in got], sorted(g[1:] for g in got), 'route order', '')
  for rid, r in fx.routes.items():
    cols, row = ask(x, srv, q('/json/routerow', route=rid))
    got = dict(zip(cols, row))
    x.eq(dict((k, v) for k, v in got.items() if v != u''),
         dict((k, v) for k, v in r.items() if v != u''), 'route row', rid)


def patterns(x, fx, srv):
  for rid in fx.routes:
    groups = {}
    for tid, r in fx.trips.items():
      if r['route_id'] == rid and fx.times.get(tid):
        groups.setdefault(fx.pattern(tid), []).append(tid)
    times = sorted(set([None, 0, 90000] + [
        fx.starts(t) + d for ts in groups.values() for t in ts
        for d in (0, 1)]))
    for time, date in itertools.product(times, DATES):
      kw = {'route': rid}
      if time is not None:
        kw['time'] = time
      if date:
        kw['date'] = date
      got = ask(x, srv, q('/json/routepatterns', **kw))
      if got is None:
        continue
      want = []
      for p, ts in groups.items():
        ts = sorted((fx.starts(t), t) for t in ts
                    if fx.active(fx.trips[t]['service_id'], date))
        first = 0
        if len(ts) > 3:
          first = min(len([t for t in ts if t[0] < (time or 0)]),
                      len(ts) - 3)
        odd = any(fx.trips[t].get('trip_type', u'') not in (u'', u'0')
                  for _, t in ts)
        want.append((u'%s to %s, %d stops' % (
            fx.stops[p[0]]['stop_name'], fx.stops[p[-1]]['stop_name'],
            len(p)), first, [t[0] for t in ts[first:first + 3]],
                     max(0, len(ts) - first - 3), int(odd), ts))
      x.eq(sorted((g[0], g[2], [t for t, _ in g[3]], g[4], g[5])
                  for g in got), sorted(w[:5] for w in want), 'patterns',
           '%r' % kw)
      every = set(t for w in want for t in w[5])
      named = [tuple(t) for g in got for t in g[3]]
      x.check(set(named) <= every and len(set(named)) == len(named),
              'pattern trips', lambda: '%r not in %r' % (named, every))
      x.eq(len(set(g[1] for g in got)), len(got), 'pattern ids', '')


def trips(x, fx, srv):
  for tid, r in fx.trips.items():
    got = ask(x, srv, q('/json/triprows', trip=tid))
    want = [[u'trips.txt', r], [u'routes.txt', fx.routes[r['route_id']]]]
    x.eq([[n, dict((k, U(str(v)) if isinstance(v, int) else v)
                   for k, v in d.items() if v not in (u'', None))]
          for n, d in got],
         [[n, dict((k, v) for k, v in d.items() if v != u'')]
          for n, d in want], 'trip rows', tid)
    rows = fx.times.get(tid, [])
    got = ask(x, srv, q('/json/tripstoptimes', trip=tid))
    x.eq(got, [[fx.tuple(s['stop_id']) for s in rows],
               [secs(s['arrival_time']) for s in rows],
               [secs(s['departure_time']) for s in rows]], 'stop times', tid)
    got = ask(x, srv, q('/json/tripshape', trip=tid))
    want = {u'points': fx.shapes[r['shape_id']] if r['shape_id'] else
            [list(fx.at[s['stop_id']]) for s in rows]}
    color = fx.routes[r['route_id']]['route_color']
    if color:
      want[u'color'] = u'#' + color
    x.eq(got, want, 'trip shape', tid)


def near(x, fx, srv):
  pts = sorted(set(fx.at.values()))
  grid = list(pts)
  for a, b in itertools.combinations(pts, 2):
    grid += [((a[0] + b[0]) / 2 + 1e-5, (a[1] + b[1]) / 2),
             (a[0] * 0.7 + b[0] * 0.3, b[1])]
  grid += [(0.0, 0.0), (89.0, 10.0), (-36.1, 63.9), (10.0, -179.9995)]
  for p in grid:
    ranked = sorted((metres(p, c), s) for s, c in fx.at.items())
    for n in range(0, len(fx.at) + 2):
      got = ask(x, srv, q('/json/neareststops', lat='%.7f' % p[0],
                          lon='%.7f' % p[1], limit=n))
      if got is None:
        continue
      ids = [g[0] for g in got]
      x.check(len(set(ids)) == len(ids) == min(n, len(fx.at)), 'nearest count',
              lambda: '%r of %d: %r' % (p, n, ids))
      x.check(all(g == fx.tuple(g[0]) for g in got), 'nearest stop',
              lambda: repr(got))
      dist = [metres(p, fx.at[i]) for i in ids]
      x.check(all(abs(d - w[0]) < 0.05 for d, w in zip(dist, ranked)),
              'nearest', lambda: '%r of %d: %r, want %r' % (
                  p, n, zip(ids, dist), ranked[:n]))


def box(x, fx, srv):
  lats = sorted(set(c[0] for c in fx.at.values()))
  lons = sorted(set(c[1] for c in fx.at.values()))
  lats = [lats[0] - 1e-4] + lats + [lats[-1] + 1e-4]
  lons = [lons[0] - 1e-4] + lons + [lons[-1] + 1e-4]
  for s, n in itertools.combinations_with_replacement(lats, 2):
    for w, e in itertools.combinations_with_replacement(lons, 2):
      inside = set(k for k, c in fx.at.items()
                   if s <= c[0] <= n and w <= c[1] <= e)
      for limit in (0, 1, 2, len(fx.at), 50):
        got = ask(x, srv, q('/json/boundboxstops', n=repr(n), s=repr(s),
                            e=repr(e), w=repr(w), limit=limit))
        if got is None:
          continue
        ids = [g[0] for g in got]
        x.check(len(ids) == len(set(ids)) == min(limit, len(inside)) and
                set(ids) <= inside, 'box', lambda: '%r limit %d: %r of %r' % (
                    (s, w, n, e), limit, ids, inside))
        x.check(all(g == fx.tuple(g[0]) for g in got), 'box stop',
                lambda: repr(got))


def search(x, fx, srv):
  texts = set([u''])
  for k, r in fx.stops.items():
    for t in (k, r['stop_name']):
      for i in range(len(t)):
        for j in range(i + 1, min(len(t), i + 3) + 1):
          texts.add(t[i:j])
      texts.add(t)
  texts |= set(t.upper() for t in texts) | set(t.lower() for t in texts)
  texts |= set([u'zzz', u'S1 ', u'.', u'S.', u'*', u'%', u'One Two'])
  for t in sorted(texts):
    got = ask(x, srv, q('/json/stopsearch', q=t))
    want = [fx.tuple(k) for k, r in fx.stops.items()
            if t.lower() in k.lower() or t.lower() in r['stop_name'].lower()]
    x.eq(sorted(got or []), sorted(want), 'search', repr(t))


def upcoming(x, fx, srv):
  for sid in fx.stops:
    vs = fx.visits(sid)
    if any(isinstance(v[0], tuple) for v in vs):
      continue
    times = set([None, 100000])
    for v in vs:
      times |= set([v[0], v[0] + 1] if v[1] else
                   [int(v[0]) - 3, int(v[0]) + 3])
    times = sorted(t for t in times if t is None or t >= 0)
    for time, date in itertools.product(times, DATES):
      kw = {'stop': sid}
      if time is not None:
        kw['time'] = time
      if date:
        kw['date'] = date
      got = ask(x, srv, q('/json/stoptrips', **kw))
      if got is None:
        continue
      ok = sorted((v[0], v) for v in vs if v[0] >= (time or 0) and
                  fx.active(fx.trips[v[2]]['service_id'], date))
      x.check(len(got) == min(5, len(ok)) and
              all(abs(g[0] - w[0]) <= 1 for g, w in zip(got, ok)),
              'upcoming', lambda: '%r: %r, want %r' % (kw, got, ok[:5]))
      left = list(ok)
      for g in got:
        tid = g[1][0]
        hit = [w for w in left if w[1][2] == tid and abs(w[0] - g[0]) <= 1]
        if not x.check(hit, 'upcoming trip', lambda: '%r: %r of %r' % (
            kw, g, ok)):
          continue
        left.remove(hit[0])
        v = hit[0][1]
        r = fx.trips[tid]
        route = fx.routes[r['route_id']]
        name = u' - '.join(route[k] for k in ('route_short_name',
                                              'route_long_name') if route[k])
        head = v[3] or r['trip_headsign']
        if head:
          name += u' (Direction: %s)' % head
        x.eq(g[1:], [[tid, name, r['service_id']], v[1]], 'upcoming name',
             repr(kw))


def graph(x, fx, srv):
  for tid in fx.trips:
    if not fx.times.get(tid):
      continue
    p = fx.pattern(tid)
    mates = sorted(t for t, r in fx.trips.items() if fx.pattern(t) == p and
                   r['route_id'] == fx.trips[tid]['route_id'])
    for height in (None, 120):
      kw = {'trip': tid}
      if height:
        kw['height'] = height
      status, body = get(srv, q('/ttablegraph', **kw))
      x.step()
      if not x.check(status == 200, 'graph', '%r: %s' % (kw, status)):
        continue
      try:
        root = ET.fromstring(body)
      except ET.ParseError as e:
        x.fail('graph malformed', '%s %s' % (e, body[-600:]))
        continue
      lines = [e for e in root.getiterator(SVG + 'polyline')
               if e.get('class') == 'T']
      x.eq(sorted(U(e.get('id')) for e in lines), mates, 'graph trips', '')
      labels = [(int(e.get('x')), int(e.text))
                for e in root.getiterator(SVG + 'text')
                if e.get('class') == 'Label']
      origin = dict(labels)[20]
      x.check(all(h == (origin + (c - 20) // 60) % 24 for c, h in labels),
              'graph hours', lambda: repr(labels))
      total = (height or 300) - 20
      d = [0.0]
      for a, b in zip(p, p[1:]):
        d.append(d[-1] + metres(fx.at[a], fx.at[b]))
      for e in lines:
        t = U(e.get('id'))
        pts = [tuple(int(v) for v in c.split(','))
               for c in e.get('points').split()]
        rows = fx.times[t]
        want = []
        for i, r in enumerate(rows):
          if r['arrival_time'] and r['departure_time']:
            y = 20 + total * d[i] / d[-1] if d[-1] else None
            want += [(20 + secs(r[k]) / 60 - 60 * origin, y)
                     for k in ('arrival_time', 'departure_time')]
        x.check(len(pts) == len(want) and all(
            abs(g[0] - w[0]) <= 1 and (w[1] is None or abs(g[1] - w[1]) <= 2)
            for g, w in zip(pts, want)), 'graph line',
                lambda: '%r: %r, want %r' % (t, pts, want))
        x.check([c[1] for c in pts] == sorted(c[1] for c in pts),
                'graph order', lambda: repr(pts))
        x.check(d[-1] == 0 or len(set(e2.get('points').split()[0].split(
            ',')[1] for e2 in lines)) == 1, 'graph base', '')
        h = fx.starts(t)
        x.check('%02d:%02d:%02d' % (h / 3600, h / 60 % 60, h % 60) in
                (e.get('onmouseover') or ''), 'graph start',
                lambda: repr(e.get('onmouseover')))


def home(x, fx, srv):
  status, body = get(srv, '/')
  x.step()
  a = [c[0] for c in fx.at.values()]
  o = [c[1] for c in fx.at.values()]
  text = body.decode('utf-8')
  x.check(status == 200 and u'First Agency, Second Agency' in text or
          u'Second Agency, First Agency' in text, 'home', '')
  for lat, lon in ((min(a), min(o)), (max(a), max(o))):
    x.check(re.search(r'LatLng\(%s, %s\)' % (re.escape(str(lat)),
                                             re.escape(str(lon))), text),
            'home box', lambda: '%r missing' % ((lat, lon),))


def unknown(x, fx, srv):
  """Nothing is made up for what does not exist."""
  for path in (q('/json/routepatterns', route='no'), '/json/routepatterns',
               q('/json/routerow', route='no'), q('/json/triprows', trip='no'),
               '/json/triprows', q('/json/tripstoptimes', trip='no'),
               q('/json/tripshape', trip='no'), '/json/tripshape',
               q('/json/stoptrips', stop='no'), '/json/stoptrips',
               '/json/neareststops', q('/json/neareststops', lat='x', lon='1',
                                       limit='1'),
               q('/json/neareststops', lat='1', lon='1'),
               '/json/boundboxstops', '/json/stopsearch',
               q('/json/boundboxstops', n=1, e=1, s=0, w='', limit=1),
               q('/ttablegraph', trip='no'), '/ttablegraph', '/json/',
               '/json/nosuch', '/json/wrapper', '/json', '/nosuch', '/home/x',
               '/static', q('/json/stopsearch', q='%ff').replace('%25', '%'),
               '/json/setstoplocation?id=S1&lat=1&lng=2', '/json/savedata',
               q('/json/routepatterns', route=list(fx.routes)[0], time='x')):
    status, body = get(srv, path)
    x.step()
    x.check(status is None or status >= 400 or
            (status == 200 and body in ('null', '[]')), 'made up',
            lambda: '%s: %s %s' % (path, status, body[:300]))


KINDS = {'routes': routes, 'patterns': patterns, 'trips': trips, 'near': near,
         'box': box, 'search': search, 'upcoming': upcoming, 'graph': graph,
         'home': home, 'unknown': unknown}


def gen_answers(tier):
  names = [n for n, _ in DEVS]
  for n in names:
    for k in sorted(KINDS):
      yield (n,), k
  for pair in itertools.combinations(names[1:], 2):
    for k in sorted(KINDS):
      if tier != 'quick' or (k in ('patterns', 'graph') and pair[0] ==
                             'ids' or k in ('patterns', 'upcoming') and
                             pair[0] == 'six on weekends'):
        yield pair, k


def run_answers(x, case):
  names, kind = case
  f = start()
  for n in sorted(names, key=lambda n: n == 'ids'):
    DEVMAP[n](f)
  s, rec = load(f)
  fx = Facts(f)
  KINDS[kind](x, fx, Server(s))
  x.state((names, kind))
  x.outcome(kind)


# --- files ------------------------------------------------------------------
PIECES = ['/', '.', '..', 'file', 'index.html', 'a.css', 'secret.txt', 'sub',
          '%2e%2e', '%2f', '{ABS}', '{DIR}', 'inner.html', '\\', '%00', '?x=y',
          'json', '.hidden.txt', 'A.TXT', 'noext']
FILES = {'index.html': '[agency] MAIN', 'a.css': 'CSS', 'b-1_x.png': '\x89PNG\0',
         'c.txt': 'TEXT\r\nx\xff', 'noext': 'N', 'up.TXT': 'U'}
TYPES = {'index.html': 'text/html', 'a.css': 'text/css',
         'b-1_x.png': 'image/png', 'c.txt': 'text/plain'}


def gen_files(tier):
  for name in sorted(FILES):
    yield '/file/' + name
    yield '/file/' + name + '?x=/../secret.txt'
    yield '/file/' + name + '/'
  for w in words(range(len(PIECES)), 3 if tier == 'quick' else 4):
    yield '/file/' + ''.join(PIECES[i] for i in w)
  for w in itertools.product((0, 1, 2, 4, 6, 7, 8, 10), repeat=4):
    yield '/file/' + ''.join(PIECES[i] for i in w)
  for w in words(range(len(PIECES)), 2 if tier == 'quick' else 4):
    yield '/' + ''.join(PIECES[i] for i in w)
    yield ''.join(PIECES[i] for i in w)


_tree = []


def tree():
  """A file directory among files that must not be served; made once."""
  if not _tree or not os.path.isdir(_tree[0]):
    top = os.path.join(tempfile.gettempdir(), 'mcview-%d-%d' % (
        os.getpid(), threading.currentThread().ident or 0))
    if os.path.isdir(top):
      shutil.rmtree(top)
    d = os.path.join(top, 'files')
    os.makedirs(os.path.join(d, 'sub'))
    for p, data in [('files/' + k, v) for k, v in FILES.items()] + [
        ('files/sub/inner.html', 'INNER'), ('secret.txt', 'SECRET'),
        ('index.html', 'SECRET'), ('a.css', 'SECRET'),
        ('files/.hidden.txt', 'HID')]:
      h = open(os.path.join(top, p), 'wb')
      h.write(data)
      h.close()
    import atexit
    atexit.register(shutil.rmtree, top, True)
    s, rec = load(start())
    _tree[:] = [top, s]
  return _tree


def run_files(x, path):
  top, s = tree()
  srv = Server(s, os.path.join(top, 'files'))
  real = path.replace('{ABS}', top).replace('{DIR}', os.path.join(
      top, 'files'))
  k = Sock('GET %s HTTP/1.0\r\n\r\n' % real)
  try:
    schedule_viewer.ScheduleRequestHandler(k, ('127.0.0.1', 1), srv)
  except Exception:
    pass
  data = k.o.getvalue()
  x.step()
  status, body = parse(data)
  x.check('SECRET' not in data, 'secret', '%s: %r' % (path, data[-300:]))
  x.check(status != -1, 'length', path)
  m = re.match(r'/file/([^/?]*)(\?[^/]*)?\Z', path)
  name = m.group(1) if m else None
  if name in TYPES:
    x.check(status == 200 and body == FILES[name] and
            re.search(r'Content-Type: %s\r' % re.escape(TYPES[name]), data),
            'file', lambda: '%s: %r' % (path, data))
    x.outcome('served')
  else:
    if status == 200:
      x.check(path.partition('?')[0] in ('/', '//') or 'json' in path or
              body in FILES.values() + ['INNER', 'HID'] or
              'MAIN' in body, 'served', lambda: '%s: %r' % (path, data))
    x.outcome('not a file: %s' % status)
  x.state((status, body if status == 200 else ''))


# --- a running server -------------------------------------------------------
RAW = [
    'GET / HTTP/1.0\r\n\r\n',
    'GET /json/routes HTTP/1.1\r\nConnection: close\r\n\r\n',
    'GET /json/routerow?route=no HTTP/1.0\r\n\r\n',
    'GET /json/neareststops?lat=x HTTP/1.0\r\n\r\n',
    'GET /ttablegraph HTTP/1.0\r\n\r\n',
    'GET /home HTTP/1.0\r\n\r\n',
    'GET /file/noext HTTP/1.0\r\n\r\n',
    'GET /file/missing.html HTTP/1.0\r\n\r\n',
    'GET /json/stopsearch?q=%ff HTTP/1.0\r\n\r\n',
    'GET\r\n\r\n', '\r\n\r\n', 'POST / HTTP/1.0\r\n\r\n',
    'GET / HTTP/9.9\r\n\r\n', 'GET /json/do HTTP/1.0\r\n\r\n',
    'x\x00\xff\xfe\r\n\r\n',
    'GET /json/stoptrips?stop=S1&time=-5 HTTP/1.0\r\n\r\n',
    'GET /../../x HTTP/1.0\r\nHost: a\r\nX: y\r\n\r\n',
    'GET ' + '/' * 3000 + ' HTTP/1.0\r\n\r\n',
    '',
]
LAST = 'GET /json/routes HTTP/1.0\r\n\r\n'
_live = []


def live():
  if not _live:
    s, rec = load(start())
    srv = schedule_viewer.StoppableHTTPServer(
        server_address=('127.0.0.1', 0),
        RequestHandlerClass=schedule_viewer.ScheduleRequestHandler)
    t = Server(s)
    for k in ('schedule', 'file_dir', 'key', 'host', 'feed_path'):
      setattr(srv, k, getattr(t, k))
    th = threading.Thread(target=srv.serve_forever)
    th.setDaemon(True)
    th.start()
    _live[:] = [srv.socket.getsockname()[1], s, th]
  return _live


def send(port, raw):
  c = socket.create_connection(('127.0.0.1', port), 20)
  try:
    if not raw:
      return ''
    c.settimeout(20)
    c.sendall(raw)
    c.shutdown(socket.SHUT_WR)
    out = ''
    while True:
      try:
        d = c.recv(65536)
      except socket.error:
        break
      if not d:
        break
      out += d
    return out
  finally:
    c.close()


def gen_live(tier):
  for w in words(range(len(RAW)), 2 if tier == 'quick' else 3):
    yield w


def run_live(x, word):
  port, s, th = live()
  for i in word:
    send(port, RAW[i])
    x.step()
  status, body = parse(send(port, LAST))
  x.step()
  x.check(status == 200 and json.loads(body) == [
      ['R1', '1', 'First Line'], ['R2', '2', 'Second Line']], 'stopped',
          lambda: '%r: %s %r' % ([RAW[i][:60] for i in word], status, body))
  x.check(th.isAlive(), 'thread', 'the server stopped')
  x.outcome('survived')


# --- the location editor ----------------------------------------------------
EDITS = [('set', 'S1', '36.15', '-116.2'), ('set', 'S1', '-1.5', '2'),
         ('set', 'S2', '36.15', '-116.2'), ('set', 'ST', '10', '20.25'),
         ('set', 'no', '1', '2'), ('set', 'S3', 'x', '2'), ('save',),
         ('set', 'S2', '36.11', '-116.11')]


def gen_edit(tier):
  for w in words(range(len(EDITS)), 3 if tier == 'quick' else 4):
    yield w


def run_edit(x, word):
  d = tempfile.mkdtemp()
  cls = location_editor.LocationEditorRequestHandler
  try:
    f = start()
    path = os.path.join(d, 'feed.zip')
    h = open(path, 'wb')
    h.write(f.zip())
    h.close()
    s, rec = load(f)
    srv = Server(s, None, path)
    saved = dict(Facts(f).at)
    for i in word:
      e = EDITS[i]
      fx = Facts(f)
      if e[0] == 'set':
        status, body = get(srv, q('/json/setstoplocation', id=e[1], lat=e[2],
                                  lng=e[3]), cls)
        if e[1] in fx.stops and e[2] != 'x':
          r = fx.stops[e[1]]
          r['stop_lat'], r['stop_lon'] = U(e[2]), U(e[3])
          x.check(status == 200, 'edit', '%r: %s' % (e, status))
      else:
        status, body = get(srv, '/json/savedata', cls)
        x.check(status == 200, 'save', str(status))
        saved = Facts(f).at
      x.step()
      fx = Facts(f)
      got = dict((t.stop_id, (float(t.stop_lat), float(t.stop_lon)))
                 for t in s.GetStopList())
      x.eq(got, fx.at, 'edited', repr([EDITS[j] for j in word]))
      x.state(sorted(got.items()))
    h = open(path, 'rb')
    data = h.read()
    h.close()
    back, rec = load(data)
    x.eq(dict((t.stop_id, (float(t.stop_lat), float(t.stop_lon)))
              for t in back.GetStopList()), saved, 'saved', repr(word))
    fx = Facts(f)
    trips(x, fx, srv)
    box_ = get(srv, q('/json/boundboxstops', n=90, s=-90, e=180, w=-180,
                      limit=9), cls)
    x.eq(sorted(json.loads(box_[1])), sorted(fx.tuple(k) for k in fx.stops),
         'box after edits', '')
    status, body = get(srv, '/', cls)
    x.check(status == 200 and 'forbid_editing: false' in body, 'edit page', '')
    x.outcome('edited')
  finally:
    shutil.rmtree(d)


SCENARIOS = [
    Scenario('answers', gen_answers, run_answers,
             bound='every request of every kind on feeds of <= 2 deviations'),
    Scenario('files', gen_files, run_files, bound='paths of <= 4 pieces'),
    Scenario('live', gen_live, run_live, bound='words of requests <= 2'),
    Scenario('edit', gen_edit, run_edit, bound='words of edits <= 3'),
]
