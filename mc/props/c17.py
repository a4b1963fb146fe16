# -*- coding: utf-8 -*-
"""C17: a merged feed contains all of both feeds with references intact.

Pairs of feeds are enumerated as all sets of at most k deviations (each on the
old or on the new feed) from a pair of sound feeds in which everything except
trips and services is combined.  A reference merge computed from the rows gives
the expected merged feed up to the choice of fresh identifiers; the merged
schedule, and the feed written from it and read back, must be isomorphic."""
import itertools
import os
import shutil
import sys
import tempfile

import transitfeed
import merge
from core import Scenario
from feeds import (base, load, observe, expected, reporter, Recorder, U,
                   text, Feed, unzip)

M = 1 / 111195.0     # one metre of latitude in degrees


class Skip(Exception):
  pass


# --- the pair of feeds ------------------------------------------------------
def year(f, y):
  for n, cols in (('calendar.txt', ('start_date', 'end_date')),
                  ('calendar_dates.txt', ('date',)),
                  ('feed_info.txt', ('feed_start_date', 'feed_end_date'))):
    for r in f[n].rows:
      for c in cols:
        r[c] = u'%d%s' % (y, r[c][4:])


def start(side):
  f = base()
  if side == 'b':
    year(f, 2011)
    # values that are taken from the new entity when combined
    f['agency.txt'].rows[0]['agency_phone'] = u'999'
    f['stops.txt'].rows[1]['stop_desc'] = u'newer two'
    f['routes.txt'].rows[0]['route_desc'] = u'newer desc'
    f['shapes.txt'].rows[1]['shape_pt_lat'] = u'36.1105'
    f['stop_times.txt'].rows[1]['stop_headsign'] = u'new head'
    f['frequencies.txt'].rows[0]['headway_secs'] = u'900'
  return f


def row(f, table, key, value):
  for r in f[table].rows:
    if r.get(key) == value:
      return r
  raise Skip('%s %s gone' % (table, value))


def put(table, key, value, **kw):
  def g(f):
    if table not in f.tables:
      raise Skip(table)
    row(f, table, key, value).update(
        dict((k, U(v)) for k, v in kw.items()))
  return g


REFS = {
    'agency_id': [('agency.txt', 'agency_id'), ('routes.txt', 'agency_id')],
    'stop_id': [('stops.txt', 'stop_id'), ('stops.txt', 'parent_station'),
                ('stop_times.txt', 'stop_id'), ('transfers.txt',
                                                'from_stop_id'),
                ('transfers.txt', 'to_stop_id')],
    'route_id': [('routes.txt', 'route_id'), ('trips.txt', 'route_id'),
                 ('fare_rules.txt', 'route_id')],
    'service_id': [('calendar.txt', 'service_id'), ('calendar_dates.txt',
                                                    'service_id'),
                   ('trips.txt', 'service_id')],
    'trip_id': [('trips.txt', 'trip_id'), ('stop_times.txt', 'trip_id'),
                ('frequencies.txt', 'trip_id')],
    'fare_id': [('fare_attributes.txt', 'fare_id'), ('fare_rules.txt',
                                                     'fare_id')],
    'shape_id': [('shapes.txt', 'shape_id'), ('trips.txt', 'shape_id')],
    'zone_id': [('stops.txt', 'zone_id'), ('fare_rules.txt', 'origin_id'),
                ('fare_rules.txt', 'destination_id'),
                ('fare_rules.txt', 'contains_id')],
    'block_id': [('trips.txt', 'block_id')],
}


def rename(kind, *pairs):
  m = dict((U(a), U(b)) for a, b in pairs)
  def g(f):
    for t, c in REFS[kind]:
      for r in f[t].rows:
        if r.get(c) in m:
          r[c] = m[r[c]]
  return g


def move(stop, metres):
  def g(f):
    r = row(f, 'stops.txt', 'stop_id', stop)
    r['stop_lat'] = u'%.8f' % (float(r['stop_lat']) + metres * M)
  return g


def moves(*args):
  def g(f):
    for s, m in args:
      move(s, m)(f)
  return g


def add(table, **kw):
  def g(f):
    if table not in f.tables:
      raise Skip(table)
    d = dict((c, u'') for c in f[table].cols)
    d.update(dict((k, U(v)) for k, v in kw.items()))
    f[table].rows.append(d)
  return g


def drop(table, pred):
  def g(f):
    if table not in f.tables:
      raise Skip(table)
    f[table].rows = [r for r in f[table].rows if not pred(r)]
  return g


def both(*gs):
  def g(f):
    for h in gs:
      h(f)
  return g


def point(shape, which, metres):
  def g(f):
    rs = [r for r in f['shapes.txt'].rows if r['shape_id'] == shape]
    if not rs:
      raise Skip('shape')
    r = rs[which]
    r['shape_pt_lat'] = u'%.8f' % (float(r['shape_pt_lat']) + metres * M)
  return g


def stoptimes(trip, col, *vals):
  def g(f):
    rs = [r for r in f['stop_times.txt'].rows if r['trip_id'] == trip]
    if len(rs) != len(vals):
      raise Skip('stop times')
    for r, v in zip(rs, vals):
      r[col] = U(v)
  return g


def blank_agency(f):
  """One agency, nothing refers to it by id."""
  f['agency.txt'].rows = f['agency.txt'].rows[:1]
  f['agency.txt'].rows[0]['agency_id'] = u''
  for r in f['routes.txt'].rows:
    r['agency_id'] = u''


def one_agency(f):
  f['agency.txt'].rows = f['agency.txt'].rows[:1]
  for r in f['routes.txt'].rows:
    r['agency_id'] = u'' if r['route_id'] == 'R2' else \
        f['agency.txt'].rows[0]['agency_id']


def tz(f):
  for r in f['agency.txt'].rows:
    r['agency_timezone'] = u'America/Denver'


def no_table(*names):
  def g(f):
    for n in names:
      if n not in f.tables:
        raise Skip(n)
      del f.tables[n]
  return g


A1 = ('agency.txt', 'agency_id', 'AG1')
S1 = ('stops.txt', 'stop_id', 'S1')
R1 = ('routes.txt', 'route_id', 'R1')
T1 = ('trips.txt', 'trip_id', 'T1')
F1 = ('fare_attributes.txt', 'fare_id', 'F1')

# name, group, function; groups order the pairs explored in the quick tier
DEVS = [
    ('agency-name', 'agency', put(*A1, agency_name='Other Agency')),
    ('agency-url', 'agency', put(*A1, agency_url='http://other.example/')),
    ('agency-tz', 'agency', tz),
    ('agency-lang', 'agency', put(*A1, agency_lang='fr')),
    ('agency-fare', 'agency', put(*A1, agency_fare_url='', agency_email='')),
    ('agency-id', 'agency', rename('agency_id', ('AG1', 'AG9'))),
    ('agency-swap', 'agency', rename('agency_id', ('AG1', 'AG2'),
                                     ('AG2', 'AG1'))),
    ('agency-one', 'agency', one_agency),
    ('agency-blank', 'agency', blank_agency),
    ('agency-more', 'agency', add('agency.txt', agency_id='AG3',
                                  agency_name='Third',
                                  agency_url='http://c.example/',
                                  agency_timezone='America/Los_Angeles')),
    ('stop-case', 'stop', put(*S1, stop_name='ONE')),
    ('stop-name', 'stop', put(*S1, stop_name='Uno \xc3\xa9')),
    ('stop-5m', 'stop', move('S1', 5)),
    ('stop-10m', 'stop', move('S1', 9.8)),
    ('stop-10m+', 'stop', move('S1', 10.3)),
    ('stop-15m', 'stop', move('S2', 15)),
    ('stop-zone', 'stop', put(*S1, zone_id='Z2')),
    ('stop-nozone', 'stop', put('stops.txt', 'stop_id', 'S3', zone_id='')),
    ('zone-new', 'stop', rename('zone_id', ('Z2', 'Z9'))),
    ('zone-swap', 'stop', rename('zone_id', ('Z2', 'Z1'), ('Z1', 'Z2'))),
    ('zone-apart', 'stop', moves(('S1', 30), ('S3', 30))),
    ('zone-all-apart', 'stop', moves(('S1', 30), ('S2', 30), ('S3', 30))),
    ('stop-type', 'stop', put('stops.txt', 'stop_id', 'S3',
                              location_type='0')),
    ('stop-attrs', 'stop', put(*S1, stop_desc='', stop_code='99',
                               stop_url='http://n.example/',
                               wheelchair_boarding='2')),
    ('stop-id', 'stop', rename('stop_id', ('S1', 'S9'))),
    ('stop-swap', 'stop', rename('stop_id', ('S1', 'S2'), ('S2', 'S1'))),
    ('stop-noparent', 'stop', put(*S1, parent_station='')),
    ('stop-parent2', 'stop', both(
        put('stops.txt', 'stop_id', 'S2', parent_station='ST'),
        moves(('S2', -1100)))),
    ('station-15m', 'stop', move('ST', 15)),
    ('station-id', 'stop', rename('stop_id', ('ST', 'STX'))),
    ('station-name', 'stop', put('stops.txt', 'stop_id', 'ST',
                                 stop_name='Big Station')),
    ('stop-lone', 'stop', both(
        add('stops.txt', stop_id='S4', stop_name='Four', stop_lat='36.13',
            stop_lon='-116.13', zone_id='Z1'),
        put('stop_times.txt', 'stop_sequence', '5', stop_id='S4'))),
    ('stop-lone-zone', 'stop', both(
        add('stops.txt', stop_id='S4', stop_name='Four', stop_lat='36.13',
            stop_lon='-116.13', zone_id='Z7'),
        put('stop_times.txt', 'stop_sequence', '5', stop_id='S4'),
        add('fare_rules.txt', fare_id='F1', origin_id='Z7'))),
    ('stop-lone-nozone', 'stop', both(
        add('stops.txt', stop_id='S4', stop_name='Four', stop_lat='36.13',
            stop_lon='-116.13', parent_station='ST2'),
        add('stops.txt', stop_id='ST2', stop_name='Four St',
            stop_lat='36.1301', stop_lon='-116.13', location_type='1'),
        put('stop_times.txt', 'stop_sequence', '5', stop_id='S4'))),
    ('ids-merged', 'stop', both(rename('stop_id', ('S2', 'S2_merged_8')),
                                rename('route_id', ('R1', 'R1_merged_7')))),
    ('zone-merged', 'stop', both(
        rename('zone_id', ('Z2', 'Z1_merged_4')), move('S3', 20))),
    ('zone-merged2', 'stop', rename('zone_id', ('Z2', 'Z1_merged_5'))),
    ('route-short', 'route', put(*R1, route_short_name='1a')),
    ('route-long', 'route', put(*R1, route_long_name='Another Line')),
    ('route-type', 'route', put(*R1, route_type='0')),
    ('route-agency', 'route', put(*R1, agency_id='AG2')),
    ('route-url', 'route', put(*R1, route_url='http://n.example/r')),
    ('route-nourl', 'route', put(*R1, route_url='')),
    ('route-color', 'route', put(*R1, route_color='DDDDDD')),
    ('route-nocolor', 'route', put(*R1, route_color='', route_text_color='')),
    ('route-text', 'route', put(*R1, route_text_color='111111')),
    ('route-desc', 'route', put(*R1, route_desc='', bikes_allowed='2')),
    ('route-id', 'route', rename('route_id', ('R1', 'R\xc3\xa99'))),
    ('route-swap', 'route', rename('route_id', ('R1', 'R2'), ('R2', 'R1'))),
    ('route-to-other', 'route', rename('route_id', ('R1', 'R9'))),
    ('service-id', 'service', rename('service_id', ('WK', 'WX'))),
    ('service-swap', 'service', rename('service_id', ('WK', 'WE'),
                                       ('WE', 'WK'))),
    ('service-both', 'service', rename('service_id', ('WK', 'N1'),
                                       ('WE', 'N2'))),
    ('service-dates', 'service', drop('calendar.txt',
                                      lambda r: r['service_id'] == 'WE')),
    ('service-days', 'service', put('calendar.txt', 'service_id', 'WK',
                                    monday='0', sunday='1')),
    ('trip-id', 'trip', rename('trip_id', ('T1', 'T9'))),
    ('trip-ids', 'trip', rename('trip_id', ('T1', 'U1'), ('T2', 'U2'),
                                ('T3', 'U3'))),
    ('trip-swap', 'trip', rename('trip_id', ('T1', 'T3'), ('T3', 'T1'))),
    ('trip-block', 'trip', rename('block_id', ('B1', 'B7'))),
    ('trip-shape', 'trip', put('trips.txt', 'trip_id', 'T2', shape_id='')),
    ('trip-attrs', 'trip', put(*T1, trip_headsign='', direction_id='1',
                               trip_short_name='', bikes_allowed='2',
                               wheelchair_accessible='')),
    ('trip-route', 'trip', put(*T1, route_id='R2')),
    ('trip-service', 'trip', put(*T1, service_id='WE', block_id='')),
    ('times-timepoint', 'trip', stoptimes('T1', 'timepoint', '0', '1', '1')),
    ('times-sequence', 'trip', stoptimes('T2', 'stop_sequence', '3', '900')),
    ('times-late', 'trip', both(
        stoptimes('T3', 'arrival_time', '25:00:00', '27:10:10'),
        stoptimes('T3', 'departure_time', '25:01:00', '27:10:10'))),
    ('times-midnight', 'trip', both(
        stoptimes('T3', 'arrival_time', '00:00:00', '00:10:10'),
        stoptimes('T3', 'departure_time', '00:00:00', '00:11:00'))),
    ('times-types', 'trip', both(
        stoptimes('T1', 'pickup_type', '', '0', '3'),
        stoptimes('T1', 'drop_off_type', '2', '', '0'),
        stoptimes('T1', 'stop_headsign', '', 'x \xc3\xa9', 'y'))),
    ('times-dist', 'trip', both(
        stoptimes('T2', 'shape_dist_traveled', '', ''))),
    ('times-same', 'trip', stoptimes('T3', 'stop_id', 'S1', 'S1')),
    ('freq-none', 'trip', no_table('frequencies.txt')),
    ('freq-exact', 'trip', both(
        put('frequencies.txt', 'start_time', '08:00:00', exact_times='1',
            headway_secs='777'))),
    ('freq-more', 'trip', add('frequencies.txt', trip_id='T1',
                              start_time='00:00:00', end_time='04:00:00',
                              headway_secs='60')),
    ('fare-price', 'fare', put(*F1, price='0')),
    ('fare-currency', 'fare', put(*F1, currency_type='EUR')),
    ('fare-payment', 'fare', put(*F1, payment_method='1')),
    ('fare-transfers', 'fare', put(*F1, transfers='')),
    ('fare-transfers2', 'fare', put(*F1, transfers='2')),
    ('fare-duration', 'fare', put(*F1, transfer_duration='')),
    ('fare-id', 'fare', rename('fare_id', ('F1', 'F9'))),
    ('fare-swap', 'fare', rename('fare_id', ('F1', 'F2'), ('F2', 'F1'))),
    ('fare-norules', 'fare', no_table('fare_rules.txt')),
    ('fare-rules2', 'fare', both(
        add('fare_rules.txt', fare_id='F2', route_id='R2', origin_id='Z2',
            destination_id='Z1'),
        add('fare_rules.txt', fare_id='F1', contains_id='Z2'))),
    ('fare-rules-bare', 'fare', add('fare_rules.txt', fare_id='F2')),
    ('fare-none', 'fare', no_table('fare_rules.txt', 'fare_attributes.txt')),
    ('shape-first', 'shape', point('SH1', 0, 15)),
    ('shape-last', 'shape', point('SH1', -1, 15)),
    ('shape-near', 'shape', both(point('SH1', 0, 9.8),
                                 point('SH1', -1, -9.8))),
    ('shape-first+', 'shape', point('SH2', 0, 10.3)),
    ('shape-inner', 'shape', point('SH1', 1, 40)),
    ('shape-id', 'shape', rename('shape_id', ('SH1', 'SH9'))),
    ('shape-swap', 'shape', rename('shape_id', ('SH1', 'SHx'),
                                   ('SH2', 'SH1'))),
    ('transfer-type', 'transfer', put('transfers.txt', 'from_stop_id', 'S1',
                                      transfer_type='3')),
    ('transfer-time', 'transfer', put('transfers.txt', 'from_stop_id', 'S2',
                                      min_transfer_time='2400')),
    ('transfer-none', 'transfer', no_table('transfers.txt')),
    ('transfer-one', 'transfer', drop('transfers.txt',
                                      lambda r: r['from_stop_id'] == 'S1')),
    ('transfer-other', 'transfer', add('transfers.txt', from_stop_id='S3',
                                       to_stop_id='S3', transfer_type='1')),
]
NAMES = [d[0] for d in DEVS]
GROUP = dict((d[0], d[1]) for d in DEVS)
FUNC = dict((d[0], d[2]) for d in DEVS)
# groups that refer to one another
NEAR = {'agency': ('agency', 'route'), 'stop': ('stop', 'trip', 'fare',
                                                'transfer'),
        'route': ('route', 'trip', 'agency', 'fare'),
        'service': ('service', 'trip'),
        'trip': ('trip', 'shape', 'route', 'service'),
        'fare': ('fare', 'route'), 'shape': ('shape', 'trip'),
        'transfer': ('transfer', 'stop')}


def gen_pairs(tier):
  one = [(s, n) for n in NAMES for s in 'ab']
  yield ()
  for d in one:
    yield (d,)
  for i, (s, n) in enumerate(one):
    for t, m in one[i + 1:]:
      if n == m:
        yield ((s, n), (t, m))
      elif tier != 'quick' or (
          (GROUP[m] == GROUP[n] and (s == 'a' or t == 'b')) or
          (GROUP[m] in NEAR[GROUP[n]] and s == 'a' and t == 'b')):
        yield ((s, n), (t, m))


def feeds_of(case):
  fs = {'a': start('a'), 'b': start('b')}
  for s, n in case:
    FUNC[n](fs[s])
  return fs['a'], fs['b']


# --- reference merge --------------------------------------------------------
def metres(p, q):
  import math
  la1, lo1, la2, lo2 = [math.radians(float(v)) for v in p + q]
  h = (math.sin((la1 - la2) / 2) ** 2 + math.cos(la1) * math.cos(la2) *
       math.sin((lo1 - lo2) / 2) ** 2)
  return 2 * 6371010.0 * math.asin(math.sqrt(h))


class Model(object):
  """What the merge of two sound feeds has to contain.

  sym[kind][(side, id)] names the merged entity; entity contents are keyed by
  that name, with references given as names."""

  def __init__(self, a, b, stop_m=10.0, shape_m=10.0):
    self.o = {'a': expected(a), 'b': expected(b)}
    self.sym = {}
    self.stop_m, self.shape_m = stop_m, shape_m
    self.content = {}
    self.fixed = {}     # kind -> name -> identifier that has to be kept
    self.combined = {}

  def get(self, side, part):
    return self.o[side][part]

  def decide(self, kind, part, same):
    sym = self.sym[kind] = {}
    fixed = self.fixed[kind] = {}
    comb = self.combined[kind] = set()
    A, B = self.get('a', part), self.get('b', part)
    for i in A:
      if i in B and same(i, A[i], B[i]):
        sym['a', i] = sym['b', i] = ('ab', i)
        fixed['ab', i] = i
        comb.add(i)
    for s, X, Y in (('a', A, B), ('b', B, A)):
      for i in X:
        if i in comb:
          continue
        sym[s, i] = (s, i)
        if i not in Y:
          fixed[s, i] = i

  def agency(self, s, i):
    if i == u'':
      ids = self.get(s, 'agency.txt').keys()
      if u'' not in ids:
        i = ids[0]
    return self.sym['agency'][s, i]

  def run(self):
    eq = lambda *cols: (lambda i, x, y: all(x.get(c) == y.get(c)
                                            for c in cols))
    self.decide('agency', 'agency.txt',
                eq('agency_name', 'agency_url', 'agency_timezone'))
    self.decide('stop', 'stops.txt', lambda i, x, y: (
        x['stop_name'].lower() == y['stop_name'].lower() and
        x.get('zone_id') == y.get('zone_id') and
        x['location_type'] == y['location_type'] and
        metres((x['stop_lat'], x['stop_lon']),
               (y['stop_lat'], y['stop_lon'])) <= self.stop_m))
    opt = lambda c, x, y: (not x.get(c) or not y.get(c) or
                           x.get(c) == y.get(c))
    self.decide('route', 'routes.txt', lambda i, x, y: (
        eq('route_short_name', 'route_long_name', 'route_type')(i, x, y) and
        self.agency('a', x.get('agency_id', u'')) ==
        self.agency('b', y.get('agency_id', u'')) and
        opt('route_url', x, y) and opt('route_color', x, y) and
        opt('route_text_color', x, y)))
    self.decide('service', 'calendar', lambda i, x, y: False)
    self.decide('fare', 'fare_attributes.txt', eq(
        'price', 'currency_type', 'payment_method', 'transfers',
        'transfer_duration'))
    self.decide('shape', 'shapes.txt', lambda i, x, y: max(
        metres(x[0][:2], y[0][:2]), metres(x[-1][:2], y[-1][:2])) <=
        self.shape_m)
    self.decide('trip', 'trips.txt', lambda i, x, y: False)
    # zones: one of each feed are the same when a combined stop carries them
    zones = {}
    shared = set(self.get('a', 'stops.txt')[i].get('zone_id')
                 for i in self.combined['stop'])
    for s in 'ab':
      for st in self.get(s, 'stops.txt').values():
        z = st.get('zone_id')
        if z:
          zones[s, z] = ('ab', z) if z in shared else (s, z)
    self.sym['zone'] = zones
    self.build()
    return self

  def build(self):
    c = self.content = dict((k, {}) for k in (
        'agency', 'stop', 'route', 'service', 'fare', 'shape', 'trip'))
    S = self.sym
    def winner(kind, part):
      """(name, side, id) of each merged entity; the new feed wins."""
      out = {}
      for s in 'ab':
        for i in self.get(s, part):
          out[S[kind][s, i]] = (s, i)
      return [(n, s, i) for n, (s, i) in out.items()]
    for n, s, i in winner('agency', 'agency.txt'):
      d = dict(self.get(s, 'agency.txt')[i])
      d.pop('agency_id', None)
      c['agency'][n] = d
    for n, s, i in winner('stop', 'stops.txt'):
      d = dict(self.get(s, 'stops.txt')[i])
      d.pop('stop_id')
      if d.get('parent_station'):
        d['parent_station'] = S['stop'][s, d['parent_station']]
      if d.get('zone_id'):
        d['zone_id'] = S['zone'][s, d['zone_id']]
      c['stop'][n] = d
    for n, s, i in winner('route', 'routes.txt'):
      d = dict(self.get(s, 'routes.txt')[i])
      d.pop('route_id')
      d['agency_id'] = self.agency(s, d.get('agency_id', u''))
      if n[0] == 'ab':
        x = self.get('a', 'routes.txt')[i]
        for col in ('route_url', 'route_color', 'route_text_color'):
          if not d.get(col) and x.get(col):
            d[col] = x[col]
      c['route'][n] = d
    for n, s, i in winner('service', 'calendar'):
      c['service'][n] = self.get(s, 'calendar')[i]
    for n, s, i in winner('fare', 'fare_attributes.txt'):
      d = dict(self.get(s, 'fare_attributes.txt')[i])
      d.pop('fare_id')
      c['fare'][n] = d
    for n, s, i in winner('shape', 'shapes.txt'):
      c['shape'][n] = self.get(s, 'shapes.txt')[i]
    for n, s, i in winner('trip', 'trips.txt'):
      d = dict(self.get(s, 'trips.txt')[i])
      d.pop('trip_id')
      d['route_id'] = S['route'][s, d['route_id']]
      d['service_id'] = S['service'][s, d['service_id']]
      if d.get('shape_id'):
        d['shape_id'] = S['shape'][s, d['shape_id']]
      if d.get('block_id'):
        d['block_id'] = (s, d['block_id'])
      if i in self.get('ba'['ab'.index(s)], 'trips.txt'):
        d['original_trip_id'] = i
      d['stop_times'] = [st[:2] + (S['stop'][s, st[2]],) + st[3:]
                         for st in self.get(s, 'stop_times.txt')[i]]
      d['frequencies'] = sorted(self.get(s, 'frequencies.txt').get(i, []))
      c['trip'][n] = d
    self.rules = set()
    self.transfers = {}
    for s in 'ab':
      for r in self.get(s, 'fare_rules.txt'):
        r = dict(r)
        self.rules.add((
            S['fare'][s, r['fare_id']],
            r.get('route_id') and S['route'][s, r['route_id']]) + tuple(
                r.get(k) and S['zone'][s, r[k]] for k in (
                    'origin_id', 'destination_id', 'contains_id')))
      for t in self.get(s, 'transfers.txt'):
        t = dict(t)
        k = (S['stop'][s, t['from_stop_id']], S['stop'][s, t['to_stop_id']])
        self.transfers[k] = (t['transfer_type'], t.get('min_transfer_time'))


REF_COLS = {'stop': ('parent_station', 'zone_id'), 'route': ('agency_id',),
            'trip': ('route_id', 'service_id', 'shape_id', 'block_id',
                     'stop_times')}


class Names(object):
  """One-to-one correspondence between identifiers and model names."""

  def __init__(self):
    self.of_id = {}
    self.id_of = {}

  def bind(self, ident, name):
    if self.of_id.get(ident, name) != name or \
        self.id_of.get(name, ident) != ident:
      return False
    self.of_id[ident] = name
    self.id_of[name] = ident
    return True


def close(a, b):
  if isinstance(a, float) and isinstance(b, float):
    return abs(a - b) < 1e-7
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
  if isinstance(a, dict) and isinstance(b, dict):
    return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
  return a == b


def witness(m, fm):
  """Where the merge maps say that each expected entity went."""
  out = {}
  for kind, part, get, col in GETTERS:
    for side, sched, mp in (('a', fm.a_schedule, fm.a_merge_map),
                            ('b', fm.b_schedule, fm.b_merge_map)):
      for e in get(sched):
        n = m.sym[kind].get((side, text(getattr(e, col))))
        if e in mp:
          out[kind, n] = text(getattr(mp[e], col))
  return out


def compare(x, m, o, tag, hint=None):
  """The observation o is the model m up to fresh identifiers.

  hint only orders the candidates when contents do not tell them apart."""
  hint = hint or {}
  names = dict((k, Names()) for k in ('agency', 'stop', 'route', 'service',
                                      'fare', 'shape', 'trip', 'zone',
                                      'block'))
  parts = [('agency', 'agency.txt', 'agency_id'),
           ('stop', 'stops.txt', 'stop_id'),
           ('route', 'routes.txt', 'route_id'),
           ('service', 'calendar', None),
           ('fare', 'fare_attributes.txt', 'fare_id'),
           ('shape', 'shapes.txt', None),
           ('trip', 'trips.txt', 'trip_id')]
  ok = True
  for kind, part, idcol in parts:
    got = dict(o[part])
    want = m.content[kind]
    if len(got) != len(want):
      x.fail('%s:count:%s' % (tag, kind), 'ids %r, expected %r' % (
          sorted(got), sorted(want)))
      ok = False
      continue
    obs = {}
    for i, d in got.items():
      if idcol:
        d = dict(d)
        if d.pop(idcol, u'') != i:
          x.fail('%s:own-id:%s' % (tag, kind), '%r %r' % (i, d))
      if kind == 'trip':
        d['stop_times'] = o['stop_times.txt'].get(i)
        d['frequencies'] = sorted(o['frequencies.txt'].get(i, []))
      obs[i] = d
    ref = REF_COLS.get(kind, ())
    bare = lambda d: (dict((k, v) for k, v in d.items() if k not in ref)
                      if ref else d)
    free = set(obs)
    todo = []
    for n in sorted(want):
      i = m.fixed[kind].get(n)
      if i is None:
        todo.append(n)
      elif i not in obs:
        x.fail('%s:id:%s' % (tag, kind), '%r should be kept; ids %r' % (
            n, sorted(obs)))
        ok = False
      else:
        free.discard(i)
        names[kind].bind(i, n)
        if not close(bare(obs[i]), bare(want[n])):
          x.fail('%s:value:%s' % (tag, kind), '%r is %r, expected %r' % (
              n, bare(obs[i]), bare(want[n])))
          ok = False
    def hit(i, n):
      if not close(bare(obs[i]), bare(want[n])):
        return False
      if kind == 'trip':
        return len(obs[i]['stop_times']) == len(want[n]['stop_times'])
      return True
    # fresh ids: find an assignment by content (contents are told apart by
    # dates, descriptions or references; ties are tried in every order)
    found = match(todo, sorted(free), hit,
                  lambda n, i: (hint.get((kind, n)) == i, refs_ok(
                      kind, obs[i], want[n], names, False)))
    if found is None:
      x.fail('%s:lost:%s' % (tag, kind), 'no match for %r among %r' % (
          [(n, want[n]) for n in todo], [(i, obs[i]) for i in free]))
      ok = False
      continue
    for n, i in found.items():
      names[kind].bind(i, n)
    for n in sorted(want):
      i = names[kind].id_of.get(n)
      if i is not None and not refs_ok(kind, obs[i], want[n], names, True):
        x.fail('%s:reference:%s' % (tag, kind), '%r (%r) is %r, expected %r' %
               (n, i, dict((k, obs[i].get(k)) for k in ref),
                dict((k, want[n].get(k)) for k in ref)))
        ok = False
  if not ok:
    return
  tr = lambda kind, i: names[kind].of_id.get(i, ('?', i)) if i else None
  rules = set()
  for r in o['fare_rules.txt']:
    r = dict(r)
    rules.add((tr('fare', r.get('fare_id')), tr('route', r.get('route_id'))) +
              tuple(tr('zone', r.get(k)) for k in (
                  'origin_id', 'destination_id', 'contains_id')))
  if rules != m.rules:
    x.fail('%s:fare-rules' % tag, 'got %r, expected %r' % (
        sorted(rules - m.rules), sorted(m.rules - rules)))
  trs = {}
  for t in o['transfers.txt']:
    t = dict(t)
    k = (tr('stop', t.get('from_stop_id')), tr('stop', t.get('to_stop_id')))
    if k in trs:
      x.fail('%s:transfer-twice' % tag, repr(k))
    trs[k] = (t['transfer_type'], t.get('min_transfer_time'))
  if trs != m.transfers:
    x.fail('%s:transfers' % tag, 'got %r, expected %r' % (trs, m.transfers))


def refs_ok(kind, got, want, names, bind):
  """The references of got are those of want (binding zones and blocks)."""
  def same(k, i, n):
    if not i or not n:
      return not i and not n
    if k in ('zone', 'block'):
      return names[k].bind(i, n) if bind else True
    return names[k].of_id.get(i) == n
  g = lambda c: got.get(c)
  w = lambda c: want.get(c)
  if kind == 'route':
    return same('agency', g('agency_id') or u'', w('agency_id')) or (
        not g('agency_id') and names['agency'].of_id.get(u'') ==
        w('agency_id'))
  if kind == 'stop':
    return same('zone', g('zone_id'), w('zone_id')) and (
        not bind or same('stop', g('parent_station'), w('parent_station')))
  if kind == 'trip':
    if len(got['stop_times']) != len(want['stop_times']):
      return False
    return (same('route', g('route_id'), w('route_id')) and
            same('service', g('service_id'), w('service_id')) and
            same('shape', g('shape_id'), w('shape_id')) and
            same('block', g('block_id'), w('block_id')) and
            all(p[:2] == q[:2] and p[3:] == q[3:] and
                same('stop', p[2], q[2])
                for p, q in zip(got['stop_times'], want['stop_times'])))
  return True


def match(names, ids, hit, pref):
  """Bijection names -> ids with hit(); pref() first."""
  if len(names) != len(ids):
    return None
  cand = dict((n, sorted([i for i in ids if hit(i, n)],
                         key=lambda i: pref(n, i), reverse=True)) for n in names)
  order = sorted(names, key=lambda n: len(cand[n]))
  def go(k, used):
    if k == len(order):
      return {}
    for i in cand[order[k]]:
      if i not in used:
        r = go(k + 1, used | set([i]))
        if r is not None:
          r[order[k]] = i
          return r
    return None
  return go(0, frozenset())


def errors(rec):
  return [e for e in rec.problems if e.IsError()]


def merged_of(a, b, tune=None):
  pr = merge.MergeProblemReporter(Recorder())
  rec = pr._accumulator if hasattr(pr, '_accumulator') else None
  out = transitfeed.Schedule(memory_db=True, problem_reporter=reporter()[0])
  fm = merge.FeedMerger(a, b, out, pr)
  fm.AddDefaultMergers()
  if tune:
    tune(fm)
  return fm, fm.MergeSchedules()


GETTERS = [('agency', 'agency.txt', lambda s: s.GetAgencyList(), 'agency_id'),
           ('stop', 'stops.txt', lambda s: s.GetStopList(), 'stop_id'),
           ('route', 'routes.txt', lambda s: s.GetRouteList(), 'route_id'),
           ('service', 'calendar', lambda s: s.GetServicePeriodList(),
            'service_id'),
           ('fare', 'fare_attributes.txt', lambda s: s.GetFareAttributeList(),
            'fare_id'),
           ('shape', 'shapes.txt', lambda s: s.GetShapeList(), 'shape_id'),
           ('trip', 'trips.txt', lambda s: s.GetTripList(), 'trip_id')]


def by_id(s, kind):
  for k, _, get, col in GETTERS:
    if k == kind:
      return dict((text(getattr(e, col)), e) for e in get(s))


def check_maps(x, m, fm):
  """a_merge_map and b_merge_map lead to the entities of the merged feed."""
  out = fm.GetMergedSchedule()
  for kind, part, get, col in GETTERS:
    inside = by_id(out, kind)
    for side, sched, mp in (('a', fm.a_schedule, fm.a_merge_map),
                            ('b', fm.b_schedule, fm.b_merge_map)):
      seen = {}
      for e in get(sched):
        i = text(getattr(e, col))
        if e not in mp:
          x.fail('map:%s' % kind, '%s %r is not mapped' % (side, i))
          continue
        j = text(getattr(mp[e], col))
        if inside.get(j) is not mp[e]:
          x.fail('map:%s' % kind, '%s %r leads to %r, not in the feed' % (
              side, i, j))
        want = m.fixed[kind].get(m.sym[kind].get((side, i)))
        if want is not None and j != want:
          x.fail('map:%s' % kind, '%s %r leads to %r' % (side, i, j))
        if j in seen:
          x.fail('combined:%s' % kind, '%s: %r and %r are one' % (
              side, i, seen[j]))
        seen[j] = i


def check_routes(x, s):
  for r in s.GetRouteList():
    got = sorted(text(t.trip_id) for t in r.trips)
    want = sorted(text(t.trip_id) for t in s.GetTripList()
                  if text(t.route_id) == text(r.route_id))
    x.eq(got, want, 'route-trips', 'trips of %r' % r.route_id)


def pair(x, case, dist=None):
  try:
    fa, fb = feeds_of(case)
  except Skip:
    x.outcome('edits exclude each other')
    return None
  a, ra = load(fa)
  b, rb = load(fb)
  if errors(ra) or errors(rb):
    x.outcome('not loadable')
    return None
  return fa, fb, a, b


def run_pairs(x, case):
  p = pair(x, case)
  if p is None:
    return
  fa, fb, a, b = p
  deep = len(case) < 2
  before = deep and (observe(a), observe(b))
  m = Model(fa, fb).run()
  fm, ok = merged_of(a, b)
  x.step()
  if not x.check(ok, 'refused', 'MergeSchedules() is false'):
    return
  s = fm.GetMergedSchedule()
  o = observe(s)
  hint = witness(m, fm)
  compare(x, m, o, 'merged', hint)
  check_maps(x, m, fm)
  check_routes(x, s)
  x.state([sorted(m.combined.items()), sorted(m.sym['zone'].items())])
  x.outcome('combined %d' % sum(len(v) for v in m.combined.values()))
  if deep:
    x.check((observe(a), observe(b)) == before, 'inputs-changed',
            'the merge changed one of its inputs')
    f = tempfile.mktemp()
    try:
      s.WriteGoogleTransitFeed(f)
      s2, r2 = load(open(f, 'rb').read())
    finally:
      if os.path.exists(f):
        os.remove(f)
    x.step()
    compare(x, m, observe(s2), 'file', hint)
    bad = [e for e in r2.keys() if e[1] == 'E']
    x.check(not bad, 'file-errors', repr(bad))


# --- distances --------------------------------------------------------------
def gen_dist(tier):
  steps = [0, 1, 4, 9, 11, 19, 21, 49, 51, 120]
  for limit in (None, 0, 5, 10, 20, 50):
    for d in steps:
      for what in ('stop', 'first', 'last', 'station', 'lon'):
        yield (limit, d, what)


def run_dist(x, case):
  limit, d, what = case
  fa, fb = start('a'), start('b')
  if what == 'stop':
    move('S2', d)(fb)
  elif what == 'station':
    move('ST', -d)(fb)
  elif what == 'lon':
    r = row(fb, 'stops.txt', 'stop_id', 'S3')
    r['stop_lon'] = u'%.8f' % (float(r['stop_lon']) + d * M / 0.8077)
  else:
    point('SH1', 0 if what == 'first' else -1, d)(fb)
  a, ra = load(fa)
  b, rb = load(fb)
  if errors(ra) or errors(rb):
    x.outcome('not loadable')
    return
  def tune(fm):
    if limit is not None:
      fm.GetMerger(merge.StopMerger).SetLargestStopDistance(float(limit))
      fm.GetMerger(merge.ShapeMerger).SetLargestShapeDistance(float(limit))
  lim = 10.0 if limit is None else limit + 0.01
  m = Model(fa, fb, lim, lim).run()
  fm, ok = merged_of(a, b, tune)
  x.step()
  if x.check(ok, 'refused', 'MergeSchedules() is false'):
    compare(x, m, observe(fm.GetMergedSchedule()), 'merged')
    x.state(sorted(m.combined.items()))
    x.outcome('combined' if len(m.combined['stop']) == 4 and
              len(m.combined['shape']) == 2 else 'kept apart')


# --- merging more than two feeds, and a feed with itself ---------------------
def gen_chain(tier):
  pick = [(), ('stop-15m',), ('zone-all-apart',), ('trip-ids',),
          ('route-short',), ('agency-blank',), ('stop-lone-zone',),
          ('fare-price',), ('shape-first',)]
  for n in (2, 3):
    for c in itertools.product(pick, repeat=n):
      if n == 2 or tier != 'quick' or len(set(c)) < 3:
        yield c


def run_chain(x, case):
  """Feeds of successive years are merged one after the other through files."""
  cur = None
  for k, devs in enumerate(case):
    f = base()
    year(f, 2010 + k)
    for n in devs:
      FUNC[n](f)
    f = as_feed(f)
    if cur is None:
      cur = f
      continue
    a, ra = load(cur)
    b, rb = load(f)
    if errors(ra) or errors(rb):
      x.fail('chain-errors', 'round %d: %r' % (k, [e for e in ra.keys()
                                                   if e[1] == 'E']))
      return
    m = Model(cur, f).run()
    fm, ok = merged_of(a, b)
    x.step()
    if not x.check(ok, 'refused', 'MergeSchedules() is false'):
      return
    compare(x, m, observe(fm.GetMergedSchedule()), 'round%d' % k)
    path = tempfile.mktemp()
    try:
      fm.GetMergedSchedule().WriteGoogleTransitFeed(path)
      cur = as_feed(open(path, 'rb').read())
    finally:
      if os.path.exists(path):
        os.remove(path)
  x.state(sorted((k, len(t.rows)) for k, t in cur.tables.items()))
  x.outcome('feeds %d' % len(case))


def as_feed(f):
  """A Feed with the tables of zip bytes (plain reading, no transitfeed)."""
  import csv
  import StringIO
  from feeds import Table
  out = Feed()
  data = unzip(f.zip() if isinstance(f, Feed) else f)
  for name in sorted(data):
    rows = list(csv.reader(StringIO.StringIO(data[name])))
    out.tables[name] = Table([U(c) for c in rows[0]],
                             [[U(v) for v in r] for r in rows[1:]])
  return out


# --- the program ------------------------------------------------------------
def gen_runs(tier):
  for devs in [(), (('b', 'stop-15m'),), (('b', 'agency-name'),),
               (('a', 'trip-ids'),), (('b', 'shape-first'),),
               (('a', 'transfer-one'),), (('b', 'fare-price'),)]:
    for opts in [(), ('--largest_stop_distance=20',),
                 ('--largest_shape_distance=20.5',), ('-m',),
                 ('--largest_stop_distance=20', '--largest_shape_distance=20')]:
      yield (devs, opts)


def run_runs(x, case):
  devs, opts = case
  fa, fb = feeds_of(devs)
  d = tempfile.mkdtemp()
  try:
    for n, f in (('a.zip', fa), ('b.zip', fb)):
      h = open(os.path.join(d, n), 'wb')
      h.write(f.zip())
      h.close()
    argv, cwd = sys.argv, os.getcwd()
    sys.argv = ['merge.py', '--no_browser', '--latest_version=' +
                transitfeed.__version__, '--html_output_path=' +
                os.path.join(d, 'r.html')] + list(opts) + [
                    os.path.join(d, n) for n in ('a.zip', 'b.zip', 'm.zip')]
    try:
      merge.main()
    finally:
      sys.argv = argv
    x.step()
    stop_m = shape_m = 10.0
    for o in opts:
      if o.startswith('--largest_stop'):
        stop_m = 20
      if o.startswith('--largest_shape'):
        shape_m = 20
    m = Model(fa, fb, stop_m, shape_m).run()
    x.check(os.path.exists(os.path.join(d, 'r.html')), 'no-report', '')
    s, r = load(open(os.path.join(d, 'm.zip'), 'rb').read())
    compare(x, m, observe(s), 'run')
    bad = [e for e in r.keys() if e[1] == 'E']
    x.check(not bad, 'file-errors', repr(bad))
    x.state(sorted(m.combined.items()))
    x.outcome('merged')
  finally:
    shutil.rmtree(d)


SCENARIOS = [
    Scenario('pairs', gen_pairs, run_pairs,
             bound='pairs of feeds at most two deviations from the pair of '
                   'base feeds (%d deviations on either side)' % len(DEVS)),
    Scenario('distances', gen_dist, run_dist,
             bound='6 limits x 10 distances x 5 places'),
    Scenario('chain', gen_chain, run_chain,
             bound='2 and 3 feeds merged one after the other'),
    Scenario('runs', gen_runs, run_runs, bound='7 feeds x 5 command lines'),
]
