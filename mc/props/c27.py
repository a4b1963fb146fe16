# -*- coding: utf-8 -*-
"""C27: building a schedule through the API keeps it consistent at every step.

Every word of builder calls is executed on a fresh schedule and on a model that
keeps, per table, which object is listed under which identifier.  After the
word everything that can be asked of the schedule is compared with the model;
all shorter words are cases of their own, so every step is compared."""
import itertools
import warnings

import transitfeed
import feeds
from core import Scenario

warnings.simplefilter('ignore')

URL, TZ = 'http://x.example/', 'America/New_York'
TABLES = ['agency', 'stops', 'routes', 'trips', 'services', 'fares', 'shapes']


class M(object):
  """What the schedule must hold."""

  def __init__(self):
    self.t = dict((k, {}) for k in TABLES)
    self.default_agency = None
    self.default_service = None
    self.zones = set()
    self.rules = {}       # fare_id -> objects
    self.transfers = []   # (key, object)
    self.feed_info = None
    self.trips_of = {}    # route_id -> objects
    self.expect = []      # problems of the last call
    self.columns = {}     # table -> set of attribute names
    self.new = None

  def agency_default(self):
    a = self.t['agency']
    if self.default_agency is None and len(a) == 1:
      self.default_agency = list(a.values())[0]
    return self.default_agency

  def service_default(self):
    a = self.t['services']
    if self.default_service is None and len(a) == 1:
      self.default_service = list(a.values())[0]
    return self.default_service


class Run(object):
  def __init__(self, x):
    self.x = x
    self.p, self.rec = feeds.reporter()
    self.s = transitfeed.Schedule(problem_reporter=self.p)
    self.m = M()
    self.given = None

  # -- helpers
  def kw(self):
    return {'problem_reporter': self.given} if self.given else {}

  def put(self, table, key, obj, dupcol):
    """Model of adding obj; True if it is added."""
    if key in self.m.t[table]:
      self.m.expect.append(('DuplicateID', 'E', dupcol, feeds.txt(key)))
      return False
    self.m.t[table][key] = obj
    return True

  def fresh(self, table, key):
    self.x.check(isinstance(key, basestring) and key != '' and
                 key not in self.m.t[table], 'automatic-id-not-new',
                 '%s %r among %r' % (table, key, list(self.m.t[table])))

  def invalid(self, col, value, t='E'):
    self.m.expect.append(('InvalidValue', t, col, feeds.txt(value)))

  # -- agencies
  def agency(self, aid):
    a = self.s.AddAgency('N', URL, TZ, aid)
    self.put('agency', aid, a, 'agency_id')
    self.x.check(a is not None and a.agency_id == aid and a.agency_name == 'N',
                 'agency-returned', repr(a))

  def agency_object(self, aid, validate=False, url=URL, extra=None):
    d = {'agency_name': 'N', 'agency_url': url, 'agency_timezone': TZ,
         'agency_id': aid}
    if extra:
      d[extra] = 'x'
    a = transitfeed.Agency(field_dict=d)
    self.s.AddAgencyObject(a, validate=validate, **self.kw())
    if self.put('agency', aid, a, 'agency_id') and validate and url != URL:
      self.invalid('agency_url', url)

  def ensure_agency(self, real):
    """A new default was made by the schedule: learn which."""
    if self.m.agency_default() is None and not self.m.t['agency']:
      new = [a for a in self.s.GetAgencyList()]
      self.x.check(len(new) == 1, 'default-agency-not-made', repr(new))
      if new:
        self.fresh('agency', new[0].agency_id)
        self.m.t['agency'][new[0].agency_id] = new[0]
        self.m.default_agency = new[0]
    if real is not Ellipsis:
      self.x.check(real is self.m.agency_default(), 'default-agency',
                   '%r is not %r' % (real, self.m.agency_default()))

  def new_default_agency(self, aid=None):
    if aid is not None and aid in self.m.t['agency']:
      return
    kw = {} if aid is None else {'agency_id': aid, 'agency_name': 'C'}
    a = self.s.NewDefaultAgency(**kw)
    if aid is None:
      self.fresh('agency', a.agency_id)
    else:
      self.x.eq(a.agency_id, aid, 'new-default-agency-id')
    self.put('agency', a.agency_id, a, 'agency_id')
    self.m.default_agency = a

  def set_default_agency_new(self):
    if 'D' in self.m.t['agency']:
      return
    a = transitfeed.Agency('D', URL, TZ, 'D')
    self.s.SetDefaultAgency(a)
    self.put('agency', 'D', a, 'agency_id')
    self.m.default_agency = a

  def set_default_agency_bad(self):
    if 'V' in self.m.t['agency']:
      return
    a = transitfeed.Agency('V', 'nourl', TZ, 'V')
    self.s.SetDefaultAgency(a)
    self.put('agency', 'V', a, 'agency_id')
    self.invalid('agency_url', 'nourl')
    self.m.default_agency = a

  def set_default_agency_existing(self):
    a = self.m.t['agency'].get('B')
    if a is not None:
      self.s.SetDefaultAgency(a)
      self.m.default_agency = a

  def get_default_agency(self):
    self.ensure_agency(self.s.GetDefaultAgency())

  # -- stops
  def stop(self, sid):
    o = self.s.AddStop(1, 2, 'n', sid)
    if sid is None:
      self.fresh('stops', o.stop_id)
      sid = o.stop_id
    self.x.check(o.stop_id == sid and o.stop_lat == 1 and o.stop_lon == 2 and
                 o.stop_name == 'n', 'stop-returned', repr(o))
    self.put('stops', sid, o, 'stop_id')

  def stop_object(self, sid, zone=None, extra=None):
    d = {'stop_id': sid, 'stop_name': 'n', 'stop_lat': 1.0, 'stop_lon': 2.0}
    if zone:
      d['zone_id'] = zone
    if extra:
      d[extra] = 'x'
    o = transitfeed.Stop(field_dict=d)
    self.s.AddStopObject(o, **self.kw())
    if sid and self.put('stops', sid, o, 'stop_id') and zone:
      self.m.zones.add(zone)

  # -- routes
  def ref_agency(self, aid):
    a = self.m.t['agency']
    return aid in a or (not aid and len(a) == 1)

  def route(self, rid):
    made = rid is None
    o = self.s.AddRoute('1', 'Long', 'Bus', rid)
    self.ensure_agency(Ellipsis)
    if made:
      self.fresh('routes', o.route_id)
      rid = o.route_id
    d = self.m.agency_default()
    want = d.agency_id if d is not None else None
    self.x.check(o.route_id == rid and o.route_short_name == '1' and
                 o.route_long_name == 'Long' and o.route_type == 3 and
                 o.agency_id == want, 'route-returned',
                 lambda: '%r agency %r' % (o, want))
    if rid in self.m.t['routes']:
      self.put('routes', rid, o, 'route_id')
    elif not self.ref_agency(want):
      self.invalid('agency_id', want)
    else:
      self.put('routes', rid, o, 'route_id')

  def route_object(self, rid, aid, extra=None):
    d = {'route_id': rid, 'route_short_name': '1', 'route_type': 3}
    if aid is not None:
      d['agency_id'] = aid
    if extra:
      d[extra] = 'x'
    o = transitfeed.Route(field_dict=d)
    self.s.AddRouteObject(o, **self.kw())
    if rid in self.m.t['routes'] or self.ref_agency(aid):
      self.put('routes', rid, o, 'route_id')
    else:
      self.invalid('agency_id', aid)

  # -- trips
  def ensure_service(self, real):
    if self.m.service_default() is None and not self.m.t['services']:
      new = list(self.s.GetServicePeriodList())
      self.x.check(len(new) == 1, 'default-service-not-made', repr(new))
      if new:
        self.fresh('services', new[0].service_id)
        self.m.t['services'][new[0].service_id] = new[0]
        self.m.default_service = new[0]
    if real is not Ellipsis:
      self.x.check(real is self.m.service_default(), 'default-service',
                   '%r is not %r' % (real, self.m.service_default()))

  def add_trip(self, tid, service=None, pass_schedule=False):
    routes = self.m.t['routes']
    if not routes:
      return
    rid = 'r' if 'r' in routes else sorted(routes)[0]
    route = routes[rid]
    sp = None
    if service is not None:
      sp = self.m.t['services'].get(service)
      if sp is None:
        return
    o = route.AddTrip(self.s if pass_schedule else None, headsign='h',
                      service_period=sp, trip_id=tid)
    if sp is None:
      self.ensure_service(Ellipsis)
      sp = self.m.service_default()
    if tid is None:
      self.fresh('trips', o.trip_id)
      tid = o.trip_id
    self.x.check(o.trip_id == tid and o.route_id == rid and
                 o.trip_headsign == 'h' and
                 o.service_id == (sp.service_id if sp is not None else None),
                 'trip-returned', lambda: '%r service %r' % (o, sp))
    if self.put('trips', tid, o, 'trip_id'):
      self.m.trips_of.setdefault(rid, []).append(o)

  def trip_object(self, tid, rid, sid, validate=False, extra=None):
    d = {'trip_id': tid, 'route_id': rid, 'service_id': sid}
    if extra:
      d[extra] = 'x'
    if rid in ('r', 'q') and rid not in self.m.t['routes']:
      return  # trips come after their routes
    o = transitfeed.Trip(field_dict=d)
    self.s.AddTripObject(o, validate=validate, **self.kw())
    if self.put('trips', tid, o, 'trip_id'):
      if rid in self.m.t['routes']:
        self.m.trips_of.setdefault(rid, []).append(o)
      if validate:
        if rid not in self.m.t['routes']:
          self.invalid('route_id', rid)
        if sid not in self.m.t['services']:
          self.invalid('service_id', sid)

  # -- service periods
  def period(self, sid, valid=True):
    sp = transitfeed.ServicePeriod(sid)
    if valid:
      sp.SetStartDate('20260101')
      sp.SetEndDate('20261231')
      sp.SetWeekdayService(True)
    return sp

  def service(self, sid, validate=True):
    sp = self.period(sid)
    self.s.AddServicePeriodObject(sp, validate=validate, **self.kw())
    self.put('services', sid, sp, 'service_id')

  def new_default_service(self):
    sp = self.s.NewDefaultServicePeriod()
    self.fresh('services', sp.service_id)
    self.put('services', sp.service_id, sp, 'service_id')
    self.m.default_service = sp

  def set_default_service(self, sid):
    old = self.m.t['services'].get(sid)
    sp = old or self.period(sid)
    self.s.SetDefaultServicePeriod(sp)
    if old is None:
      self.put('services', sid, sp, 'service_id')
    self.m.default_service = sp

  def get_default_service(self):
    self.ensure_service(self.s.GetDefaultServicePeriod())

  # -- fares
  def fare(self, fid, old_name=False):
    o = transitfeed.FareAttribute(fid, '1.5', 'USD', '0', '')
    (self.s.AddFareObject if old_name else self.s.AddFareAttributeObject)(
        o, **self.kw())
    self.put('fares', fid, o, 'fare_id')

  def rule(self, fid, **kw):
    o = transitfeed.FareRule(fid, **kw)
    self.s.AddFareRuleObject(o, **self.kw())
    if not fid:
      self.m.expect.append(('MissingValue', 'E', 'fare_id', None))
      return
    if kw.get('route_id') and kw['route_id'] not in self.m.t['routes']:
      self.invalid('route_id', kw['route_id'])
    for c in ('origin_id', 'destination_id', 'contains_id'):
      if kw.get(c) and kw[c] not in self.m.zones:
        self.invalid(c, kw[c])
    if fid in self.m.t['fares']:
      self.m.rules.setdefault(fid, []).append(o)
    else:
      self.invalid('fare_id', fid)

  # -- the rest
  def shape(self, sid):
    o = transitfeed.Shape(sid)
    o.AddPoint(1, 2, 0)
    o.AddPoint(1, 3, 1)
    self.s.AddShapeObject(o, **self.kw())
    self.put('shapes', sid, o, 'shape_id')

  def transfer(self, a, b, extra=None):
    d = {'from_stop_id': a, 'to_stop_id': b}
    if extra:
      d[extra] = 'x'
    o = transitfeed.Transfer(field_dict=d)
    self.s.AddTransferObject(o, **self.kw())
    if (a, b) in [k for k, _ in self.m.transfers]:
      self.m.expect.append(('DuplicateID', 'W', '(from_stop_id, to_stop_id)',
                            '(%s, %s)' % (a, b)))
    self.m.transfers.append(((a, b), o))

  def transfer_by_constructor(self):
    o = transitfeed.Transfer(schedule=self.s, from_stop_id='s', to_stop_id='1',
                             transfer_type='2', min_transfer_time='60')
    if ('s', '1') in [k for k, _ in self.m.transfers]:
      self.m.expect.append(('DuplicateID', 'W', '(from_stop_id, to_stop_id)',
                            '(s, 1)'))
    self.m.transfers.append((('s', '1'), o))

  def feed_info(self, name, url=URL, validate=False, extra=None):
    d = {'feed_publisher_name': name, 'feed_publisher_url': url,
         'feed_lang': 'en'}
    if extra:
      d[extra] = '20260101'
    o = transitfeed.FeedInfo(field_dict=d)
    self.s.AddFeedInfoObject(o, validate=validate, **self.kw())
    if validate and url != URL:
      self.invalid('feed_publisher_url', url)
    self.m.feed_info = o

  def attribute(self, table, name, last=False, value='v'):
    if table == 'transfers':
      os = [o for _, o in self.m.transfers]
    elif table == 'feed_info':
      os = [self.m.feed_info] if self.m.feed_info is not None else []
    else:
      t = self.m.t[table]
      os = [t[k] for k in sorted(t, key=lambda k: (k is None, k))]
    if os:
      o = os[-1 if last else 0]
      setattr(o, name, value)
      self.x.check(getattr(o, name) == value and o[name] == value,
                   'attribute-kept', '%s.%s is %r' % (table, name, o[name]))

  # -- observation
  def columns(self):
    obs = {}
    for table, os in (('agency', self.m.t['agency'].values()),
                      ('stops', self.m.t['stops'].values()),
                      ('routes', self.m.t['routes'].values()),
                      ('trips', self.m.t['trips'].values()),
                      ('transfers', [o for _, o in self.m.transfers]),
                      ('feed_info', [self.m.feed_info]
                       if self.m.feed_info is not None else [])):
      need = set()
      for o in os:
        need |= set(k for k in vars(o) if not k.startswith('_'))
      if os:
        cols = list(self.s.GetTableColumns(table))
        self.x.check(need <= set(cols), 'columns-miss-attribute', lambda:
                     '%s: %r not in %r' % (table, sorted(need - set(cols)),
                                           cols))
        self.x.check(len(set(cols)) == len(cols), 'columns-doubled',
                     lambda: '%s: %r' % (table, cols))
        obs[table] = sorted(cols)
    return obs

  def observe(self):
    x, s, m = self.x, self.s, self.m
    got = self.rec.keys()
    norm = lambda ks: sorted(tuple(repr(v).replace("u'", "'") for v in k)
                             for k in ks)
    x.eq(norm(got), norm(m.expect), 'problems', 'reported by the last call')

    kinds = [('agency', s.GetAgencyList, s.GetAgency, None),
             ('stops', s.GetStopList, s.GetStop, 'stops'),
             ('routes', s.GetRouteList, s.GetRoute, 'routes'),
             ('trips', s.GetTripList, s.GetTrip, 'trips'),
             ('services', s.GetServicePeriodList, s.GetServicePeriod,
              'service_periods'),
             ('fares', s.GetFareAttributeList, s.GetFareAttribute, 'fares'),
             ('shapes', s.GetShapeList, s.GetShape, None)]
    obs = {}
    for table, lst, get, attr in kinds:
      want = m.t[table]
      listed = list(lst())
      x.check(len(listed) == len(want) and
              set(map(id, listed)) == set(map(id, want.values())),
              'list-of-' + table, lambda: '%r, want %r' % (listed, want))
      for k, o in want.items():
        try:
          g = get(k)
        except KeyError:
          x.fail('get-' + table, '%r not found' % (k,))
        else:
          x.check(g is o, 'get-' + table, lambda: '%r: %r is not %r' %
                  (k, g, o))
      try:
        get('nosuch')
        x.fail('get-' + table, 'unknown id found')
      except KeyError:
        pass
      if attr:
        x.eq(sorted(getattr(s, attr)), sorted(want), 'dict-of-' + table)
      obs[table] = [feeds.txt(k) if not str(k).isdigit() else '#'
                    for k in sorted(want, key=lambda k: (k is None, k))]
    x.check(list(map(id, s.GetFareList())) ==
            list(map(id, s.GetFareAttributeList())), 'get-fares', 'GetFareList')
    x.eq(sorted(s.GetFareZones()), sorted(m.zones), 'fare-zones')
    for fid, o in m.t['fares'].items():
      x.check(list(map(id, o.GetFareRuleList())) ==
              list(map(id, m.rules.get(fid, []))), 'rules-of-fare',
              lambda: '%r: %r want %r' % (fid, o.GetFareRuleList(),
                                          m.rules.get(fid)))
    for rid, o in m.t['routes'].items():
      x.check(list(map(id, o.trips)) == list(map(id, m.trips_of.get(rid, []))),
              'trips-of-route', lambda: '%r: %r want %r' %
              (rid, o.trips, m.trips_of.get(rid)))
    listed = s.GetTransferList()
    x.check(len(listed) == len(m.transfers) and set(map(id, listed)) ==
            set(id(o) for _, o in m.transfers), 'list-of-transfers', lambda:
            '%r want %r' % (listed, m.transfers))
    x.check(len(list(s.GetTransferIter())) == len(m.transfers),
            'list-of-transfers', 'GetTransferIter')
    x.check(s.feed_info is m.feed_info, 'feed-info', lambda: repr(s.feed_info))
    obs['transfers'] = [k for k, _ in m.transfers]
    obs['columns'] = self.columns()
    obs['zones'] = sorted(m.zones)
    # the defaults last: asking for them may make them
    m.expect = []
    self.rec.clear()
    for _ in range(2):
      self.ensure_agency(s.GetDefaultAgency())
      self.ensure_service(s.GetDefaultServicePeriod())
    x.eq(self.rec.keys(), [], 'problems', 'of asking for defaults')
    x.check(set(map(id, s.GetAgencyList())) ==
            set(map(id, m.t['agency'].values())), 'list-of-agency',
            'after asking for the default')
    x.check(set(map(id, s.GetServicePeriodList())) ==
            set(map(id, m.t['services'].values())), 'list-of-services',
            'after asking for the default')
    obs['problems'] = norm(got)
    obs['default'] = [feeds.txt(m.default_agency.agency_id)
                      if m.default_agency is not None else '-',
                      m.default_service is not None]
    return obs


OPS = {
    # agencies
    'aA': lambda r: r.agency('A'),
    'aB': lambda r: r.agency('B'),
    'a1': lambda r: r.agency('1'),
    'aNone': lambda r: r.agency(None),
    'aoA': lambda r: r.agency_object('A', extra='agency_color'),
    'aoB': lambda r: r.agency_object('B', validate=True),
    'aoBad': lambda r: r.agency_object('X', validate=True, url='nourl'),
    'aNew': lambda r: r.new_default_agency(),
    'aNewC': lambda r: r.new_default_agency('C'),
    'aSetD': lambda r: r.set_default_agency_new(),
    'aSetV': lambda r: r.set_default_agency_bad(),
    'aSetB': lambda r: r.set_default_agency_existing(),
    'aGet': lambda r: r.get_default_agency(),
    # stops
    's+': lambda r: r.stop(None),
    's0': lambda r: r.stop('0'),
    's1': lambda r: r.stop('1'),
    'ss': lambda r: r.stop('s'),
    'so1': lambda r: r.stop_object('1', zone='z', extra='stop_custom'),
    'sos': lambda r: r.stop_object('s', zone='y'),
    'so': lambda r: r.stop_object('', zone='x'),
    # routes
    'r+': lambda r: r.route(None),
    'rr': lambda r: r.route('r'),
    'r1': lambda r: r.route('1'),
    'rorA': lambda r: r.route_object('r', 'A', extra='route_custom'),
    'roq': lambda r: r.route_object('q', ''),
    'rop': lambda r: r.route_object('p', None),
    'roX': lambda r: r.route_object('x', 'nosuch'),
    # trips
    't+': lambda r: r.add_trip(None),
    't1': lambda r: r.add_trip('1'),
    'tt': lambda r: r.add_trip('t', pass_schedule=True),
    't+w': lambda r: r.add_trip(None, service='w'),
    'toq': lambda r: r.trip_object('t', 'q', 'w'),
    'toyq': lambda r: r.trip_object('y', 'q', 'w'),
    'tor': lambda r: r.trip_object('t', 'r', 'w', extra='trip_custom'),
    'tov': lambda r: r.trip_object('v', 'r', 'w', validate=True),
    'tox': lambda r: r.trip_object('x', 'nosuch', 'nosuch', validate=True),
    'toy': lambda r: r.trip_object('y', 'nosuch', 'w'),
    # services
    'pw': lambda r: r.service('w'),
    'p1': lambda r: r.service('1', validate=False),
    'pNew': lambda r: r.new_default_service(),
    'pSetw': lambda r: r.set_default_service('w'),
    'pSetd': lambda r: r.set_default_service('d'),
    'pGet': lambda r: r.get_default_service(),
    # fares
    'ff': lambda r: r.fare('f'),
    'fg': lambda r: r.fare('g', old_name=True),
    'frf': lambda r: r.rule('f'),
    'frfr': lambda r: r.rule('f', route_id='r'),
    'frfz': lambda r: r.rule('f', origin_id='z', destination_id='y',
                             contains_id='nozone'),
    'frg': lambda r: r.rule('g', route_id='nosuch'),
    'fr': lambda r: r.rule(''),
    # others
    'hh': lambda r: r.shape('h'),
    'hi': lambda r: r.shape('i'),
    'xs1': lambda r: r.transfer('s', '1'),
    'x1s': lambda r: r.transfer('1', 's', extra='transfer_custom'),
    'xc': lambda r: r.transfer_by_constructor(),
    'ia': lambda r: r.feed_info('a'),
    'ib': lambda r: r.feed_info('b', extra='feed_start_date'),
    'iv': lambda r: r.feed_info('v', url='nourl', validate=True),
    # attributes set later
    '.a': lambda r: r.attribute('agency', 'custom'),
    '.s': lambda r: r.attribute('stops', 'custom'),
    '.sl': lambda r: r.attribute('stops', 'stop_desc', last=True),
    '.r': lambda r: r.attribute('routes', 'route_url', last=True),
    '.t': lambda r: r.attribute('trips', 'block_id'),
    '.tc': lambda r: r.attribute('trips', 'custom', last=True),
    '.x': lambda r: r.attribute('transfers', 'custom', last=True),
    '.i': lambda r: r.attribute('feed_info', 'feed_version'),
}

# words of this alphabet go one deeper
CORE = ['aA', 'aB', 'aNone', 'aoA', 'aNew', 'aNewC', 'aSetD', 'aSetB', 'aGet',
        's+', 's1', 'so1', 'so', 'r+', 'rr', 'r1', 'rorA', 'roq', 't+', 't1',
        'tt', 't+w', 'tov', 'pw', 'p1', 'pNew', 'pSetd', 'pGet', 'ff', 'fg',
        'frf', 'frfr', 'frfz', 'hh', 'xs1', 'x1s', 'ia', 'ib', '.a', '.s',
        '.r', '.t', '.tc', '.x', '.i']
DEEP = ['aA', 'aB', 'aNew', 'aSetB', 's+', 's1', 'sos', 'r+', 'r1', 'rorA',
        'roq', 't+', 't1', 't+w', 'tov', 'pw', 'p1', 'pSetd', 'ff', 'frfz',
        '.s', '.tc']


def gen_words(tier):
  full, core = (2, 3) if tier == 'quick' else (3, 3)
  names = sorted(OPS)
  for n in range(full + 1):
    for w in itertools.product(names, repeat=n):
      yield list(w)
  for n in range(full + 1, core + 1):
    for w in itertools.product(CORE, repeat=n):
      yield list(w)
  if tier != 'quick':
    for w in itertools.product(DEEP, repeat=4):
      yield list(w)


# schedules to go on from
GROWN = [['aA', 'rorA', 'roq', 'pw', 'so1', 'sos', 'tt', 'ff', 'frfr', 'hh',
          'xs1', 'ia'],
         ['aNew', 'r+', 'rr', 't+', 'toy', 'pNew', 's+', 'fg', 'frf', 'xc',
          'roq']]


def gen_grown(tier):
  names = sorted(OPS)
  for p in GROWN:
    for n in range(3 if tier == 'quick' else 4):
      for w in itertools.product(names if n < 3 else CORE, repeat=n):
        yield p + list(w)


def run_words(x, case):
  r = Run(x)
  for name in case:
    r.rec.clear()
    r.m.expect = []
    OPS[name](r)
    x.step()
  obs = r.observe()
  x.state(obs)
  x.outcome('problems' if obs['problems'] else 'quiet')
  return r


# ---- the same with a reporter given to the call -------------------------------
REPORTING = ['aoA', 'aoB', 'aoBad', 'so1', 'sos', 'so', 'rorA', 'roq', 'rop',
             'roX', 'tor', 'tov', 'tox', 'toy', 'pw', 'p1', 'ff', 'fg', 'frf',
             'frfr', 'frfz', 'frg', 'fr', 'hh', 'hi', 'xs1', 'x1s', 'ia', 'ib',
             'iv']


def gen_given(tier):
  names = sorted(OPS)
  for n in range(2 if tier == 'quick' else 3):
    for w in itertools.product(names, repeat=n):
      for o in REPORTING:
        yield list(w) + [o]


def run_given(x, case):
  r = Run(x)
  for name in case[:-1]:
    r.m.expect = []
    OPS[name](r)
    x.step()
  r.rec.clear()
  r.m.expect = []
  given, rec = feeds.reporter()
  r.given = given
  OPS[case[-1]](r)
  x.step()
  x.eq(r.rec.keys(), [], 'own-reporter-used',
       'problems given to the reporter of the schedule')
  r.rec.problems = rec.problems
  x.outcome('problems' if rec.problems else 'quiet')
  x.state(r.observe())


# ---- what is written ----------------------------------------------------------
FILE = {'agency': 'agency.txt', 'stops': 'stops.txt', 'routes': 'routes.txt',
        'trips': 'trips.txt', 'transfers': 'transfers.txt',
        'feed_info': 'feed_info.txt'}
WRITE = ['aA', 'aoA', 'ss', 'so1', 'rr', 'rorA', 'roq', 'tt', 'tor', 'pw',
         'xs1', 'x1s', 'ia', 'ib', '.a', '.s', '.sl', '.r', '.t', '.tc', '.x',
         '.i', 'ff', 'frf', 'hh']


def gen_written(tier):
  for n in range(0, 3 if tier == 'quick' else 4):
    for w in itertools.product(WRITE, repeat=n):
      yield list(w)


def run_written(x, case):
  import csv
  from StringIO import StringIO
  r = Run(x)
  for name in case:
    r.m.expect = []
    OPS[name](r)
    x.step()
  out = StringIO()
  r.s.WriteGoogleTransitFeed(out)
  files = feeds.unzip(out.getvalue())
  m = r.m
  for table, os in (('agency', m.t['agency'].values()),
                    ('stops', m.t['stops'].values()),
                    ('routes', m.t['routes'].values()),
                    ('trips', m.t['trips'].values()),
                    ('transfers', [o for _, o in m.transfers]),
                    ('feed_info', [m.feed_info] if m.feed_info is not None
                     else [])):
    if not os:
      continue
    if not x.check(FILE[table] in files, 'file-missing', FILE[table]):
      continue
    rows = list(csv.reader(StringIO(files[FILE[table]])))
    got = sorted(sorted((c, v) for c, v in zip(rows[0], row) if v)
                 for row in rows[1:])
    want = sorted(sorted((k, str(v)) for k, v in vars(o).items()
                         if not k.startswith('_') and v not in (None, ''))
                  for o in os)
    x.eq(got, want, 'written-' + table)
  x.outcome('written')
  x.state(sorted(files.items()))


SCENARIOS = [
    Scenario('words', gen_words, run_words,
             bound='all words of up to 2 (thorough 3) of 68 builder calls, of '
             'up to 3 of 45, thorough also of 4 of 22'),
    Scenario('grown', gen_grown, run_words,
             bound='all words of up to 2 of 68 calls (thorough also 3 of 45) '
             'after each of two longer histories'),
    Scenario('reporter', gen_given, run_given,
             bound='every call that takes a reporter after every word of up '
             'to 1 (thorough 2) calls'),
    Scenario('written', gen_written, run_written,
             bound='all words of up to 2 (thorough 3) of 25 calls, written '
             'and read back with csv'),
]
