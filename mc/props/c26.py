# -*- coding: utf-8 -*-
"""C26: a factory always resolves names, files and loading order as registered.

Every word of mapping operations on two factories is executed on the real
factories and on a model; both factories and a fresh one are observed after
every word.  Feeds are loaded through factories with every small set of
changes: which files are read, in which order, by which classes, and which are
reported as missing or unknown is compared with the model."""
import itertools

import transitfeed
import extensions.googletransit as ext
from transitfeed import problems as P
import feeds
from core import Scenario

NAMES = ['Agency', 'ServicePeriod', 'FareAttribute', 'FareRule', 'Frequency',
         'FeedInfo', 'Shape', 'ShapePoint', 'Stop', 'StopTime', 'Route',
         'Transfer', 'Trip', 'Schedule', 'Loader']
FILES = {  # required, position, classes
    'agency.txt': (True, 0, ['Agency']),
    'calendar.txt': (False, None, ['ServicePeriod']),
    'calendar_dates.txt': (False, None, ['ServicePeriod']),
    'fare_attributes.txt': (False, 50, ['FareAttribute']),
    'fare_rules.txt': (False, 60, ['FareRule']),
    'feed_info.txt': (False, 100, ['FeedInfo']),
    'frequencies.txt': (False, 70, ['Frequency']),
    'shapes.txt': (False, None, ['Shape', 'ShapePoint']),
    'stops.txt': (True, 10, ['Stop']),
    'stop_times.txt': (True, None, ['StopTime']),
    'routes.txt': (True, 20, ['Route']),
    'transfers.txt': (False, 30, ['Transfer']),
    'trips.txt': (True, 40, ['Trip']),
}


REFUSED = (P.InvalidMapping, P.DuplicateMapping, P.NonexistentMapping)


class C1(object):
  pass


class C2(object):
  pass


CLS = {'C1': C1, 'C2': C2}


class Model(object):
  def __init__(self):
    self.classes = dict((n, getattr(transitfeed, n)) for n in NAMES)
    self.files = dict((f, dict(zip(('required', 'loading_order', 'classes'),
                                   v))) for f, v in FILES.items())

  def copy(self):
    m = Model.__new__(Model)
    m.classes = dict(self.classes)
    m.files = dict((k, dict(v)) for k, v in self.files.items())
    return m

  def do(self, op, arg, dicts):
    """Returns the exceptions one of which must be raised."""
    if op in ('AddClass', 'UpdateClass', 'RemoveClass'):
      n = arg[0]
      if op == 'AddClass':
        if n in self.classes:
          return ['DuplicateMapping']
        self.classes[n] = CLS[arg[1]]
      else:
        if n not in self.classes:
          return ['NonexistentMapping']
        if op == 'UpdateClass':
          self.classes[n] = CLS[arg[1]]
        else:
          del self.classes[n]
      return []
    f = arg[0]
    if op == 'RemoveMapping':
      self.files.pop(f, None)
      return []
    d = dicts[arg[1]]
    if op == 'AddMapping':
      bad = []
      if f in self.files:
        bad.append('DuplicateMapping')
      if not all(k in d for k in ('classes', 'required', 'loading_order')):
        bad.append('InvalidMapping')
      if not bad:
        self.files[f] = dict(d)
      return bad
    if f not in self.files:
      return ['NonexistentMapping']
    self.files[f].update(d)
    return []


DICTS = {
    'a': {'required': False, 'loading_order': 5, 'classes': ['Extra']},
    'b': {'required': True, 'loading_order': 10, 'classes': ['Stop']},
    'c': {'required': True, 'loading_order': None,
          'classes': ['Extra', 'Stop']},
    'no classes': {'required': True, 'loading_order': 0},
    'no required': {'loading_order': 0, 'classes': ['Stop']},
    'no order': {'required': True, 'classes': ['Stop']},
    'u req': {'required': True}, 'u not': {'required': False},
    'u none': {'loading_order': None}, 'u 20': {'loading_order': 20},
    'u 99': {'loading_order': 99}, 'u -1': {'loading_order': -1},
    'u cls': {'classes': ['Extra']}, 'u two': {'classes': ['Stop', 'Extra']},
    'u all': {'required': False, 'loading_order': 30, 'classes': ['Trip']},
}


def ops():
  out = []
  for f in ('x.txt', 'y.txt', 'stops.txt'):
    for d in ('a', 'b', 'c', 'no classes', 'no required', 'no order'):
      out.append(('AddMapping', (f, d)))
  for f in ('x.txt', 'stops.txt', 'shapes.txt'):
    for d in sorted(DICTS):
      if d.startswith('u'):
        out.append(('UpdateMapping', (f, d)))
    out.append(('RemoveMapping', (f,)))
  out.append(('UpdateMapping', ('agency.txt', 'u all')))
  out.append(('RemoveMapping', ('y.txt',)))
  for n in ('Extra', 'Stop'):
    for c in ('C1', 'C2'):
      out.append(('AddClass', (n, c)))
      out.append(('UpdateClass', (n, c)))
    out.append(('RemoveClass', (n,)))
  return out


OPS = ops()
FEW = [i for i, (o, a) in enumerate(OPS) if
       (o == 'AddMapping' and a[0] != 'y.txt' and a[1] in ('a', 'b')) or
       (o == 'UpdateMapping' and a[0] != 'shapes.txt' and
        a[1] in ('u none', 'u 20', 'u cls')) or
       (o == 'RemoveMapping' and a[0] in ('x.txt', 'stops.txt')) or
       (o.endswith('Class') and (len(a) < 2 or a[1] == 'C1'))]


def resolve(f, name):
  try:
    return getattr(f, name)
  except AttributeError:
    return None


def observe(x, f, m, what):
  for n in sorted(set(NAMES) | set(m.classes) | set(['Extra', 'Nothing'])):
    got, want = resolve(f, n), m.classes.get(n)
    if got is not want:
      x.fail('class', '%s: %s is %r, not %r' % (what, n, got, want))
  x.eq(sorted(f.GetKnownFilenames()), sorted(m.files), 'known', what)
  order = f.GetLoadingOrder()
  want = [k for k, v in m.files.items() if v['loading_order'] is not None]
  x.eq(sorted(order), sorted(want), 'loaded', what)
  pos = [m.files[k]['loading_order'] for k in order if k in m.files]
  x.eq(pos, sorted(pos), 'order', what)
  for k in sorted(set(FILES) | set(m.files) | set(['x.txt', 'none.txt'])):
    v = m.files.get(k)
    x.eq(bool(f.IsFileRequired(k)), bool(v and v['required']), 'required',
         '%s: %s' % (what, k))
    try:
      got = f.GetGtfsClassByFileName(k)
    except P.NonStandardMapping:
      got = 'non-standard'
    except (KeyError, AttributeError):
      got = 'error'
    if v is None:
      want = None
    elif len(v['classes']) > 1:
      want = 'non-standard'
    else:
      want = m.classes.get(v['classes'][0], 'error')
    if got is not want and got != want:
      x.fail('file class', '%s: %s is %r, not %r' % (what, k, got, want))


def apply(x, f, m, op, arg, dicts, what):
  want = m.do(op, arg, dicts)
  x.step()
  a = list(arg)
  if op.endswith('Mapping') and len(a) > 1:
    a[1] = dicts[a[1]]
  elif op.endswith('Class') and len(a) > 1:
    a[1] = CLS[a[1]]
  try:
    getattr(f, op)(*a)
    got = None
  except REFUSED as e:
    got = e.__class__.__name__
  x.check(got in want if want else got is None, 'rejected',
          lambda: '%s: %s, expected %s' % (what, got, want))


def gen_words(tier):
  n = len(OPS)
  yield 0, []
  for k in (1, 2) if tier == 'quick' else (1, 2, 3):
    for w in itertools.product(range(2 * n), repeat=k - 1):
      yield 2 * n, list(w)
  k = 3 if tier == 'quick' else 4
  for w in itertools.product(range(2 * len(FEW)), repeat=k - 1):
    if w[0] % 2 == 0:   # The first operation of a word is on the first one.
      yield 2 * len(FEW), list(w)


def run_words(x, case):
  """All words that extend the prefix by one operation."""
  total, prefix = case
  pick = (lambda i: OPS[i // 2]) if total == 2 * len(OPS) else (
      lambda i: OPS[FEW[i // 2]])
  base_m = [Model(), Model()]
  for i in prefix:
    base_m[i % 2].do(pick(i)[0], pick(i)[1], DICTS)
  for last in (range(total) if total else [None]):
    fs = [transitfeed.GetGtfsFactory(), transitfeed.GetGtfsFactory()]
    ms = [m.copy() for m in base_m]
    dicts = dict((k, dict(v)) for k, v in DICTS.items())
    for i in prefix:
      op, arg = pick(i)
      try:
        a = list(arg)
        if op.endswith('Mapping') and len(a) > 1:
          a[1] = dicts[a[1]]
        elif op.endswith('Class') and len(a) > 1:
          a[1] = CLS[a[1]]
        getattr(fs[i % 2], op)(*a)
      except REFUSED:
        pass
    what = ''
    if last is not None:
      op, arg = pick(last)
      what = repr([(i % 2,) + pick(i) for i in prefix + [last]])
      apply(x, fs[last % 2], ms[last % 2], op, arg, dicts, what)
    for k in range(2):
      observe(x, fs[k], ms[k], '%s of %d' % (what, k))
    x.eq(dicts, DICTS, 'arguments', what)
    x.state([sorted((k, sorted(v.items())) for k, v in m.files.items()) +
             sorted((k, v.__name__) for k, v in m.classes.items())
             for m in ms])
  observe(x, transitfeed.GetGtfsFactory(), Model(), 'fresh after %r' % (case,))
  x.outcome('length %d' % (len(prefix) + 1))


# --- loading through a changed factory -------------------------------------
LOG = []
BASE = feeds.base()
for n, h in (('x.txt', 'x_id,x_name'), ('y.txt', 'x_id,x_name')):
  BASE.tables[n] = feeds.T(h, ['1', 'one'], ['2', 'two'])


def extra(tag):
  class Extra(transitfeed.GtfsObjectBase):
    _REQUIRED_FIELD_NAMES = ['x_id']
    _FIELD_NAMES = ['x_id', 'x_name']
    _TABLE_NAME = 'x'

    def __init__(self, field_dict=None):
      self._schedule = None
      self.__dict__.update(field_dict or {})

    def ValidateBeforeAdd(self, problems):
      LOG.append((tag, 'before', self.x_id))
      return self.x_id != u'2' or tag != 'no'

    def AddToSchedule(self, schedule, problems):
      LOG.append((tag, 'add', self.x_id))

    def ValidateAfterAdd(self, problems):
      LOG.append((tag, 'after', self.x_id))
  return Extra


EXTRA = dict((t, extra(t)) for t in ('one', 'two', 'no'))
LOADED = ['stops.txt', 'routes.txt', 'transfers.txt', 'trips.txt',
          'fare_attributes.txt', 'fare_rules.txt', 'frequencies.txt',
          'feed_info.txt']


def gen_load(tier):
  for xs in (None, -5, 5, 10, 45, 200):
    for ys in (None, -5, 10, 200):
      for cx in ('one', 'no'):
        for cy in ('one', 'two'):
          for present in ('xy', 'x', 'y', ''):
            for req in (0, 1):
              yield xs, ys, cx, cy, present, req


def run_load(x, case):
  xs, ys, cx, cy, present, req = case
  f = transitfeed.GetGtfsFactory()
  f.AddClass('E1', EXTRA[cx])
  f.AddClass('E2', EXTRA['one'])
  f.UpdateClass('E2', EXTRA[cy])
  f.AddMapping('x.txt', {'required': False, 'loading_order': xs,
                         'classes': ['E1']})
  f.AddMapping('y.txt', {'required': bool(req), 'loading_order': 3,
                         'classes': ['E1']})
  f.UpdateMapping('y.txt', {'loading_order': ys, 'classes': ['E2']})
  feed = BASE.copy()
  for n in 'xy':
    if n not in present:
      feed.missing.add(n + '.txt')
  del LOG[:]
  s, rec = feeds.load(feed, factory=f)
  x.step()
  want = []
  seq = [(p, n) for p, n in ((xs, 'x'), (ys, 'y'))
         if p is not None and n in present]
  options = [sorted(seq)]
  if len(seq) == 2 and seq[0][0] == seq[1][0]:
    options.append(seq[::-1])
  logs = []
  for o in options:
    l = []
    for _, n in o:
      t = cx if n == 'x' else cy
      for i in ('1', '2'):
        l.append((t, 'before', i))
        if t != 'no' or i == '1':
          l += [(t, 'add', i), (t, 'after', i)]
    logs.append(l)
  x.check(list(LOG) in logs, 'loaded', lambda: '%r: %r, not %r' % (
      case, LOG, logs))
  want = []
  if 'y' not in present and req and ys is not None:
    want.append(('MissingFile', 'E', 'y.txt'))
  x.eq([(e.__class__.__name__, feeds.ptype(e), e.file_name)
        for e in rec.problems], want, 'problems', repr(case))
  x.eq(len(s.stops), 4, 'stops', '')
  x.outcome('%d entries' % len(LOG))


def gen_unknown(tier):
  gone = ['x.txt'] + [n for n in LOADED if n not in
                      ('stops.txt', 'routes.txt', 'trips.txt',
                       'fare_attributes.txt')]
  for k in range(3):
    for r in itertools.combinations(gone, k):
      for known in (0, 1):
        yield list(r), known


def run_unknown(x, case):
  """Files without a mapping are reported and not loaded."""
  removed, known = case
  f = transitfeed.GetGtfsFactory()
  f.AddClass('E', EXTRA['one'])
  for n in ('x.txt', 'y.txt'):
    if known or n == 'y.txt':
      f.AddMapping(n, {'required': False, 'loading_order': 7,
                       'classes': ['E']})
  for n in removed:
    f.RemoveMapping(n)
  del LOG[:]
  s, rec = feeds.load(BASE, factory=f)
  x.step()
  want = set(removed) | (set() if known else set(['x.txt']))
  x.eq(sorted((e.__class__.__name__, e.file_name) for e in rec.problems),
       sorted(('UnknownFile', n) for n in want), 'unknown', repr(case))
  x.eq(len(LOG), 6 * (2 - ('x.txt' in want)), 'entries', repr(case))
  x.eq((len(s.GetTransferList()) > 0, s.feed_info is not None,
        bool(s.GetTrip('T3').GetFrequencyTuples()),
        any(r for a in s.GetFareAttributeList()
            for r in a.GetFareRuleList())),
       ('transfers.txt' not in want, 'feed_info.txt' not in want,
        'frequencies.txt' not in want, 'fare_rules.txt' not in want),
       'not loaded', repr(case))
  x.outcome('%d unknown' % len(want))


OVER = [n for n in NAMES if n not in ('Loader', 'FeedInfo')]


def gen_override(tier):
  for k in range(0, 3 if tier == 'quick' else 4):
    for c in itertools.combinations(OVER + ['FeedInfo'], k):
      for base in ('core', 'google'):
        yield list(c), base


def run_override(x, case):
  """Everything a loaded schedule holds is of the registered classes."""
  names, base = case
  f = transitfeed.GetGtfsFactory()
  if base == 'google':
    got = ext.GetGtfsFactory(f)
    x.check(got is f, 'given factory', 'another factory')
  made = {}
  for n in names:
    made[n] = type('My' + n, (getattr(f, n),), {})
    f.UpdateClass(n, made[n])
  # A factory that is not used and must not matter.
  g = transitfeed.GetGtfsFactory()
  for n in NAMES:
    g.UpdateClass(n, object)
  feed = feeds.base()
  if base == 'google':
    feed['fare_attributes.txt'].add_col('agency_id', u'AG1')
  s, rec = feeds.load(feed, factory=f)
  x.step()
  x.eq(rec.keys(), [], 'problems', repr(case))
  quiet = feeds.reporter()[0]
  objs = {
      'Schedule': [s], 'Agency': s.GetAgencyList(), 'Stop': s.GetStopList(),
      'Route': s.GetRouteList(), 'Trip': s.GetTripList(),
      'ServicePeriod': s.GetServicePeriodList(), 'Shape': s.GetShapeList(),
      'FareAttribute': s.GetFareAttributeList(),
      'FareRule': [r for a in s.GetFareAttributeList()
                   for r in a.GetFareRuleList()],
      'Transfer': s.GetTransferList(), 'FeedInfo': [s.feed_info],
      'StopTime': [st for t in s.GetTripList()
                   for st in t.GetStopTimes(quiet)],
  }
  for n in sorted(objs):
    x.check(objs[n], 'none', n)
    cls = getattr(f, n)
    x.check(all(type(o) is cls for o in objs[n]), 'type', lambda: '%r: %s %r'
            % (case, n, set(type(o) for o in objs[n])))
  for n in ('Agency', 'Stop', 'Route', 'Trip', 'FareAttribute', 'Shape'):
    x.check(all(o.GetGtfsFactory() is f for o in objs[n]), 'factory',
            lambda: '%r: %s' % (case, n))
  # New objects made through the schedule are of these classes, too.
  s.SetDefaultAgency(s.GetAgency('AG1'))
  st = s.AddStop(1.5, 2.5, 'New', 'NEW')
  r = s.AddRoute('n', 'New', 3, 'NEWR')
  t = r.AddTrip(s, 'h', s.GetServicePeriod('WK'), 'NEWT')
  a = s.AddAgency('A', 'http://n/', 'UTC', 'NEWA')
  s._default_service_period = None
  p = s.NewDefaultServicePeriod()
  for n, o in (('Stop', st), ('Route', r), ('Trip', t), ('Agency', a),
               ('ServicePeriod', p)):
    x.check(type(o) is getattr(f, n), 'new', lambda: '%r: %s %r' % (
        case, n, type(o)))
  x.outcome('%s %d' % (base, len(names)))


SCENARIOS = [
    Scenario('words', gen_words, run_words,
             bound='words of <= 2 (3) of %d operations, 3 (4) of %d, on '
             'two factories' % (len(OPS), len(FEW))),
    Scenario('load', gen_load, run_load,
             bound='two added files x positions x classes x presence'),
    Scenario('unknown', gen_unknown, run_unknown,
             bound='<= 2 removed mappings'),
    Scenario('override', gen_override, run_override,
             bound='<= 2 (3) overridden classes, core and extension'),
]
