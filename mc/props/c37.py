# -*- coding: utf-8 -*-
"""C37: asking, validating and writing never change a feed or later answers.

A history is a word of questions and edits on a loaded feed.  After the word
everything that can be asked is asked, and must be what a feed answers to which
only the edits of the word were applied: answers depend on the edits alone, not
on what was asked, validated or written before or in between."""
import StringIO
import collections
import csv
import datetime
import itertools
import os
import tempfile
import warnings

import transitfeed
import kmlwriter

import c12
import c13
import feeds
from core import Scenario

warnings.simplefilter('ignore')

TODAY = datetime.date(2010, 6, 1)
D0, D1 = datetime.date(2010, 7, 2), datetime.date(2010, 7, 8)


# -- feeds ------------------------------------------------------------------
def feed_plain():
  return feeds.base()


def feed_rich():
  """More of what is remembered: equal patterns, loops, blocks, exceptions."""
  f = feeds.base()
  for t in ('T4', 'T5'):
    f['trips.txt'].rows.append(dict(
        f['trips.txt'].rows[0], trip_id=unicode(t), original_trip_id=u'',
        block_id=u'B1' if t == 'T4' else u''))
    for i, (a, s) in enumerate((('07:00:00', 'S1'), ('', 'S2'),
                                ('07:20:00', 'S3'), ('07:40:00', 'S1'))):
      if t == 'T4' and i == 3:
        break
      f['stop_times.txt'].rows.append(dict(
          trip_id=unicode(t), arrival_time=unicode(a), departure_time=unicode(a),
          stop_id=unicode(s), stop_sequence=unicode(3 * i + 1)))
  return f


def feed_faulty():
  """Every validation finds something."""
  f = feed_rich()
  f['stops.txt'].rows[1]['stop_lat'] = u'36.100001'
  f['stops.txt'].rows[1]['stop_lon'] = u'-116.100001'
  f['stops.txt'].rows.append(dict(
      f['stops.txt'].rows[2], stop_id=u'S9', stop_lat=u'50', stop_lon=u'9'))
  f['trips.txt'].rows.append(dict(f['trips.txt'].rows[0], trip_id=u'T9',
                                  block_id=u'B1'))
  f['stop_times.txt'].rows[1]['shape_dist_traveled'] = u'9'
  f['routes.txt'].rows[1]['route_short_name'] = u'1'
  f['routes.txt'].rows[1]['route_long_name'] = u'First Line'
  f['routes.txt'].rows[1]['agency_id'] = u'AG1'
  f['agency.txt'].rows[1]['agency_lang'] = u'fr'
  f['shapes.txt'].rows.append(dict(
      shape_id=u'SH9', shape_pt_lat=u'36', shape_pt_lon=u'-116',
      shape_pt_sequence=u'1'))
  f['calendar.txt'].rows.append(dict(
      (k, u'0') for k in f['calendar.txt'].cols))
  f['calendar.txt'].rows[-1].update(service_id=u'NO', start_date=u'20100201',
                                    end_date=u'20100301')
  f['transfers.txt'].rows[1]['to_stop_id'] = u'S9'
  return f


def feed_sparse():
  """The least that loads: one agency, no optional column or file."""
  f = feeds.Feed()
  t = f.tables
  t['agency.txt'] = feeds.T('agency_name,agency_url,agency_timezone',
                            ['Only', 'http://a.example/', 'America/New_York'])
  t['stops.txt'] = feeds.T('stop_id,stop_name,stop_lat,stop_lon',
                           ['S1', 'One', '36.1', '-116.1'],
                           ['S2', 'Two', '36.11', '-116.11'],
                           ['S3', 'Three', '36.12', '-116.12'])
  t['routes.txt'] = feeds.T(
      'route_id,route_short_name,route_long_name,route_type',
      ['R1', '1', 'First Line', '3'], ['R2', '2', 'Second Line', '3'])
  t['calendar_dates.txt'] = feeds.T('service_id,date,exception_type',
                                    ['WK', '20100702', '1'],
                                    ['WK', '20100705', '1'])
  t['trips.txt'] = feeds.T('route_id,service_id,trip_id', ['R1', 'WK', 'T1'],
                           ['R1', 'WK', 'T2'], ['R2', 'WK', 'T3'])
  t['stop_times.txt'] = feeds.T(
      'trip_id,arrival_time,departure_time,stop_id,stop_sequence',
      ['T1', '06:00:00', '06:00:00', 'S1', '1'], ['T1', '', '', 'S2', '2'],
      ['T1', '06:20:00', '06:21:00', 'S3', '3'],
      ['T2', '07:00:00', '07:00:00', 'S1', '1'],
      ['T2', '07:10:00', '07:10:00', 'S2', '5'],
      ['T3', '23:50:00', '23:50:00', 'S2', '0'],
      ['T3', '24:10:00', '24:12:00', 'S1', '10'])
  return f


FEEDS = [('plain', feed_plain), ('rich', feed_rich), ('faulty', feed_faulty),
         ('sparse', feed_sparse)]
ZIPS = {}


def fresh(name):
  if name not in ZIPS:
    ZIPS[name] = dict(FEEDS)[name]().zip()
  s, rec = feeds.load(ZIPS[name])
  rec.clear()
  return s


# -- questions --------------------------------------------------------------
def ids(objs, attr):
  return [feeds.text(getattr(o, attr)) for o in objs]


def probs(rec):
  """The problems, with what the message says."""
  out = collections.Counter()
  for e in rec.problems:
    out[feeds.problem_key(e)] += 1
  return sorted(out.items())


def q_validate(s, **kw):
  p, rec = feeds.reporter()
  s.Validate(p, today=TODAY, **kw)
  return probs(rec)


def q_validate_objects(s):
  """Each object on its own."""
  p, rec = feeds.reporter()
  for l in (s.GetAgencyList(), s.GetStopList(), s.GetRouteList(),
            s.GetServicePeriodList(), s.GetFareAttributeList(),
            s.GetShapeList(), s.GetTransferList()):
    for o in l:
      o.Validate(p)
  for t in s.GetTripList():
    t.Validate(p)
    t.Validate(p, validate_children=False)
  if s.feed_info:
    s.feed_info.ValidateBeforeAdd(p)
    s.feed_info.ValidateAfterAdd(p)
  return probs(rec)


def tables(data):
  out = {}
  for name, text in feeds.unzip(data).items():
    rows = list(csv.reader(StringIO.StringIO(text)))
    out[name] = [sorted(
        (c, v) for c, v in zip(rows[0], r)
        if v != '' and not (c in feeds.DEFAULT0 and v == '0'))
                 for r in rows[1:]]
    if name != 'stop_times.txt':
      out[name].sort()
  return out


def q_write(s):
  out = StringIO.StringIO()
  s.WriteGoogleTransitFeed(out)
  return tables(out.getvalue())


def q_kml(s, **kw):
  w = kmlwriter.KMLWriter()
  for k, v in kw.items():
    setattr(w, k, v)
  fd, path = tempfile.mkstemp('.kml')
  os.close(fd)
  try:
    w.Write(s, path)
    f = open(path, 'rb')
    data = f.read()
    f.close()
    # Patterns of a route come in no particular order.
    return sorted(data.split('\n'))
  finally:
    os.remove(path)


def attempt(f, *a):
  try:
    return f(*a)
  except (ValueError, TypeError, KeyError) as e:
    # Asked for what the feed does not have, such as interpolated times
    # without any times.
    return e.__class__.__name__


def sts(l):
  return [feeds.stoptime(st) for st in l]


def per_trip(f):
  return lambda s: sorted((feeds.text(t.trip_id), f(t))
                          for t in s.GetTripList())


def per_stop(f):
  return lambda s: sorted((feeds.text(t.stop_id), f(t))
                          for t in s.GetStopList())


def per_period(f):
  return lambda s: sorted((feeds.text(t.service_id), f(t))
                          for t in s.GetServicePeriodList())


def interp(t):
  return [(a, feeds.stoptime(st), b) for a, st, b in t.GetTimeInterpolatedStops()]


def patterns(s):
  return sorted(
      (feeds.text(r.route_id), sorted(
          (ids(l[0].GetPattern(), 'stop_id'), sorted(ids(l, 'trip_id')))
          for l in r.GetPatternIdTripDict().values()))
      for r in s.GetRouteList())


def pattern_ids(s):
  """Equal exactly when the patterns are."""
  tl = s.GetTripList()
  return sorted((feeds.text(a.trip_id), feeds.text(b.trip_id),
                 a.pattern_id == b.pattern_id)
                for a, b in itertools.combinations(
                    sorted(tl, key=lambda t: t.trip_id), 2))


def timed(f):
  """Start and end times of trips that have stop times."""
  def ask(t):
    return f(t) if t.GetCountStopTimes() else None
  return per_trip(ask)


def quiet():
  return feeds.reporter()[0]


QUESTIONS = [
    ('validate', q_validate),
    ('validate-only', lambda s: q_validate(s, validate_children=False)),
    ('validate-gap', lambda s: q_validate(s, service_gap_interval=3)),
    ('validate-objects', q_validate_objects),
    ('write', q_write),
    ('kml', lambda s: attempt(q_kml, s)),
    ('kml-full', lambda s: attempt(lambda: q_kml(
        s, show_trips=True, split_routes=True, shape_points=True,
        altitude_per_sec=0.1))),
    ('observe', lambda s: seen(s)),
    ('date-range', lambda s: s.GetDateRangeWithOrigins()),
    ('range', lambda s: s.GetDateRange()),
    ('departures', lambda s: s.GenerateDateTripsDeparturesList(D0, D1)),
    ('active-each', lambda s: [
        (d, sorted(ids(l, 'service_id')))
        for d, l in s.GetServicePeriodsActiveEachDate(D0, D1)]),
    ('nearest', lambda s: sorted(
        ids(s.GetNearestStops(36.105, -116.105, 3), 'stop_id'))),
    ('in-box', lambda s: sorted(ids(
        s.GetStopsInBoundingBox(36.115, -116.0, 36.0, -116.2, 9), 'stop_id'))),
    ('box', lambda s: s.GetStopBoundingBox()),
    ('zones', lambda s: sorted(s.GetFareZones())),
    ('columns', lambda s: sorted(
        set(s.GetTableColumns('routes') + s.GetTableColumns('trips')) -
        set(['location_type']))),
    ('agencies', lambda s: sorted(ids(s.GetAgencyList(), 'agency_id'))),
    ('stop-times', per_trip(lambda t: sts(t.GetStopTimes()))),
    ('count', per_trip(lambda t: t.GetCountStopTimes())),
    ('time-stops', per_trip(lambda t: [
        (a, b, st.stop_id) for a, b, st in t.GetTimeStops()])),
    ('interpolated', per_trip(lambda t: attempt(interp, t))),
    ('start', timed(lambda t: t.GetStartTime(quiet()))),
    ('end', timed(lambda t: t.GetEndTime(quiet()))),
    ('pattern', per_trip(lambda t: ids(t.GetPattern(), 'stop_id'))),
    ('pattern-ids', pattern_ids),
    ('patterns', patterns),
    ('runs', per_trip(lambda t: attempt(
        lambda: [sts(l) for l in t.GetFrequencyStopTimes()]))),
    ('run-starts', per_trip(lambda t: t.GetFrequencyStartTimes())),
    ('run-tuples', per_trip(lambda t: t.GetFrequencyOutputTuples())),
    ('tuples', per_trip(lambda t: t.GetStopTimesTuples())),
    ('trip-service', per_trip(lambda t: attempt(
        lambda: t.service_period.service_id))),
    ('stop-trips', per_stop(lambda t: sorted(ids(t.GetTrips(), 'trip_id')))),
    ('stop-times-at', per_stop(lambda t: attempt(lambda: sorted(
        (a, tr.trip_id, i, b)
        for a, (tr, i), b in t.GetStopTimeTrips())))),
    ('trip-index', per_stop(lambda t: sorted(
        (tr.trip_id, i) for tr, i in t.trip_index))),
    ('route-trips', lambda s: sorted(
        (feeds.text(r.route_id), ids(r.trips, 'trip_id'))
        for r in s.GetRouteList())),
    ('period-dates', per_period(lambda p: (p.ActiveDates(), p.GetDateRange(),
                                           p.HasExceptions()))),
    ('period-rows', per_period(lambda p: (
        p.GetCalendarFieldValuesTuple(),
        sorted(p.GetCalendarDatesFieldValuesTuples())))),
    ('shape-points', lambda s: sorted(
        (feeds.text(sh.shape_id), sh.max_distance, list(sh.distance),
         list(sh.sequence),
         [sh.GetPointWithDistanceTraveled(d) for d in (-1, 0.5, 1.5, 2.9, 9)])
        for sh in s.GetShapeList())),
    ('transfers', lambda s: sorted(
        (t.from_stop_id, t.to_stop_id,
         attempt(lambda: t.GetTransferDistance()))
        for t in s.GetTransferList())),
    ('fares', lambda s: sorted(
        (f.fare_id, f.GetFieldValuesTuple(),
         sorted(r.GetFieldValuesTuple() for r in f.GetFareRuleList()))
        for f in s.GetFareAttributeList())),
]
QN = [n for n, _ in QUESTIONS]
QD = dict(QUESTIONS)


def lists(s):
  """Every list that is handed out, with lists in it."""
  out = [s.GetAgencyList(), s.GetStopList(), s.GetRouteList(),
         s.GetTripList(), s.GetServicePeriodList(), s.GetFareAttributeList(),
         s.GetShapeList(), s.GetTransferList(), s.GetFareZones(),
         s.GetNearestStops(36, -116, 9),
         s.GetStopsInBoundingBox(90, 180, -90, -180, 9),
         s.GenerateDateTripsDeparturesList(D0, D1)]
  l = s.GetServicePeriodsActiveEachDate(D0, D1)
  out += [l] + [v for d, v in l]
  for t in s.GetTripList():
    out += [t.GetStopTimes(), t.GetTimeStops(), t.GetStopTimesTuples(),
            t.GetFrequencyStartTimes(), t.GetFrequencyOutputTuples()]
    for f in (t.GetFrequencyStopTimes, t.GetTimeInterpolatedStops):
      l = attempt(f)
      if isinstance(l, list):
        out += [l] + [v for v in l if isinstance(v, list)]
  for r in s.GetRouteList():
    out += r.GetPatternIdTripDict().values()
  for t in s.GetStopList():
    out += [t.GetTrips(), t.trip_index]
    l = attempt(t.GetStopTimeTrips)
    if isinstance(l, list):
      out.append(l)
  for p in s.GetServicePeriodList():
    out += [p.ActiveDates(), p.GetCalendarDatesFieldValuesTuples()]
  return out


def spoil(s):
  """Changes everything that was handed out."""
  for st in [st for t in s.GetTripList() for st in t.GetStopTimes()]:
    st.stop_headsign = u'changed in my copy'
    st.arrival_secs = 1
  for l in lists(s):
    del l[:]


# -- edits ------------------------------------------------------------------
def ST(s, stop, secs, seq=None, **kw):
  if secs is not None:
    kw.update(arrival_secs=secs, departure_secs=secs)
  return transitfeed.StopTime(quiet(), s.GetStop(stop), stop_sequence=seq, **kw)


def e_replace(s):
  t = s.GetTrip('T2')
  l = t.GetStopTimes()
  if len(l) < 2:
    return
  st = l[1]
  t.ReplaceStopTimeObject(ST(s, st.stop_id, 27000, st.stop_sequence))


def e_object(s):
  t = transitfeed.Trip(field_dict={
      'trip_id': 'TN', 'route_id': 'R2', 'service_id': 'WK'})
  s.AddTripObject(t)
  t.AddStopTime(s.GetStop('S1'), stop_time='09:00:00')
  t.AddStopTime(s.GetStop('S3'), stop_time='09:30:00')


def e_period(s):
  p = transitfeed.ServicePeriod('NEW')
  p.SetStartDate('20100601')
  p.SetEndDate('20110301')
  p.SetWeekdayService()
  s.AddServicePeriodObject(p)


def e_points(s):
  sh = transitfeed.Shape('SHN')
  sh.AddPoint(36.1, -116.1, 0)
  sh.AddPoint(36.2, -116.2, 4)
  s.AddShapeObject(sh)


def shape(s):
  l = sorted(s.GetShapeList(), key=lambda x: x.shape_id)
  return l[0] if l else None


def e_shape_clear(s):
  if shape(s):
    shape(s).ClearPoints()


def e_shape_add(s):
  if shape(s):
    shape(s).AddPoint(36.13, -116.13, 5)


def e_rule(s):
  f = transitfeed.FareAttribute('FN', 2, 'USD', 0, 0)
  s.AddFareAttributeObject(f)
  s.AddFareRuleObject(transitfeed.FareRule(fare_id='FN', route_id='R1'))


def e_rules_clear(s):
  for f in s.GetFareAttributeList():
    f.ClearFareRules()


def e_info(s):
  s.AddFeedInfoObject(transitfeed.FeedInfo(field_dict={
      'feed_publisher_name': 'N', 'feed_publisher_url': 'http://n.example/',
      'feed_lang': 'en', 'feed_start_date': '20100601',
      'feed_end_date': '20100901'}))


def e_move(s):
  s.GetStop('S2').stop_lat = 36.2


def e_trip_service(s):
  others = sorted(p.service_id for p in s.GetServicePeriodList()
                  if p.service_id != s.GetTrip('T1').service_id)
  if others:
    s.GetTrip('T1').service_id = others[0]


EDITS = [
    ('add-time', lambda s: s.GetTrip('T1').AddStopTime(
        s.GetStop('S1'), stop_time='26:00:00')),
    ('add-untimed', lambda s: (
        s.GetTrip('T2').AddStopTime(s.GetStop('S1')),
        s.GetTrip('T2').AddStopTime(s.GetStop('S3'), stop_time='27:00:00'))),
    ('clear-times', lambda s: s.GetTrip('T2').ClearStopTimes()),
    ('replace-time', e_replace),
    ('refill', lambda s: (
        s.GetTrip('T1').ClearStopTimes(),
        s.GetTrip('T1').AddStopTime(s.GetStop('S3'), stop_time='05:00:00'),
        s.GetTrip('T1').AddStopTime(s.GetStop('S2'), stop_time='05:30:00'))),
    ('add-runs', lambda s: s.GetTrip('T2').AddFrequency('08:00:00', '09:00:00',
                                                        900)),
    ('clear-runs', lambda s: s.GetTrip('T3').ClearFrequencies()),
    ('date-on', lambda s: s.GetServicePeriod('WK').SetDateHasService(
        '20100704')),
    ('date-off', lambda s: s.GetServicePeriod('WK').SetDateHasService(
        '20100706', False)),
    ('date-reset', lambda s: s.GetServicePeriod('WK').ResetDateToNormalService(
        '20100705')),
    ('date-outside', lambda s: s.GetServicePeriod('WK').SetDateHasService(
        '20110215')),
    ('date-before', lambda s: s.GetServicePeriod('WK').SetDateHasService(
        '20090215', True)),
    ('start-date', lambda s: s.GetServicePeriod('WK').SetStartDate('20100703')),
    ('end-date', lambda s: s.GetServicePeriod('WK').SetEndDate('20100707')),
    ('week-day', lambda s: s.GetServicePeriod('WK').SetDayOfWeekHasService(
        0, False)),
    ('new-period', e_period),
    ('new-stop', lambda s: s.AddStop(36.11, -116.11, 'New', 'SN')),
    ('new-route', lambda s: s.AddRouteObject(transitfeed.Route(
        short_name='9', long_name='Ninth', route_type='Bus', route_id='RN',
        agency_id=sorted(s.GetAgencyList(),
                         key=lambda a: a.agency_id)[0].agency_id))),
    ('new-trip', lambda s: s.GetRoute('R1').AddTrip(
        s, 'head', s.GetServicePeriod('WK'), 'TA')),
    ('trip-object', e_object),
    ('new-agency', lambda s: s.AddAgency('Nth', 'http://n.example/',
                                         'America/New_York', 'AN')),
    ('new-shape', e_points), ('shape-clear', e_shape_clear),
    ('shape-add', e_shape_add),
    ('transfer', lambda s: s.AddTransferObject(transitfeed.Transfer(
        field_dict={'from_stop_id': 'S1', 'to_stop_id': 'S3',
                    'transfer_type': 2, 'min_transfer_time': 10}))),
    ('fare', e_rule), ('rules-clear', e_rules_clear), ('feed-info', e_info),
    ('move-stop', e_move),
    ('zone', lambda s: setattr(s.GetStop('S2'), 'zone_id', 'Z1')),
    ('rename-route', lambda s: setattr(s.GetRoute('R2'), 'route_short_name',
                                       '1')),
    ('headsign', lambda s: setattr(s.GetTrip('T1'), 'trip_headsign', 'other')),
    ('trip-service', e_trip_service),
    ('trip-shape', lambda s: setattr(s.GetTrip('T3'), 'shape_id', 'SH1')),
]
EN = [n for n, _ in EDITS]
ED = dict(EDITS)


def key(v):
  return repr(v)


def answers(s):
  return [(n, key(QD[n](s))) for n in QN]


EXPECTED = {}


def expected(name, edits):
  """The answers of a fresh feed with the edits only: with one edit, each
  question (on some feeds six of them) asked of a feed of its own; with more,
  in the opposite order."""
  k = (name, tuple(edits))
  if k not in EXPECTED:
    if len(EXPECTED) > 4000:
      EXPECTED.clear()
    out = {}
    s = None
    each = 99 if len(edits) > 1 else 1 if name == 'rich' else 6
    for i, n in enumerate(reversed(QN)):
      if i % each == 0:
        s = fresh(name)
        for e in edits:
          ED[e](s)
      out[n] = key(QD[n](s))
    EXPECTED[k] = out
  return EXPECTED[k]


def run_word(x, case):
  name, word = case
  s = fresh(name)
  for w in word:
    kind, what = w.split(':')
    if kind == 'e':
      ED[what](s)
    elif what == 'spoil':
      spoil(s)
    elif what == 'all':
      answers(s)
    else:
      QD[what](s)
    x.step()
  want = expected(name, [w[2:] for w in word if w[:2] == 'e:'])
  got = answers(s)
  x.step(len(got))
  for n, v in got:
    if v != want[n]:
      a, b = v, want[n]
      i = 0
      while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
      x.fail('answer-changed/' + n, '%s after %s: ...%s, fresh ...%s' % (
          n, word, a[max(0, i - 60):i + 80], b[max(0, i - 60):i + 80]))
  x.state([name, got])
  x.outcome(' '.join('qe'[w[0] == 'e'] for w in word) or 'nothing')


ASK = ['q:' + n for n in QN] + ['q:spoil']
DO = ['e:' + n for n in EN]


def gen_ask(tier):
  """Questions only: every pair of questions, on every feed."""
  for name, _ in FEEDS:
    yield [name, []]
    for a in ASK:
      yield [name, [a]]
  for name, _ in FEEDS:
    for i, (a, b) in enumerate(itertools.product(ASK, ASK)):
      if tier != 'quick' or i % 16 == 4 * [n for n, _ in FEEDS].index(name):
        yield [name, [a, b]]


def gen_edit(tier):
  """A question, then an edit: nothing remembered may outlive the edit.

  A case is a feed with all words of one edit."""
  for i, e in enumerate(DO):
    for j, (name, _) in enumerate(FEEDS):
      words = [['q:all', e], [e], [e, 'q:all']]
      for k, a in enumerate(ASK):
        if tier != 'quick' or (i + j + k) % 5 == 0 and name in (
            'rich', 'faulty'):
          words.append([a, e])
        if tier != 'quick':
          words.append([e, a])
      for n in range(0, len(words), 30):
        yield [name, words[n:n + 30]]


def run_words(x, case):
  for word in case[1]:
    run_word(x, [case[0], word])


def gen_edits(tier):
  """Two edits with everything asked before, between and after."""
  for i, (e, f) in enumerate(itertools.product(DO, DO)):
    for j, name in enumerate(('rich', 'sparse', 'faulty', 'plain')):
      if tier == 'quick' and ((i + j) % 5 or j > 1):
        continue
      if e[2:].startswith(('new-', 'trip-object', 'fare')) and e == f:
        continue
      yield [name, ['q:all', e, 'q:all', f]]


# -- lists --------------------------------------------------------------------
def gen_own(tier):
  for name, _ in FEEDS:
    yield [name, []]
    for e in EN:
      yield [name, [e]]


def run_own(x, case):
  """No list is handed out twice, and none of the schedule's own."""
  name, edits = case
  s = fresh(name)
  for e in edits:
    ED[e](s)
  a, b = lists(s), lists(s)
  x.step(len(a) + len(b))
  seen = {}
  for i, l in enumerate(a + b):
    x.check(id(l) not in seen, 'list-shared', lambda: '%r: lists %d and %d '
            'are one: %r' % (case, seen[id(l)], i, l))
    seen[id(l)] = i
  x.eq([len(l) for l in a], [len(l) for l in b], 'lists-differ', repr(case))
  for i, l in enumerate(a):
    n = [len(v) for v in a[i + 1:]]
    del l[:]
    x.check([len(v) for v in a[i + 1:]] == n, 'list-linked', repr((case, i)))
  x.state([name, edits, [len(l) for l in b]])
  x.outcome('lists')


# -- damaged feeds ----------------------------------------------------------
def gen_damaged(tier):
  for n, c, v, row in c12.gen_values(tier):
    if c12.VALUES[v] != 'nan' and (tier != 'quick' or v % 2 == 0):
      yield [n, c, v, row]


def run_damaged(x, case):
  """A feed with any one bad value is validated again and again."""
  n, c, v, row = case
  f = feeds.base()
  row = min(row, len(f[n].rows) - 1)
  files = f.files()
  files[n] = c12.raw_table(f[n], {(row, c): c12.VALUES[v]})
  data = feeds.zip_bytes(files)
  s, rec = feeds.load(data)
  first = {}
  what = repr((n, c, c12.VALUES[v], row))
  before = seen(s)
  for q in ('validate-only', 'validate', 'validate-only', 'validate',
            'validate'):
    got = QD[q](s)
    x.step()
    if q in first:
      x.check(got == first[q], 'validation-not-repeatable',
              lambda: '%s %s: %r, then %r' % (what, q, first[q], got))
    first[q] = got
    now = seen(s)
    for t in before:
      x.check(now[t] == before[t], 'validation-changes/' + t,
              lambda: '%s: %s' % (what, feeds.diff(before, now)))
  x.check(not (collections.Counter(dict(first['validate-only'])) -
               collections.Counter(dict(first['validate']))),
          'less-with-children', lambda: '%s: %r and %r' % (
              what, first['validate-only'], first['validate']))
  s2, rec2 = feeds.load(data)
  got = QD['validate'](s2)
  x.step()
  x.check(got == first['validate'], 'order-matters', lambda: '%s: %r, %r' % (
      what, got, first['validate']))
  x.state([what, got])
  x.outcome('problems' if got else 'clean')


def seen(s):
  """What a feed means: an absent location_type or transfer_type is 0."""
  o = feeds.observe(s)
  for t in ('stops.txt',):
    for d in o[t].values():
      if d.get('location_type') == 0.0:
        del d['location_type']
  return o


SCENARIOS = [
    Scenario('ask', gen_ask, run_word,
             bound='4 feeds x all words of one (and a sixteenth of all words of '
                   'two; thorough: all) of 43 questions, then all questions'),
    Scenario('edit', gen_edit, run_words,
             bound='34 edits x every question before (thorough: or after) on '
                   '4 feeds, then all questions'),
    Scenario('edits', gen_edits, run_word,
             bound='34^2 pairs of edits, everything asked before and between'),
    Scenario('own', gen_own, run_own,
             bound='every list handed out of 4 feeds after each edit'),
    Scenario('damaged', gen_damaged, run_damaged,
             bound='every column x 10 (20) bad values, validated five times'),
]
