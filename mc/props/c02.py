# -*- coding: utf-8 -*-
"""C02: the stop-time store of trips against a list model, all histories."""
import itertools
import os

import transitfeed

import feeds
from core import Scenario, words

# stop, kwargs; the values a stop time carries
ARGS = {
    'n8': ('A', {'stop_time': '08:00:00'}),
    'n8b': ('B', {'stop_time': '08:00:00', 'pickup_type': 0,
                  'drop_off_type': 3, 'timepoint': 0, 'stop_headsign': u'h\xe9',
                  'shape_dist_traveled': 0}),
    'n9': ('B', {'arrival_time': '09:00:00', 'departure_time': '09:05:00',
                 'timepoint': 1, 'shape_dist_traveled': 1.5}),
    'n9a': ('A', {'arrival_secs': 32460, 'departure_secs': 32700}),
    'u': ('C', {'pickup_type': 2}),
    'ua': ('A', {'shape_dist_traveled': '2', 'stop_headsign': ''}),
    'z': ('A', {'stop_time': '00:00:00'}),
    'late': ('C', {'stop_time': '24:00:00', 'pickup_type': 1,
                   'drop_off_type': 1}),
    'nc': ('C', {'arrival_secs': 0, 'departure_secs': 60}),
}


def model_row(arg, seq):
  stop, kw = ARGS[arg]
  if 'stop_time' in kw:
    a = d = feeds.secs(feeds.U(kw['stop_time']))
  elif 'arrival_time' in kw:
    a, d = (feeds.secs(feeds.U(kw['arrival_time'])),
            feeds.secs(feeds.U(kw['departure_time'])))
  else:
    a, d = kw.get('arrival_secs'), kw.get('departure_secs')
  dist = kw.get('shape_dist_traveled')
  return (a, d, feeds.U(stop), seq, feeds.text(kw.get('stop_headsign')),
          kw.get('pickup_type'), kw.get('drop_off_type'),
          None if dist is None else float(dist), kw.get('timepoint'))


class World(object):
  """The real schedule(s) and the model, side by side."""

  def __init__(self, x, db, start):
    self.x = x
    self.rec = None
    self.pr, self.rec = feeds.reporter()
    if start == 'loaded':
      f = feeds.Feed()
      b = feeds.base()
      for n in ('agency.txt', 'routes.txt', 'calendar.txt'):
        f.tables[n] = b[n].copy()
      f.tables['stops.txt'] = feeds.T(
          'stop_id,stop_name,stop_lat,stop_lon',
          *[[c, 'Stop ' + c, '36.%d' % i, '-116']
            for i, c in enumerate('ABC', 1)])
      f.tables['trips.txt'] = feeds.T('route_id,service_id,trip_id',
                                      ['R1', 'WK', 'T0'], ['R1', 'WK', 'T1'])
      f.tables['stop_times.txt'] = feeds.T(
          'trip_id,arrival_time,departure_time,stop_id,stop_sequence,'
          'pickup_type,timepoint',
          ['T0', '9:00:00', '9:00:00', 'C', '10', '', ''],
          ['T1', '7:00:00', '7:00:30', 'B', '0', '0', '0'],
          ['T0', '8:00:00', '8:00:00', 'A', '0', '3', '1'],
          ['T0', '', '', 'B', '4', '', ''],
          ['T0', '10:00:00', '10:00:00', 'A', '100', '', ''])
      self.s, rec = feeds.load(f, memory_db=db == 'memory')
      errs = [k for k in rec.keys() if k[1] == 'E']
      assert not errs, errs
      self.s.problem_reporter = self.pr
      self.model = [
          [(28800, 28800, u'A', 0, u'', 3, None, None, 1),
           (None, None, u'B', 4, u'', None, None, None, None),
           (32400, 32400, u'C', 10, u'', None, None, None, None),
           (36000, 36000, u'A', 100, u'', None, None, None, None)],
          [(25200, 25230, u'B', 0, u'', 0, None, None, 0)]]
    else:
      self.s = transitfeed.Schedule(self.pr, memory_db=db == 'memory')
      self.s.AddAgency('a', 'http://a', 'Europe/Zurich')
      for i, c in enumerate('ABC', 1):
        self.s.AddStop(36 + i / 10.0, -116, 'Stop ' + c, stop_id=c)
      self.s.NewDefaultServicePeriod().SetStartDate('20100101')
      r = self.s.AddRoute('1', 'one', 'Bus', route_id='R1')
      r.AddTrip(self.s, trip_id='T0')
      r.AddTrip(self.s, trip_id='T1')
      self.model = [[], []]
    self.trips = [self.s.GetTrip('T0'), self.s.GetTrip('T1')]
    self.rec.clear()

  def apply(self, op):
    x, s, m = self.x, self.s, self.model
    name, t = op[0], op[1]
    trip, rows = self.trips[t], m[t]
    self.rec.clear()
    want = []
    if name in ('add', 'obj'):
      stop, kw = ARGS[op[2]]
      seq = rows[-1][3] + 1 if rows else 1
      row = model_row(op[2], seq)
      secs = row[0] if row[0] is not None else row[1]
      if not rows:
        if secs is None:
          want.append('OtherProblem')
      else:
        prev = max([r[0] for r in rows] + [r[1] for r in rows])
        if secs is not None and prev is not None and secs < prev:
          want.append('OtherProblem')
      if name == 'add':
        trip.AddStopTime(s.GetStop(stop), problems=self.pr, **kw)
      else:
        trip.AddStopTimeObject(transitfeed.StopTime(
            self.pr, s.GetStop(stop), **kw))
      rows.append(row)
    elif name == 'rep':
      # replace the stop time at a position; its stop and number stay
      if op[2] < len(rows):
        old = rows[op[2]]
        stop, kw = ARGS[op[3]]
        st = transitfeed.StopTime(self.pr, s.GetStop(old[2]),
                                  stop_sequence=old[3], **kw)
        trip.ReplaceStopTimeObject(st)
        new = model_row(op[3], old[3])
        rows[op[2]] = new[:2] + (old[2],) + new[3:]
    elif name == 'repx':
      # nothing to replace: number and stop never occur together
      st = transitfeed.StopTime(self.pr, s.GetStop('A'), stop_sequence=77,
                                stop_time='08:00:00')
      try:
        trip.ReplaceStopTimeObject(st)
      except transitfeed.Error:
        pass
      else:
        x.fail('replace-missing-accepted', repr(op))
    elif name == 'clear':
      trip.ClearStopTimes()
      del rows[:]
    elif name == 'addtrip':
      if len(self.trips) < 3:
        r = s.GetRoute('R1')
        tr = r.AddTrip(s, trip_id='T2')
        self.trips.append(tr)
        m.append([])
    got = [e.__class__.__name__ for e in self.rec.problems
           if e.IsError()]
    x.eq(got, want, 'problems-of:' + name, repr(op))
    x.step()

  def compare(self, when):
    x, s, m = self.x, self.s, self.model
    obs = []
    for t, (trip, rows) in enumerate(zip(self.trips, m)):
      w = '%s trip %d' % (when, t)
      sts = trip.GetStopTimes()
      got = [feeds.stoptime(st) for st in sts]
      obs.append(got)
      x.eq(got, rows, 'stop-times', w)
      x.eq(trip.GetCountStopTimes(), len(rows), 'count', w)
      x.eq([p.stop_id for p in trip.GetPattern()], [r[2] for r in rows],
           'pattern', w)
      x.eq([(a, d, p.stop_id) for a, d, p in trip.GetTimeStops()],
           [(r[0], r[1], r[2]) for r in rows], 'time-stops', w)
      fmt = lambda v: u'' if v is None else u'%02d:%02d:%02d' % (
          v // 3600, v // 60 % 60, v % 60)
      blank = lambda v: u'' if v is None else v
      x.eq([tuple(v if not isinstance(v, str) else feeds.U(v) for v in tu)
            for tu in trip.GetStopTimesTuples()],
           [(feeds.U(trip.trip_id), fmt(r[0]), fmt(r[1]), r[2], r[3], r[4],
             blank(r[5]), blank(r[6]), blank(r[7]), blank(r[8]))
            for r in rows], 'output-tuples', w)
      if rows:
        first, last = rows[0], rows[-1]
        for fn, vals in (('GetStartTime', (first[0], first[1])),
                         ('GetEndTime', (last[1], last[0]))):
          known = [v for v in vals if v is not None]
          self.rec.clear()
          got = getattr(trip, fn)(self.pr)
          if known:
            x.eq(got, known[0], fn, w)
            x.eq(len(self.rec.problems), 0, fn + '-problems', w)
          else:
            x.eq([k[0] for k in self.rec.keys()], ['InvalidValue'],
                 fn + '-problems', w)
    pats = [tuple(r[2] for r in rows) for rows in m]
    for i, j in itertools.combinations(range(len(pats)), 2):
      same = self.trips[i].pattern_id == self.trips[j].pattern_id
      x.eq(same, pats[i] == pats[j], 'pattern-id',
           '%s: trips %d and %d visit %r and %r' % (when, i, j, pats[i],
                                                    pats[j]))
    groups = sorted(sorted(t.trip_id for t in v) for v in
                    s.GetRoute('R1').GetPatternIdTripDict().values())
    want = {}
    for t, p in zip(self.trips, pats):
      want.setdefault(p, []).append(t.trip_id)
    x.eq(groups, sorted(sorted(v) for v in want.values()), 'pattern-dict',
         when)
    okay = all(not rows or (rows[0][0] is not None or rows[0][1] is not None)
               and (rows[-1][0] is not None or rows[-1][1] is not None)
               for rows in m)
    for sid in 'ABC':
      stop = s.GetStop(sid)
      want = [(t.trip_id, i) for t, rows in zip(self.trips, m)
              for i, r in enumerate(rows) if r[2] == sid]
      x.eq(sorted(t.trip_id for t in stop.GetTrips()),
           sorted(w[0] for w in want), 'stop-trips', '%s stop %s' % (when, sid))
      x.eq(sorted((t.trip_id, i) for t, i in stop.trip_index), sorted(want),
           'stop-trip-index', '%s stop %s' % (when, sid))
      if okay:
        got = sorted((t.trip_id, i, sec, tp) for sec, (t, i), tp in
                     stop.GetStopTimeTrips())
        x.eq([g[:2] for g in got], sorted(want), 'stop-time-trips',
             '%s stop %s' % (when, sid))
        for tid, i, sec, tp in got:
          rows = m[[t.trip_id for t in self.trips].index(tid)]
          timed = rows[i][0] if rows[i][0] is not None else rows[i][1]
          x.eq(bool(tp), timed is not None, 'stop-time-timepoint',
               '%s stop %s %s %d' % (when, sid, tid, i))
          if timed is not None:
            x.eq(sec, timed, 'stop-time-secs',
                 '%s stop %s %s %d' % (when, sid, tid, i))
    x.state(obs)


def run(x, case):
  db, start, every, ops = case
  w = World(x, db, start)
  if every:
    w.compare('start')
  for i, op in enumerate(ops):
    w.apply(op)
    if every or i == len(ops) - 1:
      w.compare('after %r' % (ops[:i + 1],))
    if x.case_failures:
      break
  x.outcome('len%d' % len(ops))


WIDE = ([('add', t, a) for t in (0, 1)
         for a in ('n8', 'n8b', 'n9', 'n9a', 'u', 'ua', 'z', 'late', 'nc')] +
        [('obj', 0, 'n9'), ('obj', 1, 'u'),
         ('rep', 0, 0, 'n9'), ('rep', 0, 0, 'z'), ('rep', 0, 1, 'u'),
         ('rep', 0, 1, 'n8b'), ('rep', 1, 0, 'late'),
         ('repx', 0), ('clear', 0), ('clear', 1), ('addtrip', 0)])
NARROW = [('add', 0, 'n8'), ('add', 0, 'n9'), ('add', 0, 'u'),
          ('add', 1, 'n8'), ('add', 1, 'n9'), ('rep', 0, 0, 'z'),
          ('clear', 0)]


def exact(alphabet, n):
  """Every prefix is observed too, so only full-length words are needed."""
  return itertools.product(alphabet, repeat=n)


def gen_wide(tier):
  n = 2 if tier == 'quick' else 3
  for start in ('empty', 'loaded'):
    for w in exact(WIDE, n):
      yield ('memory', start, 1, w)
  for w in exact(WIDE, 2):
    yield ('memory', 'empty', 0, w)
  for start in ('empty', 'loaded'):
    for w in exact(WIDE, 1 if tier == 'quick' else 2):
      yield ('file', start, 1, w)


def gen_narrow(tier):
  n = 4 if tier == 'quick' else 5
  for w in exact(NARROW, n):
    yield ('memory', 'empty', 1, w)
  for w in exact(NARROW, n - 1):
    yield ('memory', 'loaded', 1, w)
  for w in exact(NARROW, n - 2):
    yield ('file', 'empty', 1, w)


SCENARIOS = [
    Scenario('wide', gen_wide, run,
             bound='all words of length 2 (thorough 3), with all their '
                   'prefixes, over 29 operations on two trips, from a built '
                   'and a loaded schedule, observed at every step or once; '
                   'length 1 (2) with the file database'),
    Scenario('deep', gen_narrow, run,
             bound='all words of length 4 (thorough 5), with all their '
                   'prefixes, over 7 operations'),
]
