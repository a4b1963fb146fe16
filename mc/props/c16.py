# -*- coding: utf-8 -*-
"""C16: problem counts, limits, ordering and exit status."""
import StringIO
import itertools
import os
import re
import sys
import tempfile
import types

import transitfeed
import feedvalidator
from transitfeed import TYPE_ERROR, TYPE_WARNING, TYPE_NOTICE

import feeds
from core import Scenario, words

TYPES = {'E': TYPE_ERROR, 'W': TYPE_WARNING, 'N': TYPE_NOTICE}

# class -> (positional arguments for the reporter, takes a context)
CALLS = {
    'FeedNotFound': (('feed',), True),
    'UnknownFormat': (('feed',), True),
    'FileFormat': (('text',), True),
    'MissingFile': (('x.txt',), True),
    'UnknownFile': (('x.txt',), True),
    'EmptyFile': (('x.txt',), True),
    'MissingColumn': (('x.txt', 'col'), True),
    'UnrecognizedColumn': (('x.txt', 'col'), True),
    'DeprecatedColumn': (('x.txt', 'col', 'new'), True),
    'CsvSyntax': (('text',), True),
    'DuplicateColumn': (('x.txt', 'col', 2), True),
    'MissingValue': (('col',), True),
    'InvalidValue': (('col', 'val'), True),
    'InvalidFloatValue': (('1.',), True),
    'InvalidNonNegativeIntegerValue': (('01',), True),
    'DuplicateID': (('col', 'val'), True),
    'InvalidAgencyID': (('col', 'val', 'route', 'r'), True),
    'UnusedStop': (('s', 'stop'), True),
    'UsedStation': (('s', 'stop'), True),
    'StopTooFarFromParentStation': (('s', 'stop', 'p', 'par', 5.0), True),
    'StopsTooClose': (('a', 'A', 'b', 'B', 1.0), True),
    'StationsTooClose': (('a', 'A', 'b', 'B', 1.0), True),
    'DifferentStationTooClose': (('a', 'A', 'b', 'B', 1.0), True),
    'StopTooFarFromShapeWithDistTraveled':
        (('t', 'a', 'A', 1.0, 'sh', 900.0, 800.0), False),
    'DateOutsideValidRange': (('col', '18000101', 1900, 2100), True),
    'NoServiceExceptions': (('20100101', '20110101'), True),
    'InvalidLineEnd': (('CR',), True),
    'TooFastTravel': (('t', 'a', 'b', 900.0, 3, None), False),
    'StopWithMultipleRouteTypes': (('a', 'A', 'r1', 'r2'), True),
    'DuplicateTrip': (('t1', 'r1', 't2', 'r2'), True),
    'OverlappingTripsInSameBlock': (('t1', 't2', 'b'), True),
    'TransferDistanceTooBig': (('a', 'b', 11000.0), True),
    'TransferWalkingSpeedTooFast': (('a', 'b', 900.0, 10), True),
    'OtherProblem': (('text',), True),
    'TooManyDaysWithoutService': (('20100101', '20100120', 20), True),
    'MinimumTransferTimeSetWithInvalidTransferType': ((0,), True),
    'TooManyConsecutiveStopTimesWithSameTime': (('t', 7, 3600), False),
}
# classes ordered by a number: position of the number, attribute, direction
ORDERED = {
    'StopTooFarFromParentStation': (4, 'distance', -1),
    'StopsTooClose': (4, 'distance', 1),
    'StationsTooClose': (4, 'distance', 1),
    'DifferentStationTooClose': (4, 'distance', 1),
    'StopTooFarFromShapeWithDistTraveled': (5, 'distance', -1),
    'TooFastTravel': (3, 'dist', -1),
}


class Grab(transitfeed.ProblemAccumulatorInterface):
  def __init__(self):
    self.last = None
    self.n = 0

  def _Report(self, e):
    self.last = e
    self.n += 1


def make(cls, typ, size=None):
  args = list(CALLS[cls][0])
  if size is not None:
    args[ORDERED[cls][0]] = size
  g = Grab()
  getattr(transitfeed.ProblemReporter(g), cls)(*args, type=TYPES[typ])
  return g.last


def kept(problems, limit):
  """The problems of one class and severity that must be kept."""
  name = problems[0].__class__.__name__
  if name in ORDERED:
    _, attr, sign = ORDERED[name]
    problems = sorted(problems, key=lambda e: sign * getattr(e, attr))
  return problems[:limit]


def accumulate(x, problems, limit, ignore, what, html=False):
  """Reports everything to both counting accumulators and compares."""
  seen = [e for e in problems if e.__class__.__name__ not in (ignore or ())]
  n = dict((t, sum(1 for e in seen if e.GetType() == TYPES[t]))
           for t in TYPES)
  cls = feedvalidator.HTMLCountingProblemAccumulator if html else \
      feedvalidator.LimitPerTypeProblemAccumulator
  acc = cls(limit, ignore)
  for e in problems:
    acc._Report(e)
  x.step(len(problems))
  x.eq((acc.ErrorCount(), acc.WarningCount()), (n['E'], n['W']), 'limit-count',
       what)
  x.eq((bool(acc.HasIssues()), bool(acc.HasNotices())),
       (n['E'] + n['W'] > 0, n['N'] > 0), 'limit-has', what)
  for t, T in TYPES.items():
    groups = {}
    for e in seen:
      if e.GetType() == T:
        groups.setdefault(e.__class__.__name__, []).append(e)
    m = acc.ProblemListMap(T)
    x.eq(sorted(m.keys()), sorted(groups), 'limit-classes', what)
    for k, g in groups.items():
      want = kept(g, limit)
      pl = acc.ProblemList(T, k)
      got = list(pl.problems)
      x.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
              'kept', lambda: '%s: %s %s kept %r, want %r' % (
                  what, t, k, [problems.index(e) for e in got],
                  [problems.index(e) for e in want]))
      x.eq((pl.count, pl.dropped_count), (len(g), len(g) - len(want)),
           'class-count', '%s %s' % (what, k))
  return acc, n, seen


def console(x, problems, ignore, what):
  acc = feedvalidator.CountingConsoleProblemAccumulator(ignore)
  for e in problems:
    acc._Report(e)
  x.step(len(problems))
  seen = [e for e in problems if e.__class__.__name__ not in (ignore or ())]
  n = [sum(1 for e in seen if e.GetType() == TYPES[t]) for t in 'EWN']
  x.eq([acc.ErrorCount(), acc.WarningCount(), acc.NoticeCount()], n,
       'console-count', what)
  x.eq((bool(acc.HasIssues()), bool(acc.HasNotices())),
       (n[0] + n[1] > 0, n[2] > 0), 'console-has', what)
  x.eq(acc.FormatCount(), count_text(n[0], n[1]), 'count-text', what)


def count_text(e, w):
  parts = []
  if e:
    parts.append('%d error%s' % (e, '' if e == 1 else 's'))
  if w:
    parts.append('%d warning%s' % (w, '' if w == 1 else 's'))
  return ' and '.join(parts)


# ---- words of problems ----------------------------------------------------------
LETTERS = (('MissingValue', 'E', None), ('MissingValue', 'W', None),
           ('OtherProblem', 'E', None), ('OtherProblem', 'W', None),
           ('OtherProblem', 'N', None), ('StopsTooClose', 'W', 1.0),
           ('StopsTooClose', 'W', 0.5), ('StopsTooClose', 'E', 1.5),
           ('TooFastTravel', 'E', 9.0), ('TooFastTravel', 'E', 10.0))
IGNORES = (None, (), ('OtherProblem',), ('StopsTooClose', 'MissingValue'),
           ('NoSuch', 'Missing'))


def gen_words(tier):
  yield ()
  for w in words(range(len(LETTERS)), 4 if tier == 'quick' else 6):
    yield w


def run_words(x, case):
  problems = [make(*LETTERS[i]) for i in case]
  for limit in (0, 1, 2, 3):
    for ig in IGNORES:
      accumulate(x, problems, limit, None if ig is None else list(ig),
                 repr((case, limit, ig)))
  for ig in IGNORES:
    console(x, problems, None if ig is None else list(ig), repr((case, ig)))
  x.state(case)
  x.outcome('len%d' % len(case))


# ---- which are kept -----------------------------------------------------------------
def gen_kept(tier):
  for cls in sorted(ORDERED):
    yield (cls, ())
    for w in words((0.0, 0.25, 0.75, 20.0), 5 if tier == 'quick' else 7):
      yield (cls, w)
  for cls in sorted(CALLS):
    if cls not in ORDERED:
      for n in range(8):
        yield (cls, n)


def run_kept(x, case):
  cls, w = case
  for t in 'EWN':
    if isinstance(w, int):
      problems = [make(cls, t) for _ in range(w)]
    else:
      problems = [make(cls, t, v) for v in w]
    for limit in (1, 2, 3, 4, 7):
      accumulate(x, problems, limit, None, repr((cls, w, limit)))
  x.state(case)
  x.outcome(cls)


# ---- every problem the reporter knows ----------------------------------------------
CONTEXTS = (None, ('f.txt', 3, ['a', 'b'], ['h', 'i']), ('f.txt',),
            ('f.txt', 0), ('f.txt', 1, None, None))


def gen_report(tier):
  for cls in sorted(CALLS):
    for t in ('E', 'W', 'N', 'default'):
      for own in range(len(CONTEXTS)):
        for outer in range(len(CONTEXTS)):
          if cls == 'FileFormat' and not own and not outer:
            continue  # always names its file
          yield (cls, t, own, outer)


def run_report(x, case):
  cls, t, own, outer = case
  args, takes = CALLS[cls]
  g = Grab()
  pr = transitfeed.ProblemReporter(g)
  if CONTEXTS[outer]:
    c = CONTEXTS[outer] + (None,) * (4 - len(CONTEXTS[outer]))
    pr.SetFileContext(*c)
  kw = {}
  if t != 'default':
    kw['type'] = TYPES[t]
  if takes:
    kw['context'] = CONTEXTS[own]
  getattr(pr, cls)(*args, **kw)
  x.step()
  e = g.last
  x.eq(g.n, 1, 'reported-once', cls)
  x.eq(e.__class__.__name__, cls, 'class', cls)
  if t != 'default':
    x.eq(e.GetType(), TYPES[t], 'severity', cls)
  ty = e.GetType()
  x.eq((e.IsError(), e.IsWarning(), e.IsNotice()),
       (ty == TYPE_ERROR, ty == TYPE_WARNING, ty == TYPE_NOTICE), 'is', cls)
  for s in (e.FormatProblem(), str(e), e.FormatContext()):
    x.check(isinstance(s, basestring), 'text', cls)
  for a in args:
    if isinstance(a, str) and len(a) > 3 and '.' not in a:
      x.check(a in e.FormatProblem(), 'text-shows', '%s %r' % (cls, a))
  # raising accumulators
  for raise_warnings in (False, True):
    acc = transitfeed.ExceptionProblemAccumulator(raise_warnings)
    try:
      acc._Report(e)
      raised = None
    except transitfeed.ExceptionWithContext as got:
      raised = got
    x.step()
    if ty == TYPE_ERROR or (raise_warnings and ty == TYPE_WARNING):
      x.check(raised is e, 'raises', '%s %s %r' % (cls, t, raise_warnings))
    elif ty == TYPE_WARNING or not raise_warnings:
      x.check(raised is None, 'not-raised', '%s %s' % (cls, t))
  # the default reporter raises errors only
  try:
    transitfeed.default_problem_reporter.AddToAccumulator(e)
    raised = None
  except transitfeed.ExceptionWithContext as got:
    raised = got
  x.eq(raised is e, ty == TYPE_ERROR, 'default-raises', cls)
  x.state((cls, t, e.FormatContext()))
  x.outcome(t)


# ---- asking does not change -----------------------------------------------------------
QUERIES = ('errors', 'warnings', 'list', 'map', 'has', 'notices', 'unseen')


def gen_queries(tier):
  letters = (0, 1, 4)
  for w in [()] + list(words(letters, 2)):
    for q in words(QUERIES, 2 if tier == 'quick' else 3):
      yield (w, q)


def run_queries(x, case):
  w, qs = case
  problems = [make(*LETTERS[i]) for i in w]
  for cls in (feedvalidator.LimitPerTypeProblemAccumulator,
              feedvalidator.HTMLCountingProblemAccumulator):
    acc = cls(2)
    done = []
    for step in range(len(problems) + 1):
      for q in qs:
        if q == 'errors':
          acc.ErrorCount()
        elif q == 'warnings':
          acc.WarningCount()
        elif q == 'list':
          acc.ProblemList(TYPE_ERROR, 'MissingValue').problems
        elif q == 'map':
          acc.ProblemListMap(TYPE_WARNING).items()
        elif q == 'has':
          acc.HasIssues()
        elif q == 'notices':
          acc.HasNotices()
        else:
          pl = acc.ProblemList(TYPE_NOTICE, 'UnusedStop')
          x.eq((pl.count, pl.dropped_count, list(pl.problems)), (0, 0, []),
               'unseen', repr(case))
          acc.ProblemList(TYPE_WARNING, 'UnusedStop')
      n = [sum(1 for e in done if e.GetType() == TYPES[t]) for t in 'EWN']
      x.eq([acc.ErrorCount(), acc.WarningCount()], n[:2], 'query-count',
           repr(case))
      x.eq((bool(acc.HasIssues()), bool(acc.HasNotices())),
           (n[0] + n[1] > 0, n[2] > 0), 'query-has', repr(case))
      x.step()
      if step < len(problems):
        acc._Report(problems[step])
        done.append(problems[step])
  x.state(case)
  x.outcome('q')


# ---- exit status and what is shown ------------------------------------------------------
class FakeSchedule(transitfeed.Schedule):
  late = ()

  def Validate(self, problems=None, validate_children=True, today=None,
               service_gap_interval=None):
    for e in self.late:
      self.problem_reporter.AddToAccumulator(e)


def extension(early, late):
  """A module like an extension, whose loader finds the given problems."""
  m = types.ModuleType('mc_fake_extension')

  class Loader(object):
    def __init__(self, feed, problems=None, **kw):
      self.problems = problems

    def Load(self):
      s = FakeSchedule(problem_reporter=self.problems)
      s.late = late
      for e in early:
        self.problems.AddToAccumulator(e)
      return s

  class Factory(object):
    pass
  f = Factory()
  f.Loader = Loader
  m.GetGtfsFactory = lambda: f
  sys.modules['mc_fake_extension'] = m


class Out(object):
  encoding = None

  def __init__(self):
    self.parts = []

  def write(self, s):
    self.parts.append(s.encode('utf-8') if isinstance(s, unicode) else s)

  def flush(self):
    pass

  def isatty(self):
    return False

  def text(self):
    return ''.join(self.parts)


RUN_LETTERS = (0, 1, 4, 5, 8, 9)
RUN_OPTS = [(o, l, i, v) for o in ('html', 'console') for l in (None, 0, 1, 2)
            for i in (None, 'OtherProblem', 'MissingValue,StopsTooClose',
                      'TooFastTravel')
            for v in ('same', 'newer')]


def gen_runs(tier):
  for w in [()] + list(words(RUN_LETTERS, 2 if tier == 'quick' else 3)):
    for k in range(len(RUN_OPTS)):
      if RUN_OPTS[k][0] == 'console' and RUN_OPTS[k][1] is not None:
        continue
      yield (w, k)
  for w in words(RUN_LETTERS, 4):
    if len(w) > 2:
      k = sum(w) % len(RUN_OPTS)
      if tier != 'quick' or len(w) == 3 or sum(w) % 3 == 0:
        yield (w, k)


def run_runs(x, case):
  w, k = case
  output, limit, ignore, version = RUN_OPTS[k]
  problems = [make(*LETTERS[i]) for i in w]
  half = len(w) // 2
  extension(problems[:half], problems[half:])
  tmp = tempfile.mkdtemp(prefix='mc16-')
  path = os.path.join(tmp, 'out.html')
  argv = ['feedvalidator.py', '-n', '-m', '--extension=mc_fake_extension',
          '--latest_version=' + (transitfeed.__version__ if version == 'same'
                                 else '99.0.0'),
          '--output=' + (path if output == 'html' else 'CONSOLE')]
  if limit is not None:
    argv.append('--limit_per_type=%d' % limit)
  else:
    limit = 5
  if ignore is not None:
    argv.append('--error_types_ignore_list=' + ignore)
  argv.append('/nowhere/feed.zip')
  out = Out()
  old = sys.argv, sys.stdout
  sys.argv, sys.stdout = argv, out
  try:
    code = feedvalidator.main()
  finally:
    sys.argv, sys.stdout = old
  x.step()
  what = repr((case, RUN_OPTS[k]))
  skip = ignore.split(',') if ignore else []
  seen = [e for e in problems if e.__class__.__name__ not in skip]
  n = [sum(1 for e in seen if e.GetType() == TYPES[t]) for t in 'EWN']
  x.eq(code, 1 if n[0] + n[1] else 0, 'exit', what)
  text = out.text()
  if n[0] + n[1]:
    x.check('ERROR: %s found' % count_text(n[0], n[1]) in text, 'says-count',
            lambda: '%s: %r' % (what, text))
  else:
    x.check('feed validated successfully' in text and 'ERROR' not in text,
            'says-success', lambda: '%s: %r' % (what, text))
  if output == 'html':
    html = open(path).read()
    check_html(x, html, seen, limit, version == 'newer', what)
  else:
    for e in seen:
      x.check(e.FormatProblem().split()[0] in text, 'console-shows', what)
  if os.path.exists(path):
    os.remove(path)
  os.rmdir(tmp)
  x.state((code, tuple(n)))
  x.outcome('exit%d' % code)


def human(cls):
  return re.sub('([a-z])([A-Z])', r'\1 \2', cls)


def check_html(x, html, seen, limit, newer, what):
  n = dict((t, sum(1 for e in seen if e.GetType() == TYPES[t])) for t in 'EWN')
  x.eq('feed validated successfully' in html, n['E'] + n['W'] == 0,
       'html-success', what)
  for t, word in (('E', 'error'), ('W', 'warning')):
    m = re.findall(r'<span class="fail">(\d+) %ss?</span>' % word, html)
    x.eq(m, [str(n[t])] if n[t] else [], 'html-count', what)
  groups = {}
  for e in seen:
    groups.setdefault((e.GetType(), e.__class__.__name__), []).append(e)
  shown = re.split(r'<h4 class="issueHeader"><a name="', html)[1:]
  got = {}
  for part in shown:
    name = part[:part.index('"')]
    body = part[:part.index('</ul>')]
    more = re.findall(r'and (\d+) more of this type', body)
    got[name] = (body.count('<div class="problem'),
                 int(more[0]) if more else 0)
  want = {}
  for (T, cls), g in groups.items():
    level = {TYPE_ERROR: 'Error', TYPE_WARNING: 'Warning',
             TYPE_NOTICE: 'Notice'}[T]
    k = min(limit, len(g))
    want[level + cls] = (k, len(g) - k)
    if T != TYPE_NOTICE:
      x.check(re.search(r'<td>%d</td><td><a href="#%s%s">%s%s</a>' % (
          len(g), level, cls, human(cls), '' if len(g) == 1 else 's'), html),
          'html-summary', '%s %s' % (what, cls))
    pos = -1
    for e in kept(g, limit):
      if cls in ORDERED:
        s = e.FormatProblem().replace('\n', '<br>')
        at = html.find(s, pos + 1)
        x.check(at > pos, 'html-order', '%s %s' % (what, cls))
        pos = at
  if newer:
    want['NoticeNewVersionAvailable'] = (min(limit, 1), 1 - min(limit, 1))
  x.eq(got, want, 'html-listed', what)


SCENARIOS = [
    Scenario('words', gen_words, run_words,
             bound='all words of 10 problems up to length 4 (6) x 4 limits x '
                   '5 ignore lists, both counting accumulators'),
    Scenario('kept', gen_kept, run_kept,
             bound='all sequences of 4 magnitudes up to length 5 (7) for the 6 '
                   'ordered classes, 0-7 problems of each other class, 3 '
                   'severities, 5 limits'),
    Scenario('report', gen_report, run_report,
             bound='all 37 kinds of problem x 4 severities x 5 x 5 contexts, '
                   'all accumulators that raise'),
    Scenario('queries', gen_queries, run_queries,
             bound='all words of 7 queries up to length 2 (3) between all '
                   'words of 3 problems up to length 2'),
    Scenario('runs', gen_runs, run_runs,
             bound='all words of 6 problems up to length 2 (3), some longer, x '
                   '40 command lines, whole validator runs'),
]
