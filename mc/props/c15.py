# -*- coding: utf-8 -*-
"""C15: what a feed means does not depend on how it is written down."""
import StringIO
import collections
import datetime
import itertools
import os
import shutil
import sys
import tempfile
import zipfile

import transitfeed
import feedvalidator

import feeds
from core import Scenario
import c13
import c14

TODAY = datetime.date(2010, 6, 1)
NAMES = list(feeds.base().tables)
FAULTS = [f for f in c14.FAULTS if f[3] != 'DuplicateID']


def make(fault):
  f = feeds.base()
  f['stops.txt'].rows[1]['stop_name'] = u'T\xfcr "a, b"'
  f['trips.txt'].rows[1]['trip_headsign'] = u' '
  f['agency.txt'].add_col('extra', u'x, y')
  if fault is not None:
    n, col, bad, cls, rcol = FAULTS[fault]
    f[n].rows[0][col] = bad
  return f


# ---- writing a table in another way ----------------------------------------------
def render(t, reps):
  """Bytes of a table after the given representation changes."""
  t = t.copy()
  eol, final, bom, blanks, pad = '\n', True, '', {}, {}
  quoted = lambda i, c: False
  for kind, p in reps:
    if kind == 'cols':
      t.cols = [t.cols[i] for i in p]
    elif kind == 'rows':
      t.rows = [t.rows[i] for i in p]
    elif kind == 'quote':
      if p == 'all':
        quoted = lambda i, c: True
      elif p == 'head':
        quoted = lambda i, c: i == 0
      elif p == 'body':
        quoted = lambda i, c: i > 0
      else:
        quoted = lambda i, c, p=p: c == p % len(t.cols)
    elif kind == 'eol':
      eol = p
    elif kind == 'nofinal':
      final = False
    elif kind == 'bom':
      bom = '\xef\xbb\xbf'
    elif kind == 'blank':
      for b in p:
        blanks[b] = blanks.get(b, 0) + 1
    elif kind == 'pad':
      pad = p
    else:
      raise AssertionError(kind)
  lines = []
  for i, row in enumerate([dict((c, c) for c in t.cols)] + t.rows):
    lines += [''] * blanks.get(i, 0)
    cells = []
    for j, c in enumerate(t.cols):
      v = row.get(c, u'')
      if i and pad:
        before, after, where = pad
        if where in ('all', j):
          v = before + v + after
      v = v.encode('utf-8') if isinstance(v, unicode) else v
      if quoted(i, j) or any(ch in v for ch in ',"'):
        v = '"' + v.replace('"', '""') + '"'
      cells.append(v)
    lines.append(','.join(cells))
  lines += [''] * blanks.get('end', 0)
  out = eol.join(lines)
  return bom + out + (eol if final else '')


def orders(n, full):
  """Row or column orders: all for few, else generated ones."""
  ident = tuple(range(n))
  out = []
  if n <= 4 and full:
    out = [p for p in itertools.permutations(ident) if p != ident]
  else:
    out.append(ident[::-1])
    for k in range(1, n):
      out.append(ident[k:] + ident[:k])
    for k in range(n - 1):
      p = list(ident)
      p[k], p[k + 1] = p[k + 1], p[k]
      out.append(tuple(p))
    for k in range(2, n):
      p = list(ident)
      p[0], p[k] = p[k], p[0]
      out.append(tuple(p))
  seen = []
  for p in out:
    if p not in seen and p != ident:
      seen.append(p)
  return seen


def reps(t, n):
  rows = len(t.rows)
  for p in orders(len(t.cols), False):
    yield ('cols', p)
  if n != 'feed_info.txt':
    for p in orders(rows, True):
      yield ('rows', p)
  for q in ['all', 'head', 'body'] + range(len(t.cols)):
    yield ('quote', q)
  yield ('eol', '\r\n')
  yield ('nofinal', None)
  yield ('bom', None)
  for b in range(1, rows + 1):
    yield ('blank', (b,))
  yield ('blank', ('end',))
  yield ('blank', ('end', 'end', 1))
  yield ('blank', tuple(range(1, rows + 1)) + ('end',))
  for before, after in ((u' ', u''), (u'', u' '), (u'  ', u'   '),
                        (u'\t', u'\t'), (u'', u'\xa0'), (u'', u'\u3000')):
    yield ('pad', (before, after, 'all'))
  for j in range(len(t.cols)):
    yield ('pad', (u' ', u' ', j))


def look(s, problems):
  o = feeds.observe(s)
  for k, v in o['frequencies.txt'].items():
    o['frequencies.txt'][k] = sorted(v)
  keys = sorted(feeds.problem_key(e, True)[:5] for e in problems)
  return o, keys


CACHE = {}


def baseline(fault):
  if fault not in CACHE:
    s, rec = feeds.load(make(fault))
    s.Validate(transitfeed.ProblemReporter(rec), validate_children=False,
               today=TODAY)
    CACHE[fault] = look(s, rec.problems)
  return CACHE[fault]


def compare(x, fault, data, what, **kw):
  want = baseline(fault)
  s, rec = feeds.load(data, **kw)
  x.step()
  s.Validate(transitfeed.ProblemReporter(rec), validate_children=False,
             today=TODAY)
  x.step()
  got = look(s, rec.problems)
  for k in sorted(want[0]):
    if got[0][k] != want[0][k]:
      x.fail('meaning:' + k, '%s: %r\n  instead of %r' % (
          what, got[0][k], want[0][k]))
  if got[1] != want[1]:
    a, b = collections.Counter(got[1]), collections.Counter(want[1])
    x.fail('problems', '%s: more %r less %r' % (what, dict(a - b),
                                                dict(b - a)))
  x.state(got)
  x.outcome('%d problems' % min(2, len(got[1])))


# A faulty row in front changes which rows the loader can use, never what the
# others mean; faults whose report depends on which of two rows comes first are
# left out of row permutations.
ORDERED = ()


def gen_single(tier):
  f = make(None)
  for n in NAMES:
    for j, r in enumerate(reps(f[n], n)):
      yield (None, n, r)
  for k, fault in enumerate(FAULTS):
    for n in NAMES:
      if n != fault[0]:
        continue
      for j, r in enumerate(reps(f[n], n)):
        if tier == 'quick' and (j + k) % 5:
          continue
        yield (k, n, r)


def run_single(x, case):
  fault, n, r = case
  f = make(fault)
  f.raw[n] = render(f[n], [r])
  compare(x, fault, f, repr((fault if fault is None else FAULTS[fault], n,
                             r)))


KINDS = [('cols', 'rev'), ('cols', 'rot'), ('rows', 'rev'), ('rows', 'rot'),
         ('quote', 'all'), ('quote', 'body'), ('eol', '\r\n'),
         ('nofinal', None), ('bom', None), ('blank', (1, 'end')),
         ('blank', (2,)), ('pad', (u' ', u' ', 'all'))]


def concrete(t, n, kind):
  k, p = kind
  if k in ('cols', 'rows'):
    m = range(len(t.cols if k == 'cols' else t.rows))
    if k == 'rows' and n == 'feed_info.txt':
      return ('rows', m)
    return (k, m[::-1] if p == 'rev' else m[1:] + m[:1])
  return kind


def gen_pairs(tier):
  for n in NAMES:
    for a, b in itertools.combinations(range(len(KINDS)), 2):
      yield ('one', n, n, a, b)
  for i, (n, m) in enumerate(itertools.combinations(NAMES, 2)):
    for a, b in itertools.product(range(len(KINDS)), repeat=2):
      if tier == 'quick' and (a + 5 * b + i) % 12:
        continue
      yield ('two', n, m, a, b)
  for a, b in itertools.combinations_with_replacement(range(len(KINDS)), 2):
    yield ('all', '', '', a, b)


def run_pairs(x, case):
  kind, n, m, a, b = case
  f = make(None)
  if kind == 'one':
    f.raw[n] = render(f[n], [concrete(f[n], n, KINDS[k]) for k in (a, b)])
  elif kind == 'two':
    f.raw[n] = render(f[n], [concrete(f[n], n, KINDS[a])])
    f.raw[m] = render(f[m], [concrete(f[m], m, KINDS[b])])
  else:
    for n in NAMES:
      f.raw[n] = render(f[n], [concrete(f[n], n, KINDS[k])
                               for k in sorted(set((a, b)))])
  compare(x, None, f, repr(case))


# ---- packaging and database --------------------------------------------------------
PACKS = ['zip', 'zip-file', 'deflated', 'reversed', 'dir', 'dir-hidden',
         'zip-object', 'dir-slash', 'dir-dot-zip', 'unicode-path']


def gen_pack(tier):
  for i, fault in enumerate([None] + range(len(FAULTS))):
    for j, p in enumerate(PACKS):
      for mem in (True, False):
        if tier == 'quick' and fault is not None and (i + j) % 3:
          continue
        yield (fault, p, mem)


def load_path(path, mem, zipobj=None):
  pr, rec = feeds.reporter()
  s = transitfeed.Loader(path, problems=pr, extra_validation=False,
                         memory_db=mem, zip=zipobj).Load()
  return s, rec


def run_pack(x, case):
  fault, p, mem = case
  f = make(fault)
  files = f.files()
  tmp = tempfile.mkdtemp()
  try:
    zipobj = None
    path = os.path.join(tmp, 'feed.zip')
    if p.startswith('dir') or p == 'unicode-path':
      path = os.path.join(tmp, {'dir-dot-zip': 'feed.zip', 'unicode-path':
                                'f\xc3\xa9ed'}.get(p, 'feed'))
      feeds.write_dir(files, path)
      if p == 'dir-hidden':
        open(os.path.join(path, '.hidden'), 'w').close()
      if p == 'dir-slash':
        path += '/'
    else:
      z = zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED if p == 'deflated'
                          else zipfile.ZIP_STORED)
      names = list(files)
      for n in names[::-1] if p == 'reversed' else names:
        z.writestr(n, files[n])
      z.close()
      if p == 'zip':
        path = StringIO.StringIO(open(path, 'rb').read())
      elif p == 'zip-object':
        zipobj = zipfile.ZipFile(path)
        path = None
    s, rec = load_path(path, mem, zipobj)
    x.step()
    s.Validate(transitfeed.ProblemReporter(rec), validate_children=False,
               today=TODAY)
    x.step()
    got = look(s, rec.problems)
    want = baseline(fault)
    x.eq(got[1], want[1], 'problems', repr(case))
    for k in sorted(want[0]):
      x.eq(got[0][k], want[0][k], 'meaning:' + k, repr(case))
    x.state(got)
    x.outcome(p)
  finally:
    shutil.rmtree(tmp)


# ---- histories -------------------------------------------------------------------
def do_load(fault, **kw):
  s, rec = feeds.load(make(fault), **kw)
  s.Validate(transitfeed.ProblemReporter(rec), validate_children=False,
             today=TODAY)
  return s


def do_report(fault):
  buf = StringIO.StringIO()
  feedvalidator.RunValidationOutputToFile(
      StringIO.StringIO(make(fault).zip()), c14.Options(), buf)


def do_ext():
  import extensions.googletransit as g
  do_load(None, factory=g.GetGtfsFactory())


def do_write():
  s = do_load(None)
  s.WriteGoogleTransitFeed(StringIO.StringIO())


def do_build():
  s = transitfeed.Schedule()
  a = s.AddAgency('A', 'http://x/', 'America/Los_Angeles')
  a.odd_column = 'x'
  st = s.AddStop(1.5, 1.5, 'S')
  st.odd_column = 'y'
  r = s.AddRoute('1', 'L', 'Bus')
  t = r.AddTrip(s, 'h')
  t.AddStopTime(st, stop_time='10:00:00')
  t.AddFrequency('10:00:00', '11:00:00', 60)
  s.WriteGoogleTransitFeed(StringIO.StringIO())


def do_merge():
  import merge
  a, b = do_load(None), do_load(None)
  m = merge.FeedMerger(a, b, transitfeed.Schedule(),
                       merge.MergeProblemReporter(feeds.Recorder()))
  m.AddDefaultMergers()
  m.MergeSchedules()


def fault_of(n, col):
  return [i for i, f in enumerate(FAULTS) if f[:2] == (n, col)][0]


OPS = {
    'sound': lambda: do_load(None),
    'filedb': lambda: do_load(None, memory_db=False),
    'route': lambda: do_load(fault_of('routes.txt', 'agency_id')),
    'stop': lambda: do_load(fault_of('stops.txt', 'location_type')),
    'times': lambda: do_load(fault_of('stop_times.txt', 'stop_sequence')),
    'report': lambda: do_report(fault_of('trips.txt', 'service_id')),
    'ext': do_ext, 'write': do_write, 'build': do_build, 'merge': do_merge,
}
TARGETS = [None, fault_of('shapes.txt', 'shape_pt_sequence'),
           fault_of('stop_times.txt', 'stop_id'),
           fault_of('transfers.txt', 'transfer_type')]


def gen_history(tier):
  ops = sorted(OPS)
  for d in range(1, 3 if tier == 'quick' else 4):
    for w in itertools.product(ops, repeat=d):
      for t in range(len(TARGETS)):
        if tier == 'quick' and d == 2 and (t + len(w[0]) + len(w[1])) % 4:
          continue
        yield (w, t)


def run_history(x, case):
  w, t = case
  for op in w:
    OPS[op]()
    x.step()
  # fresh expectations, not what an earlier load in this process gave
  fault = TARGETS[t]
  if fault is None:
    s, rec = feeds.load(feeds.base())
    s.Validate(transitfeed.ProblemReporter(rec), validate_children=False,
               today=TODAY)
    x.eq([feeds.problem_key(e) for e in rec.problems], [], 'sound',
         repr(case))
    a, b = feeds.observe(s), feeds.expected(feeds.base())
    for k in b:
      x.eq(a[k], b[k], 'history:' + k, repr(case))
  compare(x, fault, make(fault), repr(case))


# ---- nothing is known from feeds loaded before ----------------------------------------
def renamed():
  """The base feed with other identifiers."""
  f = c13.base('plain')
  cols = set((n, c) for n, c, _ in c13.REFS) | set(c13.DEFINES.values())
  cols.add(('calendar_dates.txt', 'service_id'))
  for n, c in cols:
    for r in f[n].rows:
      if r.get(c):
        r[c] += u'X'
  return f


BEFORE = ['load', 'filedb', 'validate', 'report', 'ext', 'twice']


def gen_leak(tier):
  for b in BEFORE:
    yield (b, None, 0)
    for k in range(len(c13.REFS)):
      for i in range(3):
        yield (b, k, i)


def run_leak(x, case):
  before, k, i = case
  f = renamed()
  for _ in range(2 if before == 'twice' else 1):
    if before == 'report':
      feedvalidator.RunValidationOutputToFile(
          StringIO.StringIO(f.zip()), c14.Options(), StringIO.StringIO())
    elif before == 'ext':
      import extensions.googletransit as g
      feeds.load(f, factory=g.GetGtfsFactory())
    else:
      s, rec = feeds.load(f, memory_db=before != 'filedb')
      if before == 'validate':
        s.Validate(transitfeed.ProblemReporter(rec), today=TODAY)
    x.step()
  b = c13.base('plain')
  if k is not None:
    n, col, kind = c13.REFS[k]
    dn, dc = c13.DEFINES[kind]
    ids = [r[dc] for r in f[dn].rows if r.get(dc)]
    rows = b[n].rows
    rows[i % len(rows)][col] = ids[i % len(ids)]
  c13.compare(x, b, repr(case))


SCENARIOS = [
    Scenario('leak', gen_leak, run_leak,
             bound='6 uses of a feed with other identifiers before loading a '
                   'feed that refers to one of them, for every reference '
                   'column'),
    Scenario('history', gen_history, run_history,
             bound='all words of up to 2 (3) of 10 uses of the library before '
                   'loading each of 4 feeds'),
    Scenario('single', gen_single, run_single,
             bound='13 tables x all column rotations/swaps, row permutations, '
                   'quotings, line ends, BOM, blank lines, padding; sound '
                   'feed and 76 faulty feeds'),
    Scenario('pairs', gen_pairs, run_pairs,
             bound='all pairs of 12 changes in one table, a twelfth of (all) '
                   'pairs in two tables, and all tables at once'),
    Scenario('pack', gen_pack, run_pack,
             bound='10 packagings x 2 databases x sound and faulty feeds'),
]
