# -*- coding: utf-8 -*-
"""C12: every feed can be loaded, validated and reported on."""
import StringIO
import datetime
import itertools
import os
import re
import shutil
import sys
import tempfile

import transitfeed
import feedvalidator

import feeds
from core import Scenario

REQUIRED = ('agency.txt', 'stops.txt', 'routes.txt', 'trips.txt',
            'stop_times.txt')


def current():
  """The base feed, in effect today."""
  y = datetime.date.today().year
  f = feeds.base()
  for name, cols in (('calendar.txt', ('start_date', 'end_date')),
                     ('feed_info.txt', ('feed_start_date', 'feed_end_date')),
                     ('calendar_dates.txt', ('date',))):
    for r in f[name].rows:
      for c in cols:
        r[c] = unicode(y + (1 if c.endswith('end_date') else
                            -1 if c.endswith('start_date') else 0)) + r[c][4:]
  return f


class Options(object):
  def __init__(self, **kw):
    self.output = 'CONSOLE'
    self.memory_db = True
    self.check_duplicate_trips = True
    self.limit_per_type = 5
    self.latest_version = transitfeed.__version__
    self.service_gap_interval = 13
    self.extension = None
    self.error_types_ignore_list = None
    self.performance = None
    self.manual_entry = False
    self.__dict__.update(kw)


class Out(object):
  """A stand-in for a pipe: text is bytes, ASCII when unicode."""
  encoding = None

  def __init__(self):
    self.parts = []

  def write(self, s):
    if isinstance(s, unicode):
      s = s.encode('utf-8')
    self.parts.append(s)

  def flush(self):
    pass

  def isatty(self):
    return False

  def text(self):
    return ''.join(self.parts)


def plural(n, word):
  return '%d %s%s' % (n, word, '' if n == 1 else 's')


def judge(x, data, what, modes=('record', 'html', 'console'), sound=False,
          expect=None, path=None, opts=None):
  """Validates zip bytes (or a path) in each mode and compares."""
  opts = opts or {}
  feed = lambda: path if path is not None else StringIO.StringIO(data)
  counts = None
  problems = []
  if 'record' in modes:
    pr, rec = feeds.reporter()
    s = transitfeed.Loader(feed(), problems=pr, extra_validation=False,
                           check_duplicate_trips=True).Load()
    s.Validate(service_gap_interval=13, validate_children=False)
    x.step()
    problems = rec.problems
    counts = [sum(1 for e in problems if e.IsError()),
              sum(1 for e in problems if e.IsWarning())]
    x.state(sorted(set((e.__class__.__name__, feeds.ptype(e))
                       for e in problems)))
    x.outcome('E%d W%d' % (min(2, counts[0]), min(2, counts[1])))
    if sound:
      x.eq([feeds.problem_key(e, True) for e in problems], [], 'sound', what)
    if expect:
      expect(x, problems, what)
    for e in problems:
      e.FormatProblem()
      e.FormatContext()
      str(e)
  if 'html' in modes:
    out = Out()
    buf = StringIO.StringIO()
    old = sys.stdout
    sys.stdout = out
    try:
      code = feedvalidator.RunValidationOutputToFile(
          feed(), Options(**opts), buf)
    finally:
      sys.stdout = old
    x.step()
    html = buf.getvalue()
    if isinstance(html, unicode):
      html = html.encode('utf-8')
    ok = html.rstrip().endswith('</html>')
    try:
      html.decode('utf-8')
    except UnicodeDecodeError:
      pass
    good = 'feed validated successfully' in html
    if counts is not None:
      want = 1 if sum(counts) else 0
      x.eq(code, want, 'html-exit', '%s %r' % (what, counts))
      x.eq(good, not want, 'html-verdict', what)
      for n, w in zip(counts, ('error', 'warning')):
        x.eq('<span class="fail">%s</span>' % plural(n, w) in html, n > 0,
             'html-count', '%s %r' % (what, counts))
    else:
      x.eq(good, code == 0, 'html-verdict', what)
    x.check(ok and code in (0, 1), 'html-form', '%s: %r' % (what, html[-80:]))
  if 'console' in modes:
    out = Out()
    old = sys.stdout
    sys.stdout = out
    try:
      code = feedvalidator.RunValidationOutputToConsole(feed(),
                                                        Options(**opts))
    finally:
      sys.stdout = old
    x.step()
    text = out.text()
    good = 'feed validated successfully' in text
    m = re.search(r'^ERROR: (.*) found$', text, re.M)
    if counts is not None:
      want = 1 if sum(counts) else 0
      x.eq(code, want, 'console-exit', '%s %r' % (what, counts))
      x.eq(good, not want, 'console-verdict', what)
      x.eq(m and m.group(1), ' and '.join(
          plural(n, w) for n, w in zip(counts, ('error', 'warning')) if n)
          or None, 'console-count', what)
    else:
      x.eq(good, code == 0, 'console-verdict', what)
      x.eq(bool(m), code == 1, 'console-errors', what)


def ALT(case):
  """Both reports in turn: the case's text decides, so replays agree."""
  return ('record', 'console' if len(repr(case)) % 2 else 'html')


def named(*classes, **kw):
  """Expect a problem of one of the classes about the file."""
  fname = kw.get('file')
  col = kw.get('col')
  def check(x, problems, what):
    hit = [e for e in problems if e.__class__.__name__ in classes and
           (fname is None or feeds.txt(getattr(e, 'file_name', None)) == fname)
           and (col is None or feeds.txt(getattr(e, 'column_name', None)) ==
                col)]
    x.check(bool(hit), 'not-reported', lambda: '%s: wanted %r, got %r' % (
        what, (classes, kw), [feeds.problem_key(e, True) for e in problems]))
  return check


# ---- faults of whole files ----------------------------------------------------
BOM = '\xef\xbb\xbf'


def file_faults():
  out = []
  add = lambda name, fn, exp=None: out.append((name, fn, exp))
  def req(name):
    return lambda n: named(name, file=n)
  lines = lambda b: b.split('\n')
  add('empty', lambda b: '', req('EmptyFile'))
  add('bom-only', lambda b: BOM)
  add('newline', lambda b: '\n')
  add('newlines', lambda b: '\n\n\n')
  add('crlf-only', lambda b: '\r\n')
  add('spaces', lambda b: '   ')
  add('blank-then', lambda b: '\n' + b)
  add('spaces-then', lambda b: '  \n' + b)
  add('commas-only', lambda b: ',,,\n')
  add('header-only', lambda b: lines(b)[0] + '\n')
  add('header-no-eol', lambda b: lines(b)[0])
  add('no-header', lambda b: '\n'.join(lines(b)[1:]))
  add('one-row', lambda b: '\n'.join(lines(b)[:2]) + '\n')
  add('nul', lambda b: b[:30] + '\0' + b[30:], req('FileFormat'))
  add('nul-first', lambda b: '\0' + b, req('FileFormat'))
  add('nul-last', lambda b: b + '\0', req('FileFormat'))
  add('utf16', lambda b: b.decode('utf-8').encode('utf-16'),
      req('FileFormat'))
  add('utf16le', lambda b: '\xff\xfe' + b.decode('utf-8').encode('utf-16-le'),
      req('FileFormat'))
  add('utf16be', lambda b: '\xfe\xff' + b.decode('utf-8').encode('utf-16-be'),
      req('FileFormat'))
  add('utf16-cut', lambda b: ('\xff\xfe' + b.decode('utf-8').encode(
      'utf-16-le'))[:-1], req('FileFormat'))
  add('utf16-bad', lambda b: '\xff\xfe\x00\xd8\x00\xd8', req('FileFormat'))
  add('utf16-empty', lambda b: '\xff\xfe', req('FileFormat'))
  add('bom', lambda b: BOM + b)
  add('bom-bom', lambda b: BOM + BOM + b)
  add('binary', lambda b: ''.join(chr(c) for c in range(1, 256)))
  add('latin1-all', lambda b: b.replace('e', '\xe9'))
  add('latin1-row', lambda b: '\n'.join(
      [lines(b)[0]] + [l.replace(',', ',\xe9', 1) for l in lines(b)[1:] if l])
      + '\n')
  add('cr', lambda b: b.replace('\n', '\r'))
  add('crlf', lambda b: b.replace('\n', '\r\n'))
  add('crcrlf', lambda b: b.replace('\n', '\r\r\n'), req('InvalidLineEnd'))
  add('lfcr', lambda b: b.replace('\n', '\n\r'))
  add('mixed', lambda b: b.replace('\n', '\r\n', 1), req('OtherProblem'))
  add('cr-inside', lambda b: '\n'.join(
      [lines(b)[0]] + [l.replace(',', '\r,', 1) for l in lines(b)[1:]]))
  add('no-final', lambda b: b.rstrip('\n'))
  add('final-cr', lambda b: b.rstrip('\n') + '\r')
  add('final-blanks', lambda b: b + '\n\n \n')
  add('open-quote', lambda b: b.replace(',', ',"', 1))
  add('open-quote-row', lambda b: '\n'.join(
      [lines(b)[0], lines(b)[1].replace(',', ',"', 1)] + lines(b)[2:]))
  add('open-quote-last', lambda b: b + '"')
  add('quote-junk', lambda b: '\n'.join(
      [lines(b)[0]] + [l.replace(',', ',"a"b', 1) for l in lines(b)[1:]]))
  add('short-row', lambda b: b + 'x\n', req('OtherProblem'))
  add('long-row', lambda b: b + ',' * 40 + '\n', req('OtherProblem'))
  add('short-all', lambda b: '\n'.join(
      [lines(b)[0]] + [l.rsplit(',', 1)[0] for l in lines(b)[1:]]),
      req('OtherProblem'))
  add('semicolons', lambda b: b.replace(',', ';'))
  add('tabs', lambda b: b.replace(',', '\t'))
  add('upper', lambda b: lines(b)[0].upper() + '\n' + '\n'.join(lines(b)[1:]))
  add('html', lambda b: '<html><body>404</body></html>\n')
  add('huge-field', lambda b: '\n'.join(
      [lines(b)[0], 'y' * 140000 + lines(b)[1]] + lines(b)[2:]))
  add('huge-header', lambda b: 'z' * 140000 + b)
  add('wide', lambda b: '\n'.join(
      [lines(b)[0] + ',x' * 300] + [l + ',1' * 300 for l in lines(b)[1:] if l])
      + '\n')
  add('line-separator', lambda b: b.replace(',', u',\u2028'.encode('utf-8'),
                                            1))
  add('controls', lambda b: b.replace(',', ',\x0b\x0c\x1c\x1d\x85\x7f', 3))
  add('swapped', lambda b: 'service_id,foo\nWK,1\n')
  add('twice', lambda b: b + '\n'.join(lines(b)[1:]))
  add('reversed', lambda b: '\n'.join([lines(b)[0]] + lines(b)[:0:-1]))
  return out


FILE_FAULTS = file_faults()
FF = dict((n, (fn, exp)) for n, fn, exp in FILE_FAULTS)
NAMES = list(feeds.base().tables)


def gen_file(tier):
  yield ('', 'none')
  for n in NAMES:
    for k in ('missing', 'directory'):
      yield (n, k)
    for k, _, _ in FILE_FAULTS:
      yield (n, k)


def apply_file(files, name, kind):
  if kind in ('missing', 'directory'):
    files.pop(name, None)
  elif name:
    files[name] = FF[kind][0](files[name])
  return files


def expect_file(name, kind, gone=()):
  if kind in ('missing', 'directory'):
    return named('MissingFile', file=name) if name in REQUIRED else None
  if not name:
    return None
  exp = FF[kind][1]
  return exp(name) if exp else None


def run_file(x, case):
  name, kind = case
  files = apply_file(current().files(), name, kind)
  judge(x, feeds.zip_bytes(files), repr(case), sound=not name,
        modes=('record', 'console'), expect=expect_file(name, kind))
  tmp = tempfile.mkdtemp()
  try:
    d = os.path.join(tmp, 'feed')
    feeds.write_dir(files, d)
    if kind == 'directory':
      os.mkdir(os.path.join(d, name))
    judge(x, None, repr((case, 'dir')), modes=('record', 'html'), path=d,
          sound=not name, expect=expect_file(name, kind))
  finally:
    shutil.rmtree(tmp)


PAIR_KINDS = ['missing', 'empty', 'header-only', 'html']


def gen_filepairs(tier):
  kinds = PAIR_KINDS if tier == 'quick' else PAIR_KINDS + [
      'newline', 'nul', 'utf16-cut', 'latin1-row', 'no-header', 'short-all',
      'twice']
  for i, (a, b) in enumerate(itertools.combinations(NAMES, 2)):
    for j, k in enumerate(itertools.product(kinds, repeat=2)):
      if tier == 'quick' and (i + j + j // 4) % 4:
        continue
      yield (a, k[0], b, k[1])


def run_filepairs(x, case):
  a, ka, b, kb = case
  files = current().files()
  apply_file(files, a, ka)
  apply_file(files, b, kb)
  judge(x, feeds.zip_bytes(files), repr(case), modes=('record', 'html'))


def gen_subset(tier):
  """Every subset of the files, the others missing."""
  for mask in range(2 ** len(NAMES)):
    if tier == 'quick' and bin(mask).count('1') not in (0, 1, 12, 13) \
        and mask % 24:
      continue
    yield mask


def run_subset(x, mask):
  files = current().files()
  for i, n in enumerate(NAMES):
    if not mask >> i & 1:
      files.pop(n)
  def expect(x, problems, what):
    miss = sorted(feeds.txt(e.file_name) for e in problems
                  if e.__class__.__name__ == 'MissingFile')
    want = sorted(n for n in REQUIRED if n not in files)
    if 'calendar.txt' not in files and 'calendar_dates.txt' not in files:
      want = sorted(want + ['calendar.txt'])
    x.eq(miss, want, 'missing-files', what)
  judge(x, feeds.zip_bytes(files), repr(mask), modes=('record', 'html'),
        expect=expect)


# ---- columns -------------------------------------------------------------------
def columns():
  f = feeds.base()
  return [(n, c) for n in NAMES for c in f[n].cols]


COLS = columns()
COLUMN_FAULTS = ['drop', 'twice', 'rename', 'blank', 'spaces', 'unicode',
                 'latin1', 'percent', 'markup', 'quote']


def column_fault(f, n, c, kind):
  t = f[n]
  i = t.cols.index(c)
  if kind == 'drop':
    del t.cols[i]
    for r in t.rows:
      r.pop(c, None)
    return
  if kind == 'twice':
    t.cols.append(c)
    return
  name = {'rename': 'foo', 'blank': '', 'spaces': ' %s ' % c,
          'unicode': u'caf\xe9'.encode('utf-8'), 'latin1': 'caf\xe9',
          'percent': '%s%d%(x)s', 'markup': '<b>&"\'', 'quote': 'a"b'}[kind]
  t.cols[i] = name
  for r in t.rows:
    r[name] = r.pop(c)


def gen_columns(tier):
  for n, c in COLS:
    for k in COLUMN_FAULTS:
      yield (n, c, k)


def run_columns(x, case):
  n, c, kind = case
  f = current()
  column_fault(f, n, c, kind)
  exp = None
  need = {'agency.txt': transitfeed.Agency, 'stops.txt': transitfeed.Stop,
          'routes.txt': transitfeed.Route, 'trips.txt': transitfeed.Trip,
          'stop_times.txt': transitfeed.StopTime}
  if kind == 'twice':
    exp = named('DuplicateColumn', file=n)
  elif kind == 'rename':
    exp = named('UnrecognizedColumn', file=n, col='foo')
  judge(x, f.zip(), repr(case), expect=exp, modes=ALT(case))


def gen_colpairs(tier):
  """Two columns absent (or the same file's columns absent and blank)."""
  for a, b in itertools.combinations(range(len(COLS)), 2):
    if tier == 'quick' and COLS[a][0] != COLS[b][0] and (a + b) % 16:
      continue
    yield (COLS[a], COLS[b])


def run_colpairs(x, case):
  f = current()
  for n, c in case:
    column_fault(f, n, c, 'drop')
  judge(x, f.zip(), repr(case), modes=('record', 'html'))


# ---- values --------------------------------------------------------------------
VALUES = ['', 'x', '-1', '0', '99999999999999999999', '1e400', 'nan', '1.5',
          u'\u0663\xe9\u20ac'.encode('utf-8'), '\xff\xfe', '%s %(x)d',
          '<b>&"', '20100230', '00000000', '25:61:61', 'a\nb', '\xe2\x80\xa8',
          ' ', '0.5 ', '1' * 400]


def raw_table(t, raw):
  """raw: {(row, column): bytes}."""
  lines = [','.join(feeds.quote(c) for c in t.cols)]
  for i, r in enumerate(t.rows):
    lines.append(','.join(
        '"%s"' % raw[i, c].replace('"', '""') if (i, c) in raw
        else feeds.quote(r.get(c, u'')) for c in t.cols))
  return '\n'.join(lines) + '\n'


def gen_values(tier):
  for n, c in COLS:
    for v in range(len(VALUES)):
      for row in ((0, 1) if tier != 'quick' else (0,)):
        yield (n, c, v, row)


def run_values(x, case):
  n, c, v, row = case
  f = current()
  row = min(row, len(f[n].rows) - 1)
  files = f.files()
  files[n] = raw_table(f[n], {(row, c): VALUES[v]})
  exp = None
  if VALUES[v] == '\xff\xfe':
    exp = named('InvalidValue', file=n, col=c)
  judge(x, feeds.zip_bytes(files), repr((n, c, VALUES[v], row)), expect=exp,
        modes=ALT(case))


RELATED = [
    ('calendar.txt', 'start_date', 'end_date'),
    ('calendar_dates.txt', 'date', 'exception_type'),
    ('stops.txt', 'stop_lat', 'stop_lon'),
    ('stops.txt', 'location_type', 'parent_station'),
    ('stops.txt', 'stop_id', 'parent_station'),
    ('stop_times.txt', 'arrival_time', 'departure_time'),
    ('stop_times.txt', 'stop_sequence', 'shape_dist_traveled'),
    ('stop_times.txt', 'trip_id', 'stop_id'),
    ('shapes.txt', 'shape_pt_sequence', 'shape_dist_traveled'),
    ('shapes.txt', 'shape_pt_lat', 'shape_dist_traveled'),
    ('frequencies.txt', 'start_time', 'headway_secs'),
    ('feed_info.txt', 'feed_start_date', 'feed_end_date'),
    ('routes.txt', 'route_short_name', 'route_long_name'),
    ('routes.txt', 'route_type', 'agency_id'),
    ('trips.txt', 'service_id', 'block_id'),
    ('transfers.txt', 'from_stop_id', 'to_stop_id'),
    ('transfers.txt', 'transfer_type', 'min_transfer_time'),
    ('fare_attributes.txt', 'price', 'currency_type'),
    ('fare_rules.txt', 'fare_id', 'route_id'),
    ('agency.txt', 'agency_id', 'agency_timezone'),
]


def gen_valpairs(tier):
  for k in range(len(RELATED)):
    for a in range(len(VALUES)):
      for b in range(len(VALUES)):
        if tier == 'quick' and (a + 3 * b + k) % 8:
          continue
        yield (k, a, b)


def run_valpairs(x, case):
  n, c, d = RELATED[case[0]]
  f = current()
  files = f.files()
  files[n] = raw_table(f[n], {(0, c): VALUES[case[1]],
                              (0, d): VALUES[case[2]]})
  judge(x, feeds.zip_bytes(files),
        repr((n, c, VALUES[case[1]], d, VALUES[case[2]])),
        modes=ALT(case))


CROSS = [('calendar.txt', 'start_date'), ('calendar.txt', 'service_id'),
         ('calendar_dates.txt', 'date'), ('stops.txt', 'stop_lat'),
         ('stops.txt', 'stop_id'), ('stops.txt', 'stop_name'),
         ('stop_times.txt', 'arrival_time'), ('stop_times.txt', 'trip_id'),
         ('shapes.txt', 'shape_dist_traveled'), ('shapes.txt', 'shape_id'),
         ('frequencies.txt', 'headway_secs'), ('routes.txt', 'route_type'),
         ('routes.txt', 'route_id'), ('trips.txt', 'service_id'),
         ('trips.txt', 'trip_id'), ('transfers.txt', 'from_stop_id'),
         ('feed_info.txt', 'feed_end_date'), ('agency.txt', 'agency_name'),
         ('fare_attributes.txt', 'fare_id')]


def gen_cross(tier):
  vs = (0, 1) if tier == 'quick' else range(0, len(VALUES), 2)
  for a, b in itertools.combinations(range(len(CROSS)), 2):
    for v in vs:
      for w in vs:
        yield (a, v, b, w)


def run_cross(x, case):
  a, v, b, w = case
  f = current()
  raw = {}
  for k, val in ((a, v), (b, w)):
    n, c = CROSS[k]
    raw.setdefault(n, {})[0, c] = VALUES[val]
  files = f.files()
  for n in raw:
    files[n] = raw_table(f[n], raw[n])
  judge(x, feeds.zip_bytes(files),
        repr([(CROSS[a], VALUES[v]), (CROSS[b], VALUES[w])]),
        modes=('record', 'html'))


# ---- rows ----------------------------------------------------------------------
def gen_rows(tier):
  f = feeds.base()
  for n in NAMES:
    for i in range(len(f[n].rows)):
      for k in ('drop', 'twice', 'blank', 'short', 'long'):
        yield (n, i, k)


def run_rows(x, case):
  n, i, k = case
  f = current()
  t = f[n]
  files = f.files()
  if k == 'drop':
    del t.rows[i]
    files = f.files()
  elif k == 'twice':
    t.rows.insert(i, dict(t.rows[i]))
    files = f.files()
  else:
    lines = files[n].split('\n')
    lines[i + 1] = {'blank': ',' * (len(t.cols) - 1), 'short':
                    lines[i + 1].split(',')[0], 'long':
                    lines[i + 1] + ',x,y'}[k]
    files[n] = '\n'.join(lines)
  exp = None
  if k in ('short', 'long') and len(t.cols) > 1:
    exp = named('OtherProblem', file=n)
  judge(x, feeds.zip_bytes(files), repr(case), expect=exp)


# ---- packages ------------------------------------------------------------------
def gen_pack(tier):
  for k in ('ok', 'not-there', 'empty-zip', 'no-zip', 'cut', 'crc',
            'dir-named-zip', 'text', 'unicode-name', 'latin-name', 'subdir',
            'hidden', 'extra', 'dup-entry', 'unicode-entry', 'ampersand',
            'percent', 'empty-dir', 'file-no-ext'):
    yield k
  n = len(feeds.base().zip())
  for cut in range(30, n, 97 if tier == 'quick' else 7):
    yield ('cut', cut)
  for flip in range(0, n, 41 if tier == 'quick' else 3):
    yield ('flip', flip)


def run_pack(x, case):
  files = current().files()
  data = feeds.zip_bytes(files)
  tmp = tempfile.mkdtemp()
  try:
    name = 'feed.zip'
    sound = False
    exp = None
    if isinstance(case, tuple):
      kind, pos = case
      data = data[:pos] if kind == 'cut' else \
          data[:pos] + chr(ord(data[pos]) ^ 0xff) + data[pos + 1:]
      if kind == 'cut':
        exp = named('UnknownFormat')
    elif case == 'ok':
      sound = True
    elif case == 'not-there':
      data = None
      exp = named('FeedNotFound')
    elif case == 'empty-zip':
      data = feeds.zip_bytes({'x.txt': 'y'})
    elif case == 'no-zip':
      data = 'this is no zip file, only text'
      exp = named('UnknownFormat')
    elif case == 'cut':
      data = data[:len(data) // 2]
      exp = named('UnknownFormat')
    elif case == 'crc':
      i = data.index('First Agency')
      data = data[:i] + 'Worst' + data[i + 5:]
    elif case == 'dir-named-zip':
      sound = True
    elif case == 'text':
      name = 'feed.txt'
      exp = named('UnknownFormat')
    elif case == 'unicode-name':
      name = u'caf\xe9.zip'.encode('utf-8')
      sound = True
    elif case == 'latin-name':
      name = 'a b & <c>.zip'
      sound = True
    elif case == 'subdir':
      data = feeds.zip_bytes(dict(('gtfs/' + k, v)
                                  for k, v in files.items()))
      exp = named('MissingFile', file='agency.txt')
    elif case == 'hidden':
      data = feeds.zip_bytes(dict(files, **{'.svn': 'x'}))
      sound = True
    elif case == 'extra':
      data = feeds.zip_bytes(dict(files, **{'readme.doc': 'x',
                                            'Stops.txt': 'y'}))
      exp = named('UnknownFile', file='Stops.txt')
    elif case == 'dup-entry':
      import zipfile
      b = StringIO.StringIO(data)
      z = zipfile.ZipFile(b, 'a')
      z.writestr('agency.txt', files['agency.txt'])
      z.close()
      data = b.getvalue()
    elif case == 'unicode-entry':
      data = feeds.zip_bytes(dict(files, **{
          u'caf\xe9.txt'.encode('utf-8'): 'x', 'b\xe9d.txt': 'y'}))
    elif case == 'ampersand':
      name = 'x&y;<z>.zip'
      sound = True
    elif case == 'percent':
      name = '100%s%d.zip'
      sound = True
    elif case == 'file-no-ext':
      name = 'feed'
      exp = named('UnknownFormat')
    path = os.path.join(tmp, name)
    if case == 'dir-named-zip':
      feeds.write_dir(files, path)
    elif case == 'empty-dir':
      path = os.path.join(tmp, 'dir')
      os.mkdir(path)
      exp = named('MissingFile', file='agency.txt')
    elif data is not None:
      g = open(path, 'wb')
      g.write(data)
      g.close()
    judge(x, None, repr(case), path=path, sound=sound, expect=exp)
  finally:
    shutil.rmtree(tmp)


# ---- options -------------------------------------------------------------------
def gen_options(tier):
  for name, kind in (('', 'none'), ('agency.txt', 'latin1-all'),
                     ('stops.txt', 'empty'), ('trips.txt', 'twice'),
                     ('routes.txt', 'missing'), ('stop_times.txt', 'html'),
                     ('calendar.txt', 'missing')):
    for limit in (0, 1, 5):
      for mem in (True, False):
        for gap in (None, 1, 13):
          for ext in (None, 'extensions.googletransit'):
            yield (name, kind, limit, mem, gap, ext)


def run_options(x, case):
  name, kind, limit, mem, gap, ext = case
  files = apply_file(current().files(), name, kind)
  judge(x, feeds.zip_bytes(files), repr(case), modes=('html', 'console'),
        opts=dict(limit_per_type=limit, memory_db=mem,
                  service_gap_interval=gap, extension=ext))


SCENARIOS = [
    Scenario('file', gen_file, run_file,
             bound='13 files x 58 whole-file faults, as zip and directory'),
    Scenario('filepairs', gen_filepairs, run_filepairs,
             bound='all pairs of files x a quarter of 4^2 (all 11^2) faults'),
    Scenario('subset', gen_subset, run_subset,
             bound='subsets of the 13 files (quick: one in 24 and all with at most one present or absent; thorough: all '
                   '8192)'),
    Scenario('columns', gen_columns, run_columns,
             bound='all 86 columns x 10 header faults'),
    Scenario('colpairs', gen_colpairs, run_colpairs,
             bound='all pairs of columns of a file removed, and one in 16 '
                   '(all) pairs across files'),
    Scenario('values', gen_values, run_values,
             bound='all columns x 20 values in one (two) rows'),
    Scenario('valpairs', gen_valpairs, run_valpairs,
             bound='20 related column pairs x an eighth of (all) 20^2 values'),
    Scenario('cross', gen_cross, run_cross,
             bound='all pairs of 19 key columns x 2^2 (10^2) values'),
    Scenario('rows', gen_rows, run_rows,
             bound='every row dropped, repeated, blanked, cut, lengthened'),
    Scenario('pack', gen_pack, run_pack,
             bound='19 ways of packaging; zip cut and byte-flipped at regular '
                   'positions'),
    Scenario('options', gen_options, run_options,
             bound='7 feeds x 3 limits x 2 databases x 3 gaps x 2 factories'),
]
