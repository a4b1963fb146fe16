# -*- coding: utf-8 -*-
"""C35: files, lines, headers and cells are judged exactly.

All sets of files of a feed, all words of line ends, every listed character in
every line, all small changes of every file's header and all lengths of rows
are loaded; the problems with the text of the files are compared with what
bytes, header and rows say, and the schedule with the cells that are left."""
import itertools
import os
import shutil
import tempfile

import feeds
from core import Scenario
from feeds import load, observe, expected, U

# file -> required columns, other known columns, former names of columns
COLUMNS = {
    'agency.txt': (
        'agency_name agency_url agency_timezone',
        'agency_id agency_lang agency_phone agency_fare_url agency_email',
        {'agency_ticket_url': 'agency_fare_url'}),
    'stops.txt': (
        'stop_id stop_name stop_lat stop_lon',
        'stop_desc zone_id stop_url stop_code location_type parent_station '
        'stop_timezone wheelchair_boarding', {}),
    'routes.txt': (
        'route_id route_short_name route_long_name route_type',
        'agency_id route_desc route_url route_color route_text_color '
        'bikes_allowed', {}),
    'trips.txt': (
        'route_id service_id trip_id',
        'trip_headsign trip_short_name direction_id block_id shape_id '
        'bikes_allowed wheelchair_accessible original_trip_id', {}),
    'stop_times.txt': (
        'trip_id arrival_time departure_time stop_id stop_sequence',
        'stop_headsign pickup_type drop_off_type shape_dist_traveled '
        'timepoint', {}),
    'calendar.txt': (
        'service_id start_date end_date monday tuesday wednesday thursday '
        'friday saturday sunday', '', {}),
    'calendar_dates.txt': ('service_id date exception_type', '', {}),
    'fare_attributes.txt': (
        'fare_id price currency_type payment_method transfers',
        'transfer_duration', {}),
    'fare_rules.txt': (
        'fare_id', 'route_id origin_id destination_id contains_id', {}),
    'shapes.txt': (
        'shape_id shape_pt_lat shape_pt_lon shape_pt_sequence',
        'shape_dist_traveled', {}),
    'frequencies.txt': (
        'trip_id start_time end_time headway_secs', 'exact_times', {}),
    'transfers.txt': (
        'from_stop_id to_stop_id transfer_type', 'min_transfer_time', {}),
    'feed_info.txt': (
        'feed_publisher_name feed_publisher_url feed_lang',
        'feed_start_date feed_end_date feed_version',
        {'feed_valid_from': 'feed_start_date',
         'feed_valid_until': 'feed_end_date', 'feed_timezone': None}),
}
FILES = sorted(COLUMNS)
NEEDED = ['agency.txt', 'routes.txt', 'stop_times.txt', 'stops.txt',
          'trips.txt']
# read by position: oddities of a header are not syntax errors there
BY_POSITION = ('calendar.txt', 'calendar_dates.txt', 'stop_times.txt')


def problems_of(rec, names):
  return [e for e in rec.problems if e.__class__.__name__ in names]


# --- files ---------------------------------------------------------------------
STRANGE = ['Stops.txt', 'stops.csv', 'readme.md', '.hidden', 'dir/agency.txt',
           'pathways.txt', 'agency.txt.bak']


def gen_files(tier):
  for n in range(len(FILES) + 1):
    for s in itertools.combinations(FILES, n):
      # all sets of missing files; quick: small and large ones
      if tier == 'quick' and 3 < n < len(FILES) - 2:
        continue
      yield (s, (), ())
  for n in (1, 2):
    for s in itertools.combinations(FILES, n):
      yield ((), s, ())
    for s in itertools.combinations(STRANGE, n):
      yield ((), (), s)
      yield (FILES[-1:], FILES[:1], s)


def run_files(x, case):
  missing, empty, strange = case
  f = feeds.base()
  f.missing = set(missing)
  for n in empty:
    f.raw[n] = ''
  for n in strange:
    f.raw[n] = 'a,b\n1,2\n'
  s, rec = load(f)
  x.step()
  found = lambda rec: sorted(
      (e.__class__.__name__, feeds.ptype(e), e.file_name)
      for e in problems_of(rec, ('MissingFile', 'EmptyFile', 'UnknownFile')))
  got = found(rec)
  want = [('EmptyFile', 'E', n) for n in empty]
  want += [('MissingFile', 'E', n) for n in missing if n in NEEDED]
  if 'calendar.txt' in missing and 'calendar_dates.txt' in missing:
    want.append(('MissingFile', 'E', 'calendar.txt'))
  want += [('UnknownFile', 'W', n) for n in strange if n[0] != '.']
  x.eq(got, sorted(want), 'files', repr(case))
  if len(missing) + len(empty) + len(strange) <= 3 or len(missing) > 10:
    # the same files in a directory
    tmp = tempfile.mkdtemp()
    try:
      for n, b in f.files().items():
        if '/' not in n:
          with open(os.path.join(tmp, n), 'wb') as out:
            out.write(b)
      s, rec = load(tmp)
    finally:
      shutil.rmtree(tmp)
    x.eq(found(rec), sorted(w for w in want if '/' not in w[2]),
         'files-directory', repr(case))
  x.state(got)
  x.outcome('%d problems' % min(len(got), 3))


# --- line ends --------------------------------------------------------------------
ENDS = {'n': '\n', 'r': '\r\n', 'R': '\r\r\n', 'c': '\n\r\n', '-': ''}
ESCAPED = {'R': '\\r\\r\\n'}


def ends_feed(n):
  """A feed with a file of many rows, and the number of lines of each."""
  f = feeds.base()
  t = f['stops.txt']
  for i in range(12):
    t.rows.append(dict(t.rows[1], stop_id=U('x%d' % i),
                       stop_name=U('Extra %d' % i), parent_station=u'',
                       location_type=u'0', stop_code=u''))
  t = f['calendar_dates.txt']
  for i in range(12):
    t.rows.append({'service_id': t.rows[0]['service_id'],
                   'date': U('201009%02d' % (i + 1)), 'exception_type': u'2'})
  f[n].rows = f[n].rows[-13:]
  return f


def gen_ends(tier):
  for n in ('stops.txt', 'calendar_dates.txt'):
    for k in range(1, 10 if tier == 'quick' else 13):
      for w in itertools.product('nr', repeat=k):
        yield (n, ''.join(w))
    for k in range(1, 6 if tier == 'quick' else 8):
      for w in itertools.product('nrR', repeat=k):
        if 'R' in w:
          yield (n, ''.join(w))
        # the last line without an end
        yield (n, ''.join(w[:-1]) + '-')
    for k in range(1, 5 if tier == 'quick' else 7):
      # blank lines among them
      for w in itertools.product('nrc', repeat=k):
        if 'c' in w:
          yield (n, ''.join(w))


def run_ends(x, case):
  n, ends = case
  f = ends_feed(n)
  t = f[n]
  t.rows = t.rows[:len(ends) - 1]
  lines = feeds.table_bytes(t).split('\n')
  data = ''.join(l + ENDS[e] for l, e in zip(lines, ends))
  f.raw[n] = data
  s, rec = load(f)
  x.step()
  found = [e for e in rec.problems
           if e.__class__.__name__ == 'InvalidLineEnd' or
           (e.__class__.__name__ == 'OtherProblem' and
            'line end' in e.description)]
  bad, crlf, lf = [], [], []
  for i, l in enumerate(data.split('\n')[:data.count('\n')]):
    k = len(l) - len(l.rstrip('\r'))
    if k == 0:
      lf.append(i + 1)
    elif k == 1:
      crlf.append(i + 1)
    else:
      bad.append(('InvalidLineEnd', n, i + 1, '\\r' * k + '\\n'))
  got = [(e.__class__.__name__, e.file_name, e.row_num, e.bad_line_end)
         for e in found if e.__class__.__name__ == 'InvalidLineEnd']
  x.eq(got, bad, 'line-end', repr(case))
  mixed = [e for e in found if e.__class__.__name__ == 'OtherProblem']
  if not (crlf and lf):
    x.eq([e.description for e in mixed], [], 'mixed', repr(case))
  else:
    def part(ns, what):
      many = 's' if len(ns) > 1 else ''
      return '%d %s line end%s (line%s %s%s)' % (
          len(ns), what, many, many, ', '.join(str(v) for v in ns[:5]),
          ', ...' if len(ns) > 5 else '')
    want = 'Found %s and %s.' % (part(crlf, 'CR LF "\\r\\n"'),
                                 part(lf, 'LF "\\n"'))
    x.eq([(e.file_name, e.description[:len(want)], feeds.ptype(e))
          for e in mixed], [(n, want, 'E')], 'mixed', repr(case))
  # whatever the line ends, these are the rows
  o, w = observe(s), expected(f)
  key = 'stops.txt' if n == 'stops.txt' else 'calendar'
  x.eq(o[key], w[key], 'rows', repr(case))
  x.state((len(bad), crlf[:6], lf[:6]))
  x.outcome('mixed' if mixed else 'bad' if bad else 'good')


# --- characters that do not belong in a line ----------------------------------------
CHARS = [('\x0c', 'ASCII Form Feed 0x0C'),
         ('\r', 'ASCII Carriage Return 0x0D, \\r'),
         ('\xe2\x80\xa8', 'Unicode LINE SEPARATOR U+2028'),
         ('\xe2\x80\xa9', 'Unicode PARAGRAPH SEPARATOR U+2029'),
         ('\xc2\x85', 'Unicode NEXT LINE SEPARATOR U+0085')]
FINE = ['\t', '\xc2\xa0', '\xe2\x80\xaa', '\xc3\x85', '\xe2\x80\x8b', '\x0b',
        'n', '\\']


def gen_chars(tier):
  for n in FILES:
    rows = len(feeds.base()[n].rows)
    for i in range(rows + 1):
      for c in range(len(CHARS)):
        yield (n, i, (c,), False)
        yield (n, i, (c, c), True)
        for d in range(c):
          if tier != 'quick' or i in (0, rows):
            yield (n, i, (d, c), False)
      for c in range(len(FINE)):
        yield (n, i, (-1 - c,), False)


def run_chars(x, case):
  n, i, cs, quoted = case
  f = feeds.base()
  lines = feeds.table_bytes(f[n]).split('\n')
  text = ''.join('x' + (CHARS[c][0] if c >= 0 else FINE[-1 - c]) + 'y'
                 for c in cs)
  lines[i] += ',' + ('"%s"' % text if quoted or '\r' in text else text)
  f.raw[n] = '\n'.join(lines)
  s, rec = load(f)
  x.step()
  got = sorted((e.file_name, e.row_num, e.description) for e in rec.problems
               if e.__class__.__name__ == 'OtherProblem' and
               e.description.startswith('Line contains'))
  want = sorted((n, i + 1, 'Line contains ' + CHARS[c][1])
                for c in set(cs) if c >= 0)
  x.eq(got, want, 'characters', repr(case))
  x.state(case)
  x.outcome('%d found' % len(got))


# --- headers ----------------------------------------------------------------------------
# (kind, argument) changes of a header
def gen_header(tier):
  for n in FILES:
    cols = feeds.base()[n].cols
    req, opt, old = COLUMNS[n]
    known = req.split() + opt.split()
    k = len(cols)
    changes = [('drop', i) for i in range(k)]
    changes += [('double', i) for i in range(k)]
    changes += [('triple', i) for i in (0, k - 1)]
    changes += [('blank', i) for i in range(k + 1)]
    changes += [('blanks', i) for i in (0, k)]
    changes += [('space', i) for i in range(k)]
    changes += [('space before', i) for i in range(k)]
    changes += [('tab', i) for i in (0, k - 1)]
    changes += [('unknown', i) for i in range(k + 1)]
    changes += [('upper', i) for i in (0, 1, k - 1)]
    changes += [('add', c) for c in known if c not in cols]
    changes += [('old', c) for c in sorted(old)]
    for c in changes:
      yield (n, (c,))
      yield (n, (('all unknown', 0), c))
    pairs = list(itertools.combinations(changes, 2))
    for j, p in enumerate(pairs):
      if p[0] == p[1]:
        continue
      if tier != 'quick' or k <= 5 or j % 5 == 0:
        yield (n, p)
    yield (n, (('all unknown', 0),))
    yield (n, (('only required', 0),))
    yield (n, (('only other', 0),))


def change(cols, n, how, arg):
  """cols: list of [text in the header, column of the feed or None]"""
  if how == 'drop':
    cols[arg] = None
  elif how == 'double':
    cols.append(list(cols[arg]))
  elif how == 'triple':
    cols += [list(cols[arg]), list(cols[arg])]
  elif how == 'blank':
    cols.insert(arg, ['', None])
  elif how == 'blanks':
    cols.insert(arg, ['  ', None])
  elif how == 'space':
    cols[arg][0] += ' '
  elif how == 'space before':
    # the csv reader may skip spaces before a value itself
    cols[arg][0] = ' ' + cols[arg][0]
  elif how == 'tab':
    cols[arg][0] += '\t'
  elif how == 'unknown':
    cols.insert(arg, ['my_column_%d' % arg, None])
  elif how == 'upper':
    cols[arg][0] = cols[arg][0].upper()
  elif how == 'add':
    cols.append([arg, None])
  elif how == 'old':
    cols.append([arg, None])
  elif how == 'all unknown':
    for i, c in enumerate(cols):
      if c:
        c[0] = 'my_%d' % i
  elif how == 'only required':
    cols[:] = [c for c in cols if c[0] in COLUMNS[n][0].split()]
  elif how == 'only other':
    cols[:] = [c for c in cols if c[0] not in COLUMNS[n][0].split()] or [
        ['my_column', None]]


def run_header(x, case):
  n, changes = case
  f = feeds.base()
  t = f[n]
  cols = [[c, c] for c in t.cols]
  # insertions last, and from the right
  order = sorted(changes, key=lambda c: (c[0] in ('blank', 'blanks',
                                                  'unknown'),
                                         -c[1] if isinstance(c[1], int)
                                         else 0))
  for how, arg in order:
    if cols and isinstance(arg, int) and arg < len(cols) and \
        cols[arg] is None and how not in ('blank', 'blanks', 'unknown'):
      x.outcome('no such change')
      return
    change(cols, n, how, arg)
  cols = [c for c in cols if c is not None]
  if not cols:
    x.outcome('no such change')
    return
  lines = [','.join(c[0] for c in cols)]
  for r in t.rows:
    lines.append(','.join(feeds.quote(r.get(c[1], u'')) if c[1] else ''
                          for c in cols))
  f.raw[n] = '\n'.join(lines) + '\n'
  s, rec = load(f)
  x.step()
  req, opt, old = COLUMNS[n]
  names = [c[0].strip() for c in cols]
  stripped = names if n in BY_POSITION else [v for v in names if v]
  known = set(req.split() + opt.split()) | set(old)
  want = []
  if n not in BY_POSITION:
    # the csv reader skips spaces before a cell, except at the ends of what
    # it is given; a cell with leading spaces is an oddity or none
    for c in cols:
      if not c[0].strip():
        want.append(('CsvSyntax', 'E', 'blank'))
      elif c[0].rstrip() != c[0]:
        want.append(('CsvSyntax', 'W', 'space'))
  unknown = set(stripped) - known
  if n not in BY_POSITION and unknown == set(stripped):
    want.append(('CsvSyntax', 'E', 'known'))
  else:
    want += [('UnrecognizedColumn', 'W', v) for v in unknown]
  want += [('MissingColumn', 'E', v) for v in req.split()
           if v not in stripped]
  want += [('DuplicateColumn', 'E', '%s %d' % (v, stripped.count(v)))
           for v in set(stripped) if stripped.count(v) > 1]
  want += [('DeprecatedColumn', 'W', v) for v in old if v in stripped]
  got = []
  for e in problems_of(rec, ('CsvSyntax', 'UnrecognizedColumn',
                             'MissingColumn', 'DuplicateColumn',
                             'DeprecatedColumn')):
    name = e.__class__.__name__
    if name == 'CsvSyntax':
      d = e.description
      v = 'blank' if 'blank' in d else 'space' if 'space char' in d else \
          'known' if 'known column' in d else d
    elif name == 'DuplicateColumn':
      v = '%s %d' % (e.header, e.count)
    else:
      v = e.column_name
    x.eq(e.file_name, n, 'header-file', repr(case))
    if name == 'DeprecatedColumn':
      x.check((old.get(v) is None) != (str(old.get(v)) in
                                       (e.reason or '')),
              'new-name', lambda: '%r: %r' % (case, e.reason))
    got.append((name, feeds.ptype(e), v))
  x.eq(sorted(got), sorted(want), 'header', '%r %r' % (case, lines[0]))
  x.state(sorted(got))
  x.outcome(changes[0][0])
  # columns nobody knows and spaces around names change nothing that is known
  if all(c[0] in ('unknown', 'space', 'space before', 'tab', 'blank',
                  'blanks', 'add') for c in changes):
    o, w = observe(s), expected(f)
    for k in w:
      a = o[k]
      if k == n and isinstance(a, dict) and k not in (
          'stop_times.txt', 'shapes.txt', 'frequencies.txt',
          'feed_info.txt'):
        a = dict((i, dict((c, v) for c, v in d.items()
                          if not c.startswith('my_')))
                 for i, d in a.items())
      x.eq(a, w[k], 'meaning', '%r %s' % (case, k))


# --- cells -------------------------------------------------------------------------------
def gen_cells(tier):
  for n in FILES:
    t = feeds.base()[n]
    for i in range(len(t.rows)):
      for k in range(-len(t.cols) + 1, 4):
        if k:
          yield (n, ((i, k),))
    for i, j in itertools.combinations(range(len(t.rows)), 2):
      for a, b in ((-1, -1), (-1, 1), (1, 2), (-2, -1)):
        if tier != 'quick' or (i + j + a) % 3 == 0:
          yield (n, ((i, a), (j, b)))


def run_cells(x, case):
  n, rows = case
  f = feeds.base()
  t = f[n]
  lines = feeds.table_bytes(t).split('\n')
  want = []
  for i, k in rows:
    if k > 0:
      lines[i + 1] += ',x' * k
    else:
      cells = [feeds.quote(t.rows[i].get(c, u'')) for c in t.cols][:k]
      if cells == ['']:
        x.outcome('a blank line')
        return
      lines[i + 1] = ','.join(cells)
      for c in t.cols[k:]:
        t.rows[i][c] = u''
    want.append((n, i + 2, 'W', 'many' if k > 0 else 'missing'))
  f.raw[n] = '\n'.join(lines)
  s, rec = load(f)
  x.step()
  got = [(e.file_name, e.row_num, feeds.ptype(e),
          'many' if 'too many cells' in e.description else 'missing')
         for e in rec.problems if e.__class__.__name__ == 'OtherProblem' and
         'cells' in e.description]
  x.eq(got, want, 'cells', repr(case))
  # as if the missing cells were blank and the others not there
  del f.raw[n]
  s2, rec2 = load(f)
  x.eq(observe(s), observe(s2), 'meaning', repr(case))
  rest = [feeds.problem_key(e, True) for e in rec.problems
          if not (e.__class__.__name__ == 'OtherProblem' and
                  'cells' in e.description)]
  # a missing cell is None or blank as a problem's value
  def plain(keys):
    return sorted(tuple(u'' if v is None else v for v in k) for k in keys)
  x.eq(plain(rest), plain(rec2.keys(True)), 'other-problems', repr(case))
  x.state((n, got))
  x.outcome('cells')


# --- both: rows under a changed header -----------------------------------------------------
def gen_both(tier):
  for n in FILES:
    f = feeds.base()
    k, rows = len(f[n].cols), len(f[n].rows)
    for how, arg in (('blank', 0), ('blank', k), ('unknown', 0),
                     ('unknown', k), ('double', 0), ('double', k - 1),
                     ('space', k - 1), ('blanks', 1)):
      for i in sorted(set((0, rows - 1))):
        for d in (-2, -1, 0, 1, 2):
          yield (n, how, arg, i, d)


def run_both(x, case):
  n, how, arg, i, d = case
  f = feeds.base()
  t = f[n]
  cols = [[c, c] for c in t.cols]
  change(cols, n, how, arg)
  lines = [[c[0] for c in cols]]
  for r in t.rows:
    lines.append([feeds.quote(r.get(c[1], u'')) if c[1] else '' for c in cols])
  line = lines[i + 1]
  if d < 0:
    del line[d:]
  line += ['x'] * d
  if line in ([], ['']):
    x.outcome('a blank line')
    return
  f.raw[n] = ''.join(','.join(l) + '\n' for l in lines)
  s, rec = load(f)
  x.step()
  got = [(e.file_name, e.row_num, feeds.ptype(e),
          'many' if 'too many cells' in e.description else 'missing')
         for e in rec.problems if e.__class__.__name__ == 'OtherProblem' and
         'cells' in e.description]
  want = [(n, i + 2, 'W', 'many' if d > 0 else 'missing')] if d else []
  x.eq(got, want, 'cells', repr(case))
  x.state(case)
  x.outcome('%d problems' % len(got))


# --- first: the first bytes of a file ------------------------------------------------------
# a byte order mark, and names of columns that start with bytes of one
BOM = '\xef\xbb\xbf'
FIRST = ['', BOM, BOM + BOM]
NAMES = [None, '\xef\xbc\xa1', '\xef\xbb\xbe', '\xef\xbf\xbd\xef\xbf\xbd',
         '\xc3\xa9', '\xc2\xbf', '\xe2\x80\xa6x', ' \xef\xbc\xa1']


def drop_unknown(got, want):
  if not isinstance(got, dict) or sorted(got) != sorted(want):
    return got
  return dict((i, dict((c, v) for c, v in d.items() if c in want[i])
               if isinstance(d, dict) else d) for i, d in got.items())


def gen_first(tier):
  for n in FILES:
    for a in range(len(FIRST)):
      for b in range(len(NAMES)):
        yield (n, a, b)
      yield (n, a, 'empty')


def run_first(x, case):
  n, a, b = case
  f = feeds.base()
  data = feeds.table_bytes(f[n])
  if b == 'empty':
    f.raw[n] = FIRST[a]
  elif NAMES[b] is None:
    f.raw[n] = FIRST[a] + data
  else:
    f.raw[n] = FIRST[a] + '\n'.join(
        (',' if i else NAMES[b] + ',') + l if l else ''
        for i, l in enumerate(data.split('\n')))
  s, rec = load(f)
  x.step()
  got = [(e.__class__.__name__, e.file_name,
          getattr(e, 'column_name', None))
         for e in problems_of(rec, ('EmptyFile', 'MissingColumn', 'CsvSyntax',
                                    'UnrecognizedColumn', 'DuplicateColumn'))]
  if b == 'empty':
    x.eq(got, [('EmptyFile', n, None)], 'first-empty', repr(case))
    x.outcome('empty')
    return
  want = []
  if NAMES[b] is not None:
    name = NAMES[b].strip()
    want = [('UnrecognizedColumn', n, name)]
    got = [(c, m, v.encode('utf-8') if isinstance(v, unicode) else v)
           for c, m, v in got]
    if n not in BY_POSITION and NAMES[b] != NAMES[b].rstrip():
      want.append(('CsvSyntax', n, None))
  x.eq(sorted(got), sorted(want), 'first', repr(case))
  o, w = observe(s), expected(f)
  for k in w:
    a = o[k]
    if k == n and isinstance(a, dict) and NAMES[b]:
      a = drop_unknown(a, w[k])
    x.eq(a, w[k], 'first-meaning', '%r %s' % (case, k))
  x.state(case)
  x.outcome('read')


SCENARIOS = [
    Scenario('files', gen_files, run_files,
             bound='all sets of up to 3 and from 11 on (thorough all) of 13 '
                   'files missing, up to 2 empty, up to 2 of 7 strange names'),
    Scenario('ends', gen_ends, run_ends,
             bound='words of up to 9 (12) line ends LF and CR LF, of up to 5 '
                   '(7) with CR CR LF or no end, of up to 4 (6) with blank '
                   'lines, for both readers'),
    Scenario('chars', gen_chars, run_chars,
             bound='5 characters, alone and in pairs, and 8 harmless ones in '
                   'every line of 13 files'),
    Scenario('header', gen_header, run_header,
             bound='every change of 14 kinds of the header of 13 files, and '
                   'pairs (quick: a fifth of those of wide files)'),
    Scenario('both', gen_both, run_both,
             bound='8 changes of the header of 13 files x first and last row '
                   'x 5 lengths'),
    Scenario('first', gen_first, run_first,
             bound='3 numbers of byte order marks x 8 first names, and '
                   'nothing else, for 13 files'),
    Scenario('cells', gen_cells, run_cells,
             bound='every row of 13 files with every shorter and up to 3 '
                   'cells longer length; pairs of rows'),
]
