# -*- coding: utf-8 -*-
"""C14: problems carry the location of the row that causes them."""
import StringIO
import csv
import datetime
import itertools
import re
import sys

import transitfeed
import feedvalidator

import feeds
from core import Scenario

TODAY = datetime.date(2010, 6, 1)

# file, column, bad value (None: see SPECIAL), problem class, reported column
FAULTS = [
    ('agency.txt', 'agency_url', u'x', 'InvalidValue', 'agency_url'),
    ('agency.txt', 'agency_timezone', u'Mars', 'InvalidValue',
     'agency_timezone'),
    ('agency.txt', 'agency_lang', u'zz-', 'InvalidValue', 'agency_lang'),
    ('agency.txt', 'agency_name', u'', 'MissingValue', 'agency_name'),
    ('agency.txt', 'agency_email', u'x', 'InvalidValue', 'agency_email'),
    ('agency.txt', 'agency_fare_url', u'x', 'InvalidValue',
     'agency_fare_url'),
    ('agency.txt', 'agency_id', u'AG2', 'DuplicateID', 'agency_id'),
    ('stops.txt', 'stop_lat', u'91', 'InvalidValue', 'stop_lat'),
    ('stops.txt', 'stop_lat', u'x', 'InvalidValue', 'stop_lat'),
    ('stops.txt', 'stop_lat', u'', 'MissingValue', 'stop_lat'),
    ('stops.txt', 'stop_lat', u'1e1', 'InvalidFloatValue', None),
    ('stops.txt', 'stop_lon', u'-181', 'InvalidValue', 'stop_lon'),
    ('stops.txt', 'stop_name', u'', 'MissingValue', 'stop_name'),
    ('stops.txt', 'location_type', u'9', 'InvalidValue', 'location_type'),
    ('stops.txt', 'stop_url', u'x', 'InvalidValue', 'stop_url'),
    ('stops.txt', 'stop_timezone', u'Mars', 'InvalidValue', 'stop_timezone'),
    ('stops.txt', 'wheelchair_boarding', u'9', 'InvalidValue',
     'wheelchair_boarding'),
    ('stops.txt', 'stop_id', u'S3', 'DuplicateID', 'stop_id'),
    ('routes.txt', 'route_type', u'x', 'InvalidValue', 'route_type'),
    ('routes.txt', 'route_type', u'', 'MissingValue', 'route_type'),
    ('routes.txt', 'route_color', u'zz', 'InvalidValue', 'route_color'),
    ('routes.txt', 'route_text_color', u'zz', 'InvalidValue',
     'route_text_color'),
    ('routes.txt', 'route_url', u'x', 'InvalidValue', 'route_url'),
    ('routes.txt', 'route_short_name', u'too long name', 'InvalidValue',
     'route_short_name'),
    ('routes.txt', 'agency_id', u'NOPE', 'InvalidValue', 'agency_id'),
    ('routes.txt', 'route_id', u'R2', 'DuplicateID', 'route_id'),
    ('trips.txt', 'route_id', u'', 'MissingValue', 'route_id'),
    ('trips.txt', 'route_id', u'NOPE', 'InvalidValue', 'route_id'),
    ('trips.txt', 'service_id', u'NOPE', 'InvalidValue', 'service_id'),
    ('trips.txt', 'shape_id', u'NOPE', 'InvalidValue', 'shape_id'),
    ('trips.txt', 'direction_id', u'9', 'InvalidValue', 'direction_id'),
    ('trips.txt', 'bikes_allowed', u'9', 'InvalidValue', 'bikes_allowed'),
    ('trips.txt', 'trip_id', u'T3', 'DuplicateID', 'trip_id'),
    ('calendar.txt', 'start_date', u'x', 'InvalidValue', 'start_date'),
    ('calendar.txt', 'end_date', u'20090101', 'InvalidValue', 'end_date'),
    ('calendar.txt', 'end_date', u'', 'MissingValue', 'end_date'),
    ('calendar.txt', 'end_date', u'29991231', 'DateOutsideValidRange', None),
    ('calendar.txt', 'monday', u'2', 'InvalidValue', 'monday'),
    ('calendar.txt', 'sunday', u'', 'MissingValue', 'sunday'),
    ('calendar.txt', 'service_id', u'WE', 'DuplicateID', 'service_id'),
    ('calendar_dates.txt', 'date', u'20100231', 'InvalidValue', 'date'),
    ('calendar_dates.txt', 'date', u'', 'MissingValue', 'date'),
    ('calendar_dates.txt', 'date', u'29991231', 'DateOutsideValidRange', None),
    ('calendar_dates.txt', 'exception_type', u'9', 'InvalidValue',
     'exception_type'),
    ('shapes.txt', 'shape_pt_lat', u'x', 'InvalidValue', 'shape_pt_lat'),
    ('shapes.txt', 'shape_pt_lon', u'999', 'InvalidValue', 'shape_pt_lon'),
    ('shapes.txt', 'shape_pt_sequence', u'-1', 'InvalidValue',
     'shape_pt_sequence'),
    ('shapes.txt', 'shape_dist_traveled', u'-1', 'InvalidValue',
     'shape_dist_traveled'),
    ('shapes.txt', 'shape_id', u'', 'MissingValue', 'shape_id'),
    ('stop_times.txt', 'arrival_time', u'x', 'InvalidValue', 'arrival_time'),
    ('stop_times.txt', 'departure_time', u'99', 'InvalidValue',
     'departure_time'),
    ('stop_times.txt', 'stop_id', u'NOPE', 'InvalidValue', 'stop_id'),
    ('stop_times.txt', 'trip_id', u'NOPE', 'InvalidValue', 'trip_id'),
    ('stop_times.txt', 'stop_sequence', u'x', 'InvalidValue',
     'stop_sequence'),
    ('stop_times.txt', 'stop_sequence', u'-1', 'InvalidValue',
     'stop_sequence'),
    ('stop_times.txt', 'pickup_type', u'9', 'InvalidValue', 'pickup_type'),
    ('stop_times.txt', 'drop_off_type', u'x', 'InvalidValue',
     'drop_off_type'),
    ('stop_times.txt', 'shape_dist_traveled', u'x', 'InvalidValue',
     'shape_dist_traveled'),
    ('stop_times.txt', 'timepoint', u'9', 'InvalidValue', 'timepoint'),
    ('frequencies.txt', 'start_time', u'x', 'InvalidValue', 'start_time'),
    ('frequencies.txt', 'end_time', u'07:00:00', 'InvalidValue', 'end_time'),
    ('frequencies.txt', 'headway_secs', u'0', 'InvalidValue', 'headway_secs'),
    ('frequencies.txt', 'exact_times', u'9', 'InvalidValue', 'exact_times'),
    ('frequencies.txt', 'trip_id', u'NOPE', 'InvalidValue', 'trip_id'),
    ('fare_attributes.txt', 'price', u'x', 'InvalidValue', 'price'),
    ('fare_attributes.txt', 'currency_type', u'QQQ', 'InvalidValue',
     'currency_type'),
    ('fare_attributes.txt', 'payment_method', u'9', 'InvalidValue',
     'payment_method'),
    ('fare_attributes.txt', 'transfers', u'9', 'InvalidValue', 'transfers'),
    ('fare_attributes.txt', 'transfer_duration', u'x', 'InvalidValue',
     'transfer_duration'),
    ('fare_attributes.txt', 'fare_id', u'F2', 'DuplicateID', 'fare_id'),
    ('fare_rules.txt', 'fare_id', u'', 'MissingValue', 'fare_id'),
    ('fare_rules.txt', 'fare_id', u'NOPE', 'InvalidValue', 'fare_id'),
    ('fare_rules.txt', 'route_id', u'NOPE', 'InvalidValue', 'route_id'),
    ('fare_rules.txt', 'origin_id', u'NOPE', 'InvalidValue', 'origin_id'),
    ('transfers.txt', 'from_stop_id', u'', 'MissingValue', 'from_stop_id'),
    ('transfers.txt', 'to_stop_id', u'NOPE', 'InvalidValue', 'to_stop_id'),
    ('transfers.txt', 'transfer_type', u'9', 'InvalidValue', 'transfer_type'),
    ('transfers.txt', 'min_transfer_time', u'-5', 'InvalidValue',
     'min_transfer_time'),
    ('feed_info.txt', 'feed_lang', u'zz-', 'InvalidValue', 'feed_lang'),
    ('feed_info.txt', 'feed_publisher_url', u'x', 'InvalidValue',
     'feed_publisher_url'),
    ('feed_info.txt', 'feed_publisher_name', u'', 'MissingValue',
     'feed_publisher_name'),
    ('feed_info.txt', 'feed_end_date', u'20090101', 'InvalidValue',
     'feed_end_date'),
]
KEYS = dict(feeds.KEYS, **{'calendar.txt': 'service_id'})
# Faulty rows that the loader skips.
SKIPPED = {
    'agency.txt': None, 'stops.txt': ('stop_id', u''),
    'routes.txt': ('agency_id', u'GONE'), 'trips.txt': None,
    'calendar.txt': ('service_id', None), 'calendar_dates.txt': None,
    'shapes.txt': ('shape_pt_lat', u'bad'),
    'stop_times.txt': ('stop_sequence', u'bad'),
    'frequencies.txt': ('trip_id', u'GONE'),
    'fare_attributes.txt': ('fare_id', None),
    'fare_rules.txt': ('fare_id', u''),
    'transfers.txt': ('from_stop_id', u''), 'feed_info.txt': None}


def stored(feed, n):
  """The rows of a file as a reader sees them: row number -> dict."""
  data = feed.files()[n]
  out = {}
  header = None
  for i, row in enumerate(csv.reader(StringIO.StringIO(data))):
    row = [c.decode('utf-8', 'replace').strip() for c in row]
    if header is None:
      header = row
    out[i + 1] = dict(zip(header, row))
  return out


def located(e):
  return hasattr(e, 'row_num') or hasattr(e, 'row') or hasattr(e, 'headers')


def consistent(x, feed, problems, what, rows=None):
  """Every location carried is a true one."""
  cache = {}
  for e in problems:
    if not located(e):
      continue
    n, num = getattr(e, 'file_name', None), getattr(e, 'row_num', None)
    key = lambda: '%s: %s' % (what, feeds.problem_key(e, True))
    if not x.check(n in feed.tables and num is not None, 'half-location', key):
      continue
    if n not in cache:
      cache[n] = stored(feed, n)
    if not x.check(num in cache[n], 'no-such-row', key):
      continue
    real = cache[n][num]
    if hasattr(e, 'row') and hasattr(e, 'headers') and num > 1:
      said = dict((feeds.txt(h), feeds.txt(v or u'').strip())
                  for h, v in zip(e.headers, e.row))
      x.check(set((k, v) for k, v in said.items() if v) ==
              set((k, v) for k, v in real.items() if v and k in said) and
              set(k for k, v in real.items() if v) <= set(e.headers),
              'row-values', lambda: '%s says %r, is %r' % (key(), said, real))
    col = getattr(e, 'column_name', None)
    cls = e.__class__.__name__
    if num > 1 and cls in ('InvalidValue', 'MissingValue') and col:
      if x.check(col in real, 'no-such-column', key):
        v = real[col]
        if cls == 'MissingValue':
          x.eq(v, u'', 'missing-elsewhere', key())
        elif isinstance(e.value, basestring):
          x.eq(feeds.txt(e.value).strip(), v, 'value-elsewhere', key())
    text = e.FormatContext()
    want = '%s:%d' % (n, num)
    x.check(want in text and (not col or not isinstance(col, str) or
                              ('column %s' % col) in text),
            'context-text', lambda: '%r lacks %r' % (text, want))


def run_feed(x, feed, what, expect, rows=()):
  """expect: list of (file, row number, class, column)."""
  pr, rec = feeds.reporter()
  s = transitfeed.Loader(StringIO.StringIO(feed.zip()), problems=pr,
                         extra_validation=False).Load()
  x.step()
  problems = list(rec.problems)
  consistent(x, feed, problems, what)
  for n, num, cls, col in expect:
    hits = [e for e in problems if e.__class__.__name__ == cls and
            (col is None or col in feeds.txt(getattr(e, 'column_name', '')))
            and getattr(e, 'file_name', None) == n and
            getattr(e, 'row_num', None) == num]
    if x.check(bool(hits), 'location', lambda: '%s: wanted %r, got %r' % (
        what, (n, num, cls, col),
        [feeds.problem_key(e, True) for e in problems])):
      x.check(all(hasattr(e, 'row') and hasattr(e, 'headers') for e in hits),
              'no-row', what)
  places = set((n, num) for n, num, _, _ in expect)
  x.state(sorted(feeds.problem_key(e, True) for e in problems))
  x.outcome('%d problems' % min(4, len(problems)))
  before = len(problems)
  s.Validate(pr, validate_children=False, today=TODAY)
  x.step()
  for e in rec.problems[before:]:
    x.check(not located(e), 'stale-location', lambda: '%s: %r' % (
        what, feeds.problem_key(e, True)))
  return problems


def with_blanks(feed, n, blanks):
  """Puts blank lines into the file before the given data rows."""
  lines = feeds.table_bytes(feed[n]).split('\n')
  out = []
  for i, l in enumerate(lines):
    out += [''] * blanks.count(i - 1) + [l]
  feed.raw[n] = '\n'.join(out)


def place(feed, n, i, row=None, blanks=()):
  return i + 2 + sum(1 for b in blanks if b <= i)


def filler(feed, n, k):
  """A faulty row of its own that the loader does not use any further."""
  t = feed[n]
  row = dict(t.rows[0])
  if SKIPPED[n] is None:
    return None
  col, v = SKIPPED[n]
  row[col] = v if v is not None else t.rows[0][col]
  if n == 'routes.txt':
    row['route_id'] = u'RX%d' % k
    row['route_long_name'] = u'Long %d' % k
  return row


# ---- one fault at every place ---------------------------------------------------
BLANKS = [(), (0,), (0, 0, 1), (1,), (2, 2)]


def make(f, case):
  k, i, blanks, prior, order = case
  n, col, bad, cls, rcol = FAULTS[k]
  t = f[n]
  if order:
    t.rows.reverse()
  row = t.rows[i]
  if cls == 'DuplicateID':
    # the later of the two rows is the one at fault
    others = [r for r in t.rows if r is not row]
    row[col] = others[0][col]
    i = max(t.rows.index(row), t.rows.index(others[0]))
  else:
    row[col] = bad
    if rcol == 'end_time' and row['start_time'] <= bad:
      row['start_time'] = u'09:00:00'
  for p in range(prior):
    fill = filler(f, n, p)
    if fill is not None:
      t.rows.insert(0, fill)
      i += 1
  if blanks:
    with_blanks(f, n, list(blanks))
  return n, place(f, n, i, None, blanks), cls, rcol


def gen_one(tier):
  f = feeds.base()
  for k, (n, col, bad, cls, rcol) in enumerate(FAULTS):
    rows = len(f[n].rows)
    for i in range(rows):
      if cls == 'DuplicateID' and rows < 2:
        continue
      for b in BLANKS if tier != 'quick' else (BLANKS[(i + k) % 5],
                                               BLANKS[0]):
        for prior in (0, 1, 2):
          if prior and SKIPPED[n] is None:
            continue
          if prior and cls == 'DuplicateID' and n in ('calendar.txt',
                                                      'fare_attributes.txt'):
            continue
          for order in (0, 1):
            if tier == 'quick' and (i + prior + order) % 2 and b:
              continue
            yield (k, i, b, prior, order)


def run_one(x, case):
  f = feeds.base()
  n, num, cls, col = make(f, case)
  if case[3] and n in ('calendar.txt', 'fare_attributes.txt') and \
      FAULTS[case[0]][1] == KEYS[n]:
    x.outcome('skip')
    return
  exp = [(n, num, cls, col)]
  if case[3] and n in ('calendar.txt', 'fare_attributes.txt'):
    # the filler comes first and so is the row that is kept
    rows = stored(f, n)
    key = KEYS[n]
    first = dict((r.get(key), j) for j, r in sorted(rows.items(),
                                                    reverse=True) if j > 1)
    if first[rows[num][key]] != num and n == 'calendar.txt':
      exp = [(n, num, 'DuplicateID', key)]
  run_feed(x, f, repr((FAULTS[case[0]], case)), exp)


# ---- two faults -------------------------------------------------------------------
def gen_two(tier):
  m = len(FAULTS)
  for a in range(m):
    for b in range(m):
      if a == b or FAULTS[a][:2] == FAULTS[b][:2]:
        continue
      same = FAULTS[a][0] == FAULTS[b][0]
      if tier == 'quick' and not same and (a * 3 + b) % 5:
        continue
      yield (a, b)


def run_two(x, case):
  f = feeds.base()
  exp = []
  for j, k in enumerate(case):
    n, col, bad, cls, rcol = FAULTS[k]
    rows = f[n].rows
    i = (0 if j == 0 else len(rows) - 1)
    if cls == 'DuplicateID':
      continue
    if n == 'feed_info.txt' or rows[i][col] == bad:
      continue
    rows[i][col] = bad
    exp.append((n, i + 2, cls, rcol))
  # Only the first of two faults of one row need be reported: leave those out.
  places = [e[:2] for e in exp]
  exp = [e for e in exp if places.count(e[:2]) == 1]
  # What a fault does to other rows is judged by consistency alone.
  run_feed(x, f, repr([FAULTS[k] for k in case]), exp)


# ---- a skipped last row and problems no row causes --------------------------------
AFTER = ['none', 'empty-next', 'missing', 'dup-column', 'unknown-column',
         'expired', 'unused-stop', 'nul', 'no-stop-times', 'long-row',
         'mixed-eol']


def gen_stale(tier):
  for n in SKIPPED:
    if SKIPPED[n] is None:
      continue
    for many in (1, 2):
      for a in AFTER:
        for target in feeds.base().tables if a in (
            'empty-next', 'missing', 'dup-column', 'unknown-column', 'nul',
            'long-row', 'mixed-eol') else ('stops.txt',):
          yield (n, many, a, target)


def run_stale(x, case):
  n, many, after, target = case
  f = feeds.base()
  for j in range(many):
    f[n].rows.append(filler(f, n, j))
  if after == 'empty-next':
    f.raw[target] = ''
  elif after == 'missing':
    f.missing.add(target)
  elif after == 'dup-column':
    f[target].cols.append(f[target].cols[0])
  elif after == 'unknown-column':
    f[target].cols.append('foo')
  elif after == 'expired':
    for r in f['calendar.txt'].rows:
      r['end_date'] = u'20100301'
    for r in f['feed_info.txt'].rows:
      r['feed_end_date'] = u''
    f['calendar_dates.txt'].rows = []
  elif after == 'unused-stop':
    f['stops.txt'].rows.append(dict(f['stops.txt'].rows[2], stop_id=u'SX',
                                    stop_lat=u'37'))
  elif after == 'nul':
    f.raw[target] = f.files()[target] + '\0'
  elif after == 'no-stop-times':
    f['stop_times.txt'].rows = f['stop_times.txt'].rows[-1:]
  elif after == 'long-row':
    f.raw[target] = f.files()[target] + ',' * 30 + '\n'
  elif after == 'mixed-eol':
    f.raw[target] = f.files()[target].replace('\n', '\r\n', 1)
  problems = run_stale_feed(x, f, repr(case))


def run_stale_feed(x, f, what):
  pr, rec = feeds.reporter()
  s = transitfeed.Loader(StringIO.StringIO(f.zip()), problems=pr,
                         extra_validation=False).Load()
  x.step()
  for e in rec.problems:
    cls = e.__class__.__name__
    key = lambda: '%s: %r' % (what, feeds.problem_key(e, True))
    if cls in ('EmptyFile', 'MissingFile', 'DuplicateColumn', 'FileFormat',
               'UnknownFile'):
      x.check(not located(e), 'stale-location', key)
    elif cls in ('UnrecognizedColumn', 'MissingColumn'):
      x.eq(getattr(e, 'row_num', 1), 1, 'header-location', key())
  sane = [e for e in rec.problems if getattr(e, 'file_name', None) not in f.raw
          and getattr(e, 'file_name', None) not in f.missing]
  consistent(x, f, [e for e in sane if e.__class__.__name__ not in
                    ('UnrecognizedColumn', 'DuplicateColumn')], what)
  for n in f.raw:
    for e in rec.problems:
      if e.__class__.__name__ == 'OtherProblem' and \
          getattr(e, 'file_name', None) == n and \
          'cells (commas)' in e.FormatProblem():
        x.eq(e.row_num, f.raw[n].count('\n') + (not f.raw[n].endswith('\n')),
             'cells-row', what)
  before = len(rec.problems)
  s.Validate(pr, validate_children=False, today=TODAY)
  x.step()
  x.state(sorted(set(k[:3] for k in rec.keys())))
  x.outcome('after %d' % min(3, len(rec.problems) - before))
  for e in rec.problems[before:]:
    x.check(not located(e), 'stale-location', lambda: '%s: %r' % (
        what, feeds.problem_key(e, True)))


# ---- encodings and row lengths, every file and row --------------------------------
def gen_raw(tier):
  f = feeds.base()
  for n, t in f.tables.items():
    for i in range(len(t.rows)):
      for c in range(len(t.cols)):
        for b in ((), (0,), (0, 1, 1)):
          yield (n, i, c, 'latin1', b)
        # columns in other orders, and one nobody knows
        for order in ('reversed', 'turned', 'swapped', 'extra'):
          yield (n, i, c, 'latin1', (), order)
      for b in BLANKS:
        yield (n, i, 0, 'short', b)
        yield (n, i, 0, 'long', b)


def run_raw(x, case):
  n, i, c, kind, blanks = case[:5]
  f = feeds.base()
  t = f[n]
  if len(case) > 5:
    cols = list(t.cols)
    t.cols[:] = {'reversed': cols[::-1], 'turned': cols[1:] + cols[:1],
                 'swapped': cols[-1:] + cols[1:-1] + cols[:1],
                 'extra': ['custom'] + cols}[case[5]]
    if case[5] == 'extra':
      for r in t.rows:
        r['custom'] = u'1'
    c = t.cols.index(cols[c])
  lines = feeds.table_bytes(t).split('\n')
  cells = next(csv.reader([lines[i + 1]]))
  if kind == 'latin1':
    cells[c] = 'caf\xe9'
    lines[i + 1] = ','.join(feeds.quote(v) for v in cells)
  elif kind == 'short':
    lines[i + 1] = ','.join(feeds.quote(v) for v in cells[:-1])
  else:
    lines[i + 1] += ',x'
  out = []
  for j, l in enumerate(lines):
    out += [''] * blanks.count(j - 1) + [l]
  f.raw[n] = '\n'.join(out)
  num = place(f, n, i, None, blanks)
  pr, rec = feeds.reporter()
  transitfeed.Loader(StringIO.StringIO(f.zip()), problems=pr,
                     extra_validation=False).Load()
  x.step()
  if kind == 'latin1':
    hits = [e for e in rec.problems if e.__class__.__name__ == 'InvalidValue'
            and getattr(e, 'reason', '') == 'Unicode error']
    col = t.cols[c]
  else:
    hits = [e for e in rec.problems if e.__class__.__name__ == 'OtherProblem']
    col = None
  x.state(sorted(feeds.problem_key(e, True) for e in rec.problems))
  x.outcome(kind)
  x.eq([(e.file_name, e.row_num, getattr(e, 'column_name', None))
        for e in hits], [(n, num, col)], 'raw-location', repr(case))


# ---- what the report says ---------------------------------------------------------
class Options(object):
  output = 'CONSOLE'
  memory_db = True
  check_duplicate_trips = False
  limit_per_type = 50
  latest_version = transitfeed.__version__
  service_gap_interval = None
  extension = None
  error_types_ignore_list = None
  performance = None
  manual_entry = False


def gen_report(tier):
  for k, fault in enumerate(FAULTS):
    if fault[3] in ('DuplicateID', 'InvalidFloatValue',
                    'DateOutsideValidRange'):
      continue
    rows = len(feeds.base()[fault[0]].rows)
    for i in sorted(set((0, rows - 1))):
      yield (k, i)


def run_report(x, case):
  k, i = case
  n, col, bad, cls, rcol = FAULTS[k]
  f = feeds.base()
  f[n].rows[i][col] = bad
  if rcol == 'end_time':
    f[n].rows[i]['start_time'] = u'09:00:00'
  buf = StringIO.StringIO()
  out = sys.stdout
  feedvalidator.RunValidationOutputToFile(StringIO.StringIO(f.zip()),
                                          Options(), buf)
  x.step()
  html = buf.getvalue()
  place = 'line %d of <code>%s</code>' % (i + 2, n)
  x.check(place in html, 'report-place', lambda: '%r not in report %r' % (
      place, re.findall('line [0-9]+ of <code>[^<]*</code>', html)))
  real = stored(f, n)[i + 2]
  # the table below shows the row; the faulty column is marked
  at = html.find(place)
  table = html[at:html.find('</table>', at)]
  head = re.findall(r'<th[^>]*>(.*?)</th>', table)
  cells = re.findall(r'<td([^>]*)>(.*?)</td>', table)
  if head and cells:
    shown = dict(zip(head, [c[1] for c in cells]))
    x.check(all(shown.get(c, '') == v.encode('utf-8').replace('&', '&amp;')
                for c, v in real.items() if v),
            'report-row', lambda: '%r %r' % (shown, real))
    if rcol:
      marked = [h for h, c in zip(head, cells) if 'problem' in c[0]]
      x.eq(marked, [rcol], 'report-column', repr(case))
  else:
    x.fail('report-table', '%r: %r' % (case, table[:200]))
  x.outcome(n)


SCENARIOS = [
    Scenario('one', gen_one, run_one,
             bound='82 faults x every row x blank lines x 0-2 skipped faulty '
                   'rows before x both row orders'),
    Scenario('two', gen_two, run_two,
             bound='all pairs of faults in one file, a fifth of (all) pairs '
                   'across files'),
    Scenario('stale', gen_stale, run_stale,
             bound='9 files ending in 1-2 skipped rows x 11 later problems x '
                   '13 files'),
    Scenario('raw', gen_raw, run_raw,
             bound='undecodable bytes in every cell, also with columns in 4 '
                   'other orders, short and long rows at every place, '
                   'with blank lines'),
    Scenario('report', gen_report, run_report,
             bound='76 faults in the first and last row: place, row and column '
                   'of the HTML report'),
]
