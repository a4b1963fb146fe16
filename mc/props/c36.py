# -*- coding: utf-8 -*-
"""C36: the programs do what their options say, in every combination and form.

The programs are run with all pairs of option values, in all their forms and
places, and with all on/off combinations; what they print, write, serve and
return is compared with what each option on its own is documented to do."""
import datetime
import itertools
import os
import re
import shutil
import socket
import StringIO
import sys
import tempfile
import threading
import time
import types
import urllib2

from java.net import ServerSocket

import transitfeed

import c31
import feeds
import prog
from core import Scenario
from feeds import U, load, observe, expected


class Place(object):
  """A scratch directory that is also the current one, with files."""

  def __init__(self, files):
    self.old = os.getcwd()
    self.dir = os.path.realpath(tempfile.mkdtemp(prefix='mc36-'))
    for n, b in files.items():
      p = os.path.join(self.dir, n)
      if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
      h = open(p, 'wb')
      h.write(b)
      h.close()
    os.chdir(self.dir)

  def files(self):
    out = {}
    for base, _, names in os.walk(self.dir):
      for n in names:
        p = os.path.join(base, n)
        h = open(p, 'rb')
        out[os.path.relpath(p, self.dir)] = h.read()
        h.close()
    return out

  def close(self):
    os.chdir(self.old)
    shutil.rmtree(self.dir)


class Browser(types.ModuleType):
  def __init__(self):
    types.ModuleType.__init__(self, 'webbrowser')
    self.shown = []

  def open(self, url, *a, **kw):
    self.shown.append(url)
    return True

  open_new = open_new_tab = open


def run(name, argv, place, answer='', modules=None):
  """(exit code, output, pages shown)"""
  browser = Browser()
  old = sys.stdin
  sys.stdin = StringIO.StringIO(answer)
  try:
    code, text = prog.run(name, argv, dict(modules or {}, webbrowser=browser))
  finally:
    sys.stdin = old
  return code, text, browser.shown


# --- the validator -------------------------------------------------------------
UNUSED = 7
GAP = 10


def validator_feed(today):
  """7 unused stops, two pairs of equal trips, ten days without service."""
  day = lambda n: U((today + datetime.timedelta(days=n)).strftime('%Y%m%d'))
  f = feeds.Feed()
  t = f.tables
  T = feeds.T
  t['agency.txt'] = T(
      'agency_id,agency_name,agency_url,agency_timezone',
      ('A', 'Agency', 'http://a.example', 'America/Los_Angeles'))
  stops = [('S%d' % i, 'Stop %d' % i, '%.2f' % (36 + i / 100.0), '-116.00')
           for i in range(3)]
  stops += [('X%d' % i, 'Unused%d' % i, '%.2f' % (37 + i / 100.0), '-116.00')
            for i in range(UNUSED)]
  t['stops.txt'] = T('stop_id,stop_name,stop_lat,stop_lon', *stops)
  t['routes.txt'] = T(
      'route_id,agency_id,route_short_name,route_long_name,route_type',
      ('R', 'A', '1', 'Line', '3'))
  t['calendar.txt'] = T(
      'service_id,start_date,end_date,monday,tuesday,wednesday,thursday,'
      'friday,saturday,sunday',
      ('W', day(-3), day(200)) + ('1',) * 7)
  t['calendar_dates.txt'] = T(
      'service_id,date,exception_type',
      *[('W', day(20 + i), '2') for i in range(GAP)])
  trips, times = [], []
  for i, h in enumerate((8, 8, 9, 10, 10)):
    trips.append(('R', 'W', 'T%d' % i))
    for k in range(3):
      times.append(('T%d' % i, '%02d:%02d:00' % (h, 10 * k),
                    '%02d:%02d:00' % (h, 10 * k), 'S%d' % k, '%d' % (k + 1)))
  t['trips.txt'] = T('route_id,service_id,trip_id', *trips)
  t['stop_times.txt'] = T(
      'trip_id,arrival_time,departure_time,stop_id,stop_sequence', *times)
  return f


def plain_feed(today):
  f = validator_feed(today)
  t = f.tables
  t['stops.txt'].rows[3:] = []
  t['calendar_dates.txt'].rows[1:] = []
  t['trips.txt'].rows[1:] = []
  t['stop_times.txt'].rows[3:] = []
  return f


# option -> values, the first one is the default; each value is (what is
# given, what it means)
OPTIONS = [
    ('duplicates', [((), False), (('-d',), True),
                    (('--duplicate_trip_check',), True), (('--dup',), True)]),
    ('limit', [((), 5), (('-l', '1'), 1), (('-l2',), 2),
               (('--limit_per_type=3',), 3), (('--limit_per_type', '7'), 7),
               (('-l', '100'), 100)]),
    ('ignore', [((), ()), (('--error_types_ignore_list=UnusedStop',),
                           ('UnusedStop',)),
                (('--error_types_ignore_list', 'DuplicateTrip,NoSuchProblem,'
                  'UnusedStop'), ('UnusedStop', 'DuplicateTrip')),
                (('--error_types_ignore_list=TooManyDaysWithoutService',),
                 ('TooManyDaysWithoutService',)),
                (('--error_types_ignore_list=Unused',), ())]),
    ('gap', [((), 13), (('--service_gap_interval=10',), 10),
             (('--service_gap_interval', '11'), 11),
             (('--service_gap_interval=3',), 3)]),
    ('memory', [((), False), (('-m',), True), (('--memory_db',), True)]),
    ('output', [((), 'validation-results.html'), (('-o', 'out.html'),
                                                  'out.html'),
                (('--output=sub/out.txt',), 'sub/out.txt'),
                (('-oCONSOLE',), None), (('--output', 'CONSOLE'), None),
                (('--output=console',), None)]),
    ('prompt', [(('-n',), 'no'), (('--noprompt',), 'no'), ((), 'browser'),
                ((), 'ask')]),
    ('version', [(('--latest_version=' + transitfeed.__version__,), False),
                 (('--latest_version', '99.1.2'), True)]),
    ('feed', [('plain', 'feed.zip'), ('quoted', '"feed.zip"'),
              ('path', 'sub/feed.zip'), ('directory', 'feed')]),
    ('place', [('last', 0), ('first', 1), ('middle', 2), ('reversed', 3)]),
]
NAMES = [n for n, _ in OPTIONS]
VALUES = dict(OPTIONS)


def gen_validator(tier):
  base = [0] * len(OPTIONS)
  seen = set()
  for kind in ('faulty', 'sound'):
    for n in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
      if n == 2 and kind == 'sound' and tier == 'quick':
        continue
      for which in itertools.combinations(range(len(OPTIONS)), n):
        for vs in itertools.product(*[range(1, len(OPTIONS[i][1]))
                                      for i in which]):
          w = list(base)
          for i, v in zip(which, vs):
            w[i] = v
          if (kind, tuple(w)) not in seen:
            seen.add((kind, tuple(w)))
            yield (kind, tuple(w))
  # everything on or off
  pick = (1, 1, 1, 1, 1, 1, 2, 1, 1, 2)
  for on in itertools.product((0, 1), repeat=len(OPTIONS)):
    if tier == 'quick' and sum(on) % 2:
      continue
    w = tuple(p if o else 0 for p, o in zip(pick, on))
    if ('faulty', w) not in seen:
      seen.add(('faulty', w))
      yield ('faulty', w)


def one_day(r):
  """Runs r(x, case, today) again if midnight passed meanwhile."""
  def g(x, case):
    today = datetime.date.today()
    before = list(x.case_failures)
    r(x, case, today)
    if datetime.date.today() != today:
      x.case_failures[:] = before
      r(x, case, datetime.date.today())
  return g


def run_validator(x, case, today):
  kind, w = case
  given = dict((n, VALUES[n][v][0]) for n, v in zip(NAMES, w))
  mean = dict((n, VALUES[n][v][1]) for n, v in zip(NAMES, w))
  f = validator_feed(today) if kind == 'faulty' else plain_feed(today)
  z = f.zip()
  files = {'feed.zip': z, 'sub/feed.zip': z}
  for n, b in f.files().items():
    files['feed/' + n] = b
  place = Place(files)
  try:
    options = [given[n] for n in NAMES if n not in ('feed', 'place')]
    options = [o for o in options if o]
    feed = (mean['feed'],)
    answer = ''
    if mean['prompt'] == 'ask':
      feed, answer = (), mean['feed'] + '\n'
    if mean['place'] == 0:
      argv = options + [feed]
    elif mean['place'] == 1:
      argv = [feed] + options
    elif mean['place'] == 2:
      argv = options[:len(options) // 2] + [feed] + options[
          len(options) // 2:]
    else:
      argv = options[::-1] + [feed]
    argv = [a for o in argv for a in o]
    code, text, shown = run('feedvalidator.py', argv, place, answer)
    after = place.files()
    where = place.dir
  finally:
    place.close()
  x.step()
  what = '%s %r' % (kind, argv)
  count = {'UnusedStop': 0, 'DuplicateTrip': 0,
           'TooManyDaysWithoutService': 0}
  if kind == 'faulty':
    count['UnusedStop'] = UNUSED
    if mean['duplicates']:
      count['DuplicateTrip'] = 2
    if mean['gap'] <= GAP:
      count['TooManyDaysWithoutService'] = 1
  for n in mean['ignore']:
    count[n] = 0
  total = sum(count.values())
  x.eq(code, 1 if total else 0, 'validator-exit', '%s %s' % (what,
                                                             text[-600:]))
  found = re.findall(r'(\d+) warnings?\b', text)
  if total:
    x.eq(found[-1:], [str(total)], 'validator-count', what)
  else:
    x.check('feed validated successfully' in text and not found,
            'validator-success', lambda: '%s: %r' % (what, text))
  new = sorted(n for n in after if after[n] != files.get(n))
  gone = sorted(n for n in files if n not in after)
  x.eq((new, gone), ([mean['output']] if mean['output'] else [], []),
       'validator-files', what)
  x.eq(shown, ['file://' + os.path.join(where, mean['output'])]
       if mean['prompt'] != 'no' and mean['output'] else [],
       'validator-browser', what)
  page = text if mean['output'] is None else after.get(mean['output'], '')
  keep = UNUSED + 2 if mean['output'] is None else mean['limit']
  x.eq(len(set(re.findall(r'Unused\d', page))), min(keep,
                                                    count['UnusedStop']),
       'validator-kept', what)
  pairs = set(re.findall(r'T0\b.*T1\b|T1\b.*T0\b|T3\b.*T4\b|T4\b.*T3\b',
                         page))
  x.check(bool(pairs) == bool(count['DuplicateTrip']), 'validator-duplicates',
          lambda: '%s: %r' % (what, pairs))
  gap = '%d consecutive days' % GAP
  x.eq(gap in page.replace('\n', ' ') or
       re.search(r'no service.*%d' % GAP, page) is not None or
       'days without' in page.lower(),
       bool(count['TooManyDaysWithoutService']), 'validator-gap', what)
  x.eq('99.1.2' in page, mean['version'], 'validator-version', what)
  x.state((kind, code, total, mean['output']))
  x.outcome('exit %r' % code)


# --- the viewer ---------------------------------------------------------------------
PAGE = 'agency=[agency] key=[key] host=[host] edit=[forbid_editing]'
BUILT_IN = None     # some key of its own
FEEDS = [(('--feed', 'one.zip'), ''), (('--feed_filename=one.zip',), ''),
         (('one.zip',), ''), ((), 'one.zip\n'), ((), '"one.zip"\n'),
         (('--feed=one.zip', 'two.zip'), ''), (('onedir',), '')]
KEYS = [((), None, BUILT_IN), ((), 'KeyOfKeyTxt\n', 'KeyOfKeyTxt'),
        (('--key', 'aLiteralKey'), None, 'aLiteralKey'),
        (('--key=aLiteralKey',), 'KeyOfKeyTxt', 'aLiteralKey'),
        (('--key=mykey.dat',), 'KeyOfKeyTxt', 'KeyOfAFile'),
        (('--key', 'mykey.dat'), None, 'KeyOfAFile'),
        ((), 'mykey.dat', 'KeyOfAFile'), ((), '', BUILT_IN)]
HOSTS = [((), 'maps.google.com'), (('--host=maps.example',), 'maps.example'),
         (('--host', 'm.example:80'), 'm.example:80')]
DIRS = [((), None), (('--file_dir=static',), 'static'),
        (('--file_dir', 'other'), 'other')]
PROMPT = [(), ('-n',), ('--noprompt',)]


def gen_viewer(tier):
  base = (0, 0, 0, 0, 0)
  dims = [len(FEEDS), len(KEYS), len(HOSTS), len(DIRS), len(PROMPT)]
  seen = set()
  for n in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
    for which in itertools.combinations(range(5), n):
      for vs in itertools.product(*[range(1, dims[i]) for i in which]):
        if tier == 'quick' and n == 2 and sum(vs) % 2:
          continue
        w = list(base)
        for i, v in zip(which, vs):
          w[i] = v
        if w[4] and FEEDS[w[0]][1]:
          continue      # nothing to read the feed from
        yield tuple(w)


def free_port():
  s = ServerSocket(0)
  p = s.getLocalPort()
  s.close()
  return p


def tiny(name):
  f = plain_feed(datetime.date.today())
  f['agency.txt'].rows[0]['agency_name'] = U(name)
  return f


def get(port, path, ended):
  """Status and body of a page; waits for the server to come up."""
  end = time.time() + 60
  while True:
    try:
      c = socket.create_connection(('127.0.0.1', port), 10)
      break
    except (socket.error, socket.timeout):
      if ended or time.time() > end:
        return None, ''
      time.sleep(0.02)
  try:
    c.settimeout(20)
    c.sendall('GET %s HTTP/1.0\r\n\r\n' % path)
    parts = []
    while True:
      b = c.recv(65536)
      if not b:
        break
      parts.append(b)
  finally:
    c.close()
  head, _, body = ''.join(parts).partition('\r\n\r\n')
  return head.split(' ')[1:2], body


def no_network(*a, **kw):
  raise urllib2.URLError('no network here')


def run_viewer(x, case):
  for i in range(3):
    if serve(x, case, i == 2):
      return


def serve(x, case, last):
  """Runs the viewer; False if its port had been taken meanwhile."""
  fi, ki, hi, di, pi = case
  import schedule_viewer
  (feed, answer), (key, keyfile, want_key) = FEEDS[fi], KEYS[ki]
  (host, want_host), (fdir, want_dir) = HOSTS[hi], DIRS[di]
  one = tiny('Agency one')
  files = {'one.zip': one.zip(), 'two.zip': tiny('Agency two').zip(),
           'static/index.html': 'static ' + PAGE, 'static/a.js': 'AAA',
           'other/index.html': 'other ' + PAGE, 'other/a.js': 'BBB',
           'mykey.dat': ' KeyOfAFile\n'}
  if keyfile is not None:
    files['key.txt'] = keyfile
  for n, b in one.files().items():
    files['onedir/' + n] = b
  place = Place(files)
  port = free_port()
  servers = []

  class Handler(schedule_viewer.ScheduleRequestHandler):
    def setup(self):
      servers.append(self.server)
      return schedule_viewer.ScheduleRequestHandler.setup(self)

    def log_message(self, *a):
      pass

  argv = list(fdir) + list(key) + list(feed) + list(host) + list(
      PROMPT[pi]) + ['--port=%d' % port]
  old = sys.argv, sys.stdin, sys.stdout, urllib2.urlopen
  ended = []

  def main():
    try:
      schedule_viewer.main(Handler)
      ended.append('returned')
    except BaseException as e:
      ended.append('%s %s' % (e.__class__.__name__, e))
  out = prog.Out()
  sys.argv = ['schedule_viewer.py'] + argv
  sys.stdin, sys.stdout = StringIO.StringIO(answer), out
  urllib2.urlopen = no_network
  try:
    th = threading.Thread(target=main)
    th.setDaemon(True)
    th.start()
    status, body = get(port, '/', ended)
    status2, script = get(port, '/file/a.js', ended)
    status3, rows = get(port, '/json/routes', ended)
    still = list(ended)
    for s in servers[:1]:
      s.shutdown()
      s.server_close()
    th.join(30)
  finally:
    sys.argv, sys.stdin, sys.stdout, urllib2.urlopen = old
    place.close()
  if not last and 'in use' in ''.join(still):
    return False
  x.step()
  what = repr(argv)
  x.eq((status, still), (['200'], []), 'viewer-runs', what + out.text())
  if want_dir:
    m = re.search('key=([A-Za-z0-9_-]{20,}) host', body)
    if want_key is None and m:
      want_key = m.group(1)
    x.eq(body, want_dir + ' ' + PAGE.replace('[agency]', 'Agency one')
         .replace('[key]', want_key or '').replace('[host]', want_host)
         .replace('[forbid_editing]', 'true'), 'viewer-page', what)
    x.eq((status2, script), (['200'], {'static': 'AAA', 'other': 'BBB'}[
        want_dir]), 'viewer-file', what)
  else:
    x.check(re.search(r'[?&]key=%s[&"\']' % re.escape(want_key)
                      if want_key else r'[?&]key=[A-Za-z0-9_-]{20,}[&"\']',
                      body) and '<title>Agency one</title>' in body,
            'viewer-page', lambda: '%s: %r' % (what, body[:3000]))
    x.eq(status2, ['404'], 'viewer-file', what)
  x.check(status3 == ['200'] and '"R"' in rows, 'viewer-data',
          lambda: '%s: %r' % (what, rows))
  x.check(':%d/' % port in out.text(), 'viewer-says',
          lambda: '%s: %r' % (what, out.text()))
  x.state(case)
  x.outcome('served')
  return True


# --- wrong usage ---------------------------------------------------------------------
USAGE = [
    ('feedvalidator.py', 2, [
        ('-n',), ('-n', 'feed.zip', 'feed.zip'), ('--nonsense', 'feed.zip'),
        ('-l', 'many', 'feed.zip'), ('-n', '--service_gap_interval=x',
                                     'feed.zip'), ('-z', 'feed.zip'),
        ('feed.zip', '-o')]),
    ('merge.py', 2, [
        (), ('feed.zip',), ('feed.zip', 'feed.zip'),
        ('feed.zip', 'feed.zip', 'out.zip', 'more.zip'),
        ('--nonsense', 'feed.zip', 'feed.zip', 'out.zip'),
        ('feed.zip', 'feed.zip', 'out.zip', '--cutoff_date')]),
    ('kmlwriter.py', 2, [
        (), ('-a', 'high', 'feed.zip'), ('--nonsense', 'feed.zip'),
        ('feed.zip', '--date_filter')]),
    ('unusual_trip_filter.py', 2, [
        (), ('feed.zip', 'feed.zip'), ('-t', 'few', 'feed.zip'),
        ('--nonsense', 'feed.zip'), ('feed.zip', '-o')]),
    ('shape_importer.py', 2, [
        (), ('a.shp',), ('--source_gtfs=feed.zip', 'a.shp'),
        ('--dest_gtfs=out.zip', 'a.shp'),
        ('--source_gtfs=feed.zip', '--dest_gtfs=out.zip'),
        ('--source_gtfs=feed.zip', '--dest_gtfs=out.zip',
         '--max_distance=far', 'a.shp'),
        ('--nonsense', '--source_gtfs=feed.zip', '--dest_gtfs=out.zip',
         'a.shp')]),
    ('schedule_viewer.py', 2, [
        ('--port=http', 'feed.zip'), ('--nonsense', 'feed.zip'),
        ('feed.zip', '--key')]),
    ('schedule_viewer.py', 1, [
        ('--file_dir=nowhere', 'feed.zip'), ('--file_dir', '.', 'feed.zip')]),
    ('misc/import_ch_zurich.py', 2, [('--nonsense',), ('--in_file',)]),
]
HELPFUL = ['feedvalidator.py', 'merge.py', 'kmlwriter.py',
           'unusual_trip_filter.py', 'shape_importer.py',
           'schedule_viewer.py']


def gen_usage(tier):
  for name, code, all_args in USAGE:
    for args in all_args:
      yield (name, args, code)
  for name in HELPFUL:
    for a in (('--help',), ('-h',), ('feed.zip', '--help'),
              ('--help', '--nonsense')):
      yield (name, a, 'help')
    for a in (('--version',), ('feed.zip', '--version')):
      yield (name, a, 'version')


def run_usage(x, case):
  name, args, want = case
  before = {'feed.zip': plain_feed(datetime.date.today()).zip()}
  place = Place(before)
  old = urllib2.urlopen
  urllib2.urlopen = no_network
  try:
    code, text, shown = run(name, args, place, '',
                            {'ogr': c31.Ogr({'a.shp': []})})
    after = place.files()
  finally:
    urllib2.urlopen = old
    place.close()
  x.step()
  x.eq(code, want if isinstance(want, int) else 0, 'usage-exit', repr(case))
  x.eq((after, shown), (before, []), 'usage-files', repr(case))
  if want == 'help':
    x.check('Usage: %s' % name in text or 'usage: %s' % name in text,
            'usage-help', lambda: '%r: %r' % (case, text))
  elif want == 'version':
    x.eq(text.split(), [name, transitfeed.__version__], 'usage-version',
         repr(case))
  x.state(case)
  x.outcome(repr(want))


# --- columns of a shape file ----------------------------------------------------------
POINTS = ((36.0, -116.0), (36.2, -116.0))


def gen_columns(tier):
  for feats in itertools.product(range(0, 3), repeat=2):
    for n in (1, 2):
      for keys in (None, 'ID', 'NAME,KIND'):
        for v in (None, 0, 1, 2, 3):
          yield ('print', feats[:n], keys, v)
          if feats[0] and n == 1:
            yield ('import', feats[:n], keys, v)


def run_columns(x, case):
  what, feats, keys, verbosity = case
  f = plain_feed(datetime.date.today())
  before = {'feed.zip': f.zip()}
  shapes = {}
  for i, n in enumerate(feats):
    shapes['%d.shp' % i] = [((100 * i + k, 'name%d' % k, 'kind'),
                             ((36.0, -116.0), (36.01, -116.0),
                              (36.02, -116.0 + k)))
                            for k in range(n)]
  argv = ['--source_gtfs=feed.zip', '--dest_gtfs', 'out.zip']
  if what == 'print':
    argv.append('--print_columns')
  if keys:
    argv.append('--keycols=' + keys)
  if verbosity is not None:
    argv.append('--verbosity=%d' % verbosity)
  argv += sorted(shapes)
  place = Place(before)
  try:
    try:
      code, text, _ = run('shape_importer.py', argv, place, '',
                          {'ogr': c31.Ogr(shapes)})
    except Exception as e:
      code, text = e.__class__.__name__, ''
    after = place.files()
  finally:
    place.close()
  x.step()
  if what == 'print':
    x.eq(sorted(after), sorted(before), 'columns-files', repr(case))
    if 0 in feats:
      # a shape file without anything in it is an error
      x.check(code not in (0, None), 'columns-empty', repr(case))
      x.outcome('empty')
      return
    x.eq(code, 0, 'columns-exit', repr(case))
    want = []
    for i, n in enumerate(feats):
      want += ['--ID: %d' % (100 * i), '--NAME: name0', '--KIND: kind']
    x.eq([l for l in text.split('\n') if l.startswith('--')], want,
         'columns', repr(case))
    x.outcome('printed')
    return
  x.check(code in (0, None), 'import-exit', lambda: '%r: %r' % (case, code))
  x.eq(sorted(after), ['feed.zip', 'out.zip'], 'import-files', repr(case))
  s, rec = load(after['out.zip'])
  got = [[(round(p[0], 6), round(p[1], 6)) for p in sh.points]
         for sh in s.GetShapeList()]
  x.eq(got, [[(36.0, -116.0), (36.01, -116.0), (36.02, -116.0)]], 'import',
       repr(case))
  x.outcome('imported')
  x.state(case)


# --- the smallest example -----------------------------------------------------------------
def gen_builder(tier):
  for form in (('--output', 'o.zip'), ('--output=o.zip',),
               ('--output=./sub/o.zip',), ('--outp', 'o.zip')):
    for there in (False, True):
      yield (form, there)


def run_builder(x, case):
  form, there = case
  name = os.path.normpath(form[-1].split('=')[-1])
  before = {'sub/x': '1', 'feed.zip': 'x'}
  if there:
    before[name] = 'old'
  place = Place(before)
  try:
    code, text, _ = run('examples/small_builder.py', list(form), place)
    after = place.files()
  finally:
    place.close()
  x.step()
  x.check(not code, 'builder-exit', repr(case))
  x.eq(sorted(after), sorted(set(before) | set([name])), 'builder-files',
       repr(case))
  s, rec = load(after[name])
  x.eq(sorted(s_.stop_name for s_ in s.GetStopList()),
       [u'Civic Center', u'Suburbia'], 'builder-stops', repr(case))
  got = []
  for t in s.GetTripList():
    got.append((t.trip_headsign, s.GetRoute(t.route_id).route_short_name,
                [(st.stop.stop_name, st.departure_time)
                 for st in t.GetStopTimes()]))
  x.eq(sorted(got), [
      (u'To Downtown', u'22', [(u'Suburbia', '09:00:00'),
                               (u'Civic Center', '09:15:00')]),
      (u'To Suburbia', u'22', [(u'Suburbia', '17:30:00'),
                               (u'Civic Center', '17:45:00')])],
       'builder-trips', repr(case))
  x.state(case)
  x.outcome('built')


SCENARIOS = [
    Scenario('validator', gen_validator, one_day(run_validator),
             bound='10 options with 2 to 6 values: all pairs (thorough: '
                   'triples) of values, and half (all) of the 1024 on/off '
                   'combinations'),
    Scenario('viewer', gen_viewer, run_viewer,
             bound='7 feeds x 8 keys x 3 hosts x 3 directories x 3 prompts, at '
                   'most 2 (3) off the default'),
    Scenario('usage', gen_usage, run_usage,
             bound='36 wrong command lines of 7 programs; help and version of '
                   '6 programs'),
    Scenario('columns', gen_columns, run_columns,
             bound='1 or 2 shape files of up to 2 lines x 3 keys x 5 '
                   'verbosities'),
    Scenario('builder', gen_builder, run_builder,
             bound='4 forms x 2'),
]
