# -*- coding: utf-8 -*-
"""C34: programs announce newer releases rightly, go on without the network and
report crashes.

Every version over an alphabet, given or published, and every way a server or
the network can answer (a real loopback server; faults that need waiting are
injected into urllib2) is tried on the version check.  Every function over an
alphabet of results, exceptions, frames and local variables is run under the
crash handler."""
import __builtin__
import httplib
import itertools
import os
import shutil
import socket
import sys
import tempfile
import threading
import urllib2

import prog
import transitfeed
from transitfeed import util
from core import Scenario
from feeds import reporter

OWN = transitfeed.__version__


# --- the version check ---------------------------------------------------------
def number(v):
  return [int(p) for p in v.split('.')]


def newer(v):
  a, b = number(v), number(OWN)
  n = max(len(a), len(b))
  return a + [0] * (n - len(a)) > b + [0] * (n - len(b))


def versions():
  a, b, c = number(OWN)
  def around(n):
    return sorted(set([0, 1, max(0, n - 1), n, n + 1, 9, 10, 11, 99, 100,
                       n * 10]))
  for v in itertools.product(around(a), around(b), around(c)):
    yield '%d.%d.%d' % v


def judge(x, rec, latest, what):
  got = [(e.__class__.__name__, getattr(e, 'version', None), e.type)
         for e in rec.problems]
  want = [('NewVersionAvailable', latest, transitfeed.TYPE_NOTICE)] if newer(
      latest) else []
  x.eq(got, want, 'announced', repr(what))
  x.outcome('newer' if want else 'current')
  x.state((latest, got))


def gen_given(tier):
  for v in versions():
    yield v


def run_given(x, v):
  pr, rec = reporter()
  util.CheckVersion(pr, v)
  x.step()
  judge(x, rec, v, v)


class Web(object):
  """Answers every connection with the bytes in self.answer."""

  def __init__(self):
    self.sock = socket.socket()
    self.sock.bind(('127.0.0.1', 0))
    self.sock.listen(5)
    self.url = 'http://127.0.0.1:%d/latest' % self.sock.getsockname()[1]
    self.answer = ''
    t = threading.Thread(target=self.serve)
    t.setDaemon(True)
    t.start()

  def serve(self):
    while True:
      c, _ = self.sock.accept()
      try:
        got = ''
        while '\r\n\r\n' not in got:
          more = c.recv(4096)
          if not more:
            break
          got += more
        if self.answer:
          c.sendall(self.answer)
        try:
          c.shutdown(socket.SHUT_WR)
        except socket.error:
          pass
      except socket.error:
        pass
      c.close()


WEB = []


def web():
  if not WEB:
    WEB.append(Web())
  return WEB[0]


PAGES = ['version=%s', '# Latest\n\nversion=%s\n', 'x version=%s.\r\nmore',
         '<p>version=%s</p>', '\xef\xbb\xbfversion=%s', 'caf\xe9 version=%s ']
BROKEN_PAGES = ['', 'version=', 'version=1', 'version=a.b.c', 'version 1.2.99',
                'ver', '\xff\xfe', '\0' * 10]
STATUS = [200, 400, 403, 404, 410, 500, 502, 503]
RAW = ['', 'garbage', 'HTTP/1.0', 'HTTP/1.0 abc OK\r\n\r\n', '\r\n\r\n',
       'HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\nvers',
       'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nver',
       'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nver',
       'HTTP/1.0 302 Found\r\nLocation: http://127.0.0.1:1/\r\n\r\n',
       'HTTP/1.0 302 Found\r\n\r\n']
FAULTS = [('socket.timeout', lambda: socket.timeout('timed out')),
          ('socket.error', lambda: socket.error(104, 'reset')),
          ('URLError', lambda: urllib2.URLError('no host')),
          ('URLError timeout', lambda: urllib2.URLError(socket.timeout('x'))),
          ('IncompleteRead', lambda: httplib.IncompleteRead('ver')),
          ('BadStatusLine', lambda: httplib.BadStatusLine('')),
          ('HTTPError', lambda: urllib2.HTTPError('u', 500, 'Error', {},
                                                  None))]


def gen_web(tier):
  a, b, c = number(OWN)
  vs = ['%d.%d.%d' % v for v in (
      (a, b, c), (a, b, c + 1), (a, b, c - 1), (a, b, c * 10), (a, b + 1, 0),
      (a + 1, 0, 0), (a, b, 9), (0, 99, 99), (a, b, 100), (10, 0, 0))]
  for p in range(len(PAGES)):
    for v in vs if tier == 'quick' else versions():
      yield ('page', p, v)
  for p in range(len(BROKEN_PAGES)):
    yield ('broken', p, None)
  for s in STATUS[1:]:
    for v in vs[:2]:
      yield ('status', s, v)
  for r in range(len(RAW)):
    yield ('raw', r, None)
  for r in range(len(FAULTS)):
    for where in ('open', 'read'):
      yield ('fault', r, where)
  yield ('refused', 0, None)


class Response(object):
  def __init__(self, fault):
    self.fault = fault

  def read(self, *args):
    raise self.fault()


def run_web(x, case):
  kind, i, v = case
  old_url, old_open = util.LATEST_RELEASE_VERSION_URL, urllib2.urlopen
  timeout = socket.getdefaulttimeout()
  pr, rec = reporter()
  try:
    w = web()
    util.LATEST_RELEASE_VERSION_URL = w.url
    if kind == 'page' or kind == 'broken':
      body = PAGES[i] % v if kind == 'page' else BROKEN_PAGES[i]
      w.answer = 'HTTP/1.0 200 OK\r\nContent-Length: %d\r\n\r\n%s' % (
          len(body), body)
    elif kind == 'status':
      w.answer = 'HTTP/1.0 %d No\r\n\r\nversion=%s' % (i, v)
    elif kind == 'raw':
      w.answer = RAW[i]
    elif kind == 'refused':
      s = socket.socket()
      s.bind(('127.0.0.1', 0))
      util.LATEST_RELEASE_VERSION_URL = 'http://127.0.0.1:%d/' % (
          s.getsockname()[1])
      s.close()
    else:
      def urlopen(*args, **kw):
        if v == 'open':
          raise FAULTS[i][1]()
        return Response(FAULTS[i][1])
      urllib2.urlopen = urlopen
    util.CheckVersion(pr)
    x.step()
  finally:
    util.LATEST_RELEASE_VERSION_URL = old_url
    urllib2.urlopen = old_open
    socket.setdefaulttimeout(timeout)
  if kind == 'page':
    judge(x, rec, v, case)
    return
  got = [(e.__class__.__name__, e.type) for e in rec.problems]
  x.eq(got, [('OtherProblem', transitfeed.TYPE_NOTICE)], 'notice', repr(case))
  x.state(case)
  x.outcome(kind)


# --- the crash handler ---------------------------------------------------------
class Unprintable(object):
  def __str__(self):
    raise ValueError('no words')

  __repr__ = __str__


class Wide(object):
  def __str__(self):
    return 'w' * 700


class UnprintableError(Exception):
  def __str__(self):
    raise ValueError('no words')


class Odd(Exception):
  pass


# name -> (value, text that the report must have, text it must not have)
LOCALS = [
    ('an_int', 42, 'an_int = 42\n', None),
    ('text', 'plain words', 'text = plain words\n', None),
    ('utf8', 'Z\xc3\xbcrich', 'utf8 = Z\xc3\xbcrich\n', None),
    ('latin1', 'Z\xfcrich', 'latin1 = Z', None),
    ('wide_text', u'Z\xfcrich', 'wide_text', None),
    ('l499', 'x' * 499, 'l499 = ' + 'x' * 499 + '\n', 'x' * 500),
    ('l500', 'y' * 500, 'l500 = ' + 'y' * 499, 'y' * 501),
    ('l2000', 'z' * 2000, 'l2000 = ' + 'z' * 499, 'z' * 501),
    ('unprintable', Unprintable(), 'unprintable', None),
    ('wide', Wide(), 'wide = www', 'w' * 501),
    ('nothing', None, 'nothing = None\n', None),
    ('seq', [1, 'a'], "seq = [1, 'a']\n", None),
]
ERRORS = [
    ('ValueError', lambda: ValueError('bad value'), 'ValueError: bad value'),
    ('KeyError', lambda: KeyError('k'), "KeyError: 'k'"),
    ('empty', lambda: Odd(), 'Odd'),
    ('bytes', lambda: Odd('Z\xc3\xbcrich'), 'Odd: Z\xc3\xbcrich'),
    ('unicode', lambda: Odd(u'Z\xfcrich'), 'Odd: '),
    ('lines', lambda: Odd('one\ntwo'), 'one\ntwo'),
    ('unprintable', lambda: UnprintableError(), 'UnprintableError'),
    ('io', lambda: IOError(2, 'No such file', 'x.zip'), 'No such file'),
    ('problem', lambda: transitfeed.errors.Error('oops'), 'oops'),
    ('assert', lambda: AssertionError('never'), 'never'),
    ('memory', lambda: MemoryError(), 'MemoryError'),
]
CODES = [None, 0, 1, 2, 127, True, False, 'message']


def gen_crash(tier):
  for handler in ('util', 'traceplus'):
    for k, c in enumerate(CODES):
      yield (handler, 'return', k, (), 1, '')
      yield (handler, 'exit', k, (), 1, '')
    yield (handler, 'interrupt', 0, (), 1, '')
    n = len(LOCALS)
    sets = [s for r in (0, 1, 2) for s in itertools.combinations(range(n), r)]
    for e in range(len(ERRORS)):
      for s in sets if tier == 'quick' or len(sets) > 400 else sets:
        for depth in (1, 2, 3):
          for typed in ('', 'enter') if handler == 'util' else ('',):
            if tier == 'quick' and len(s) == 2 and (
                (s[0] + s[1] + e + depth) % 8 or typed):
              continue
            yield (handler, 'raise', e, s, depth, typed)


def fail_in(depth, names, error):
  """A function that fails in the given depth of calls, with locals there."""
  src = ['def level_1(values, error):']
  for i in names:
    src.append('  %s = values[%d]' % (LOCALS[i][0], i))
  src.append('  raise error()')
  for d in range(2, depth + 1):
    src.append('def level_%d(values, error):' % d)
    src.append('  depth_%d = %d' % (d, d))
    src.append('  return level_%d(values, error)' % (d - 1))
  space = {}
  prog.execute('\n'.join(src) + '\n', space)
  f = space['level_%d' % depth]
  return lambda: f([l[1] for l in LOCALS], error)


def handler_of(name):
  if name == 'util':
    return util.RunWithCrashHandler
  sys.path.insert(0, os.path.join(prog.REPO, 'misc'))
  try:
    import traceplus
  finally:
    del sys.path[0]
  return traceplus.RunWithExpandedTrace


def run_crash(x, case):
  handler, how, k, names, depth, typed = case
  run = handler_of(handler)
  d = tempfile.mkdtemp(prefix='mc34-')
  cwd, out, raw = os.getcwd(), sys.stdout, __builtin__.raw_input
  asked = []

  def raw_input(prompt=''):
    asked.append(prompt)
    if not typed:
      raise EOFError
    return ''
  text = prog.Out()
  ended, code = None, None
  # what is left to the end of the process is closed here
  opened, real_open = [], __builtin__.open

  def opening(*args, **kw):
    opened.append(real_open(*args, **kw))
    return opened[-1]
  try:
    os.chdir(d)
    sys.stdout = text
    __builtin__.raw_input = raw_input
    __builtin__.open = opening
    if how == 'return':
      f = lambda: CODES[k]
    elif how == 'exit':
      f = lambda: sys.exit(CODES[k])
    elif how == 'interrupt':
      def f():
        raise KeyboardInterrupt()
    else:
      f = fail_in(depth, names, ERRORS[k][1])
    try:
      code = run(f)
      ended = 'return'
    except SystemExit as e:
      ended, code = 'exit', e.code
    except KeyboardInterrupt:
      ended = 'interrupt'
    except Exception as e:
      ended = 'exception %s' % type(e).__name__
  finally:
    __builtin__.raw_input = raw
    __builtin__.open = real_open
    for h in opened:
      h.close()
    sys.stdout = out
    os.chdir(cwd)
    files = {}
    for n in os.listdir(d):
      h = open(os.path.join(d, n), 'rb')
      files[n] = h.read()
      h.close()
    shutil.rmtree(d)
  x.step()
  x.outcome(how)
  if how != 'raise':
    x.eq(files, {}, 'no-report', repr(case))
    if how == 'interrupt':
      x.eq(ended, 'interrupt', 'interrupt', repr(case))
    elif handler == 'traceplus' and how == 'return':
      x.eq((ended, code), ('return', CODES[k]), 'result', repr(case))
    else:
      x.eq((ended, code), ('exit', CODES[k]), 'exit', repr(case))
    x.state((handler, how, k))
    return
  x.eq((ended, code), ('exit', 127), 'exit', repr(case))
  texts = {'printed': text.text()}
  if handler == 'util':
    x.eq(sorted(files), ['transitfeedcrash.txt'], 'report-saved', repr(case))
    texts['saved'] = files.get('transitfeedcrash.txt', '')
    x.check(OWN in texts['saved'], 'report-version', repr(case))
  else:
    x.eq(files, {}, 'no-report', repr(case))
  for where, t in sorted(texts.items()):
    x.check(ERRORS[k][2] in t, 'report-error', lambda: '%s %r: %r' % (
        where, case, t[-300:]))
    for lv in range(1, depth + 1):
      x.check('in level_%d\n' % lv in t, 'report-frame', lambda:
              '%s %r: level_%d' % (where, case, lv))
    for i in names:
      name, value, has, lacks = LOCALS[i]
      if handler == 'traceplus':
        has, lacks = '    %s' % name, None
        if not isinstance(value, Unprintable):
          has += ' = %s' % repr(value)[:499]
        else:
          has = name
      x.check(has in t, 'report-local', lambda: '%s %r: no %r in %r' % (
          where, case, has, t))
      if lacks:
        x.check(lacks not in t, 'report-long', lambda: '%s %r' % (where,
                                                                  case))
  x.state((handler, k, len(names), depth))


SCENARIOS = [
    Scenario('given', gen_given, run_given,
             bound='all versions of three parts, each of about ten values '
                   'around those of the own version'),
    Scenario('web', gen_web, run_web,
             bound='6 pages x 10 versions (thorough all), 8 pages without a '
                   'version, 7 states, 10 broken answers from a real server, '
                   '7 faults when opening or reading'),
    Scenario('crash', gen_crash, run_crash,
             bound='8 results, returned and as exit, and 11 exceptions x sets '
                   'of up to 2 of 12 local variables x 3 depths of calls, for '
                   'both handlers'),
]
