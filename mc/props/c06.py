# -*- coding: utf-8 -*-
"""C06: parsing and formatting of times, dates, numbers and codes."""
import itertools
import string

import transitfeed
from transitfeed import util

import feeds
from core import Scenario
from props.codes import LANGS, CURRENCIES

DIG = '0123456789'
D59 = '012345'


def digits(s):
  return len(s) > 0 and all(c in DIG for c in s)


# ---- oracles -------------------------------------------------------------
def time_value(s):
  p = s.split(':')
  if len(p) != 3:
    return None
  h, m, c = p
  if not (digits(h) and digits(m) and digits(c)):
    return None
  if len(h) > 3 or len(m) != 2 or len(c) != 2:
    return None
  if int(m) > 59 or int(c) > 59:
    return None
  return int(h) * 3600 + int(m) * 60 + int(c)


def leap(y):
  return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def date_value(s):
  if len(s) != 8 or not digits(s):
    return None
  y, m, d = int(s[:4]), int(s[4:6]), int(s[6:])
  if y < 1 or not 1 <= m <= 12 or d < 1:
    return None
  n = [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
  return (y, m, d) if d <= n[m - 1] else None


def float_ok(s):
  if s[:1] in ('+', '-'):
    s = s[1:]
  a, dot, b = s.partition('.')
  return digits(a) and (not dot or digits(b))


def int_ok(s):
  return digits(s) and (s == '0' or s[0] != '0')


def email_ok(s):
  p = s.split('@')
  if len(p) != 2 or not p[0]:
    return False
  # a dot with something before and after it
  return any(0 < i < len(p[1]) - 1 for i, c in enumerate(p[1]) if c == '.')


# ---- running -------------------------------------------------------------
def check_time(x, s):
  want = time_value(s)
  x.step()
  try:
    got = util.TimeToSecondsSinceMidnight(s)
  except transitfeed.Error:
    got = None
  x.eq(got, want, 'time', repr(s))
  return want is not None


def check_date(x, s):
  want = date_value(s)
  x.step()
  got = util.DateStringToDateObject(s)
  x.eq(got and (got.year, got.month, got.day), want, 'date', repr(s))
  x.eq(bool(util.IsValidDate(s)), want is not None, 'IsValidDate', repr(s))
  pr, rec = feeds.reporter()
  ok = util.ValidateDate(s, 'col', pr)
  good = want is not None or s.strip() == ''
  x.eq(bool(ok), good, 'ValidateDate', repr(s))
  x.eq(rec.keys(), [] if good else [('InvalidValue', 'E', u'col',
                                     feeds.txt(s))],
       'ValidateDate-report', repr(s))
  return want is not None


def check_float(x, s):
  x.step()
  pr, rec = feeds.reporter()
  try:
    v = util.FloatStringToFloat(s, pr)
    raised = False
  except (ValueError, TypeError):
    raised = True
  if float_ok(s):
    x.check(not raised and not rec.problems and v == float(s) and
            isinstance(v, float), 'float', '%r refused or changed' % s)
  else:
    x.check(raised or rec.problems, 'float-silent',
            '%r silently became %r' % (s, None if raised else v))
  return float_ok(s)


def check_int(x, s):
  x.step()
  pr, rec = feeds.reporter()
  try:
    v = util.NonNegIntStringToInt(s, pr)
    raised = False
  except (ValueError, TypeError):
    raised = True
  if int_ok(s):
    x.check(not raised and not rec.problems and v == int(s), 'int',
            '%r refused or changed' % s)
  else:
    x.check(raised or rec.problems, 'int-silent',
            '%r silently became %r' % (s, None if raised else v))
    if s[:1] == '-' and digits(s[1:]) and int(s) < 0:
      x.check(raised, 'int-negative', repr(s))
  return int_ok(s)


def validated(x, fn, s, good, key):
  """fn(value, column, problems) of a non-required field."""
  x.step()
  pr, rec = feeds.reporter()
  ok = fn(s, 'col', pr)
  x.eq(bool(ok), good, key, repr(s))
  x.eq([k[:1] + k[2:] for k in rec.keys()],
       [] if good else [('InvalidValue', u'col', feeds.txt(s))],
       key + '-report', repr(s))
  x.eq(bool(fn(s)), good, key + '-no-reporter', repr(s))
  return good


def check_color(x, s):
  good = len(s) == 6 and all(c in string.hexdigits for c in s)
  x.step()
  x.eq(bool(util.IsValidHexColor(s)), good, 'colour', repr(s))
  if good:
    v = [int(s[i:i + 2], 16) for i in (0, 2, 4)]
    want = (299 * v[0] + 587 * v[1] + 114 * v[2]) / 1000.0
    x.check(abs(util.ColorLuminance(s) - want) < 1e-6, 'luminance', repr(s))
  return good


def empty(s):
  return not s.strip()


CHECKS = {
    'time': check_time, 'date': check_date, 'float': check_float,
    'int': check_int, 'colour': check_color,
    'email': lambda x, s: validated(x, util.ValidateEmail, s,
                                    empty(s) or email_ok(s), 'email'),
    'url': lambda x, s: validated(
        x, util.ValidateURL, s, empty(s) or s[:7] == 'http://' or
        s[:8] == 'https://', 'url'),
    'lang': lambda x, s: validated(
        x, util.ValidateLanguageCode, s, empty(s) or s.lower() in LANGS,
        'lang'),
    'yesno': lambda x, s: validated(x, util.ValidateYesNoUnknown, s,
                                    empty(s) or s in ('0', '1', '2'),
                                    'yesno'),
}


def run_words(x, case):
  """All words over an alphabet with a given prefix, up to a length."""
  kind, alphabet, prefix, more = case[:4]
  suffixes = case[4] if len(case) > 4 else ('',)
  n = good = 0
  for k in range(0, more + 1):
    for w in itertools.product(alphabet, repeat=k):
      for suf in suffixes:
        s = prefix + ''.join(w) + suf
        for v in (s, feeds.U(s)):
          good += CHECKS[kind](x, v)
          n += 1
        if len(x.case_failures) > 10:
          return
  x.outcome(kind + ('-some-valid' if good else '-none-valid'))
  x.state((kind, prefix, suffixes, good, n))


def split(alphabet, depth):
  for n in range(0, depth):
    for w in itertools.product(alphabet, repeat=n):
      yield ''.join(w), 0
  for w in itertools.product(alphabet, repeat=depth):
    yield ''.join(w), 1


def gen_words(tier):
  q = tier == 'quick'
  for kind, alphabet, total in (
      ('time', '09:', 8 if q else 10), ('time', '16:', 8 if q else 9),
      ('time', '0 :-\n', 6), ('float', '01.-+e', 4 if q else 6),
      ('float', '0 .x\n', 5), ('float', u'1.,naif', 4 if q else 5),
      ('int', '019-+', 5 if q else 6), ('int', '0 1.\n', 5 if q else 7),
      ('email', 'a@.', 7 if q else 9), ('email', u'a@. \n', 5 if q else 7),
      ('yesno', '0123 -', 3)):
    pre = max(total - 3, 0)
    for p, full in split(alphabet, pre):
      yield (kind, alphabet, p, total - pre if full else 0)


HOURS = ['', '0', '7', '07', '23', '24', '99', '100', '999', '0000', '1000',
         '+1', '-1', ' 1', '1 ', 'a', '1a', '0x1', '1.5']
SEPS = [':', '', '.', '::', ' :', '-']
MS = ['00', '0', '59', '60', '99', '5', '005', '-1', '5a', '', ' 5', '1.']
TAILS = ['', '\n', ' ', ':00', 'Z', '.0', 'am']


def gen_times(tier):
  for h in HOURS:
    for s1 in SEPS:
      for m in MS:
        yield ('time', '', h + s1 + m, 0,
               [s2 + sec + t for s2 in SEPS for sec in MS for t in TAILS])


YEARS = ['0000', '0001', '1582', '1899', '1900', '1904', '1999', '2000',
         '2010', '2012', '2100', '2400', '9999']


def gen_dates(tier):
  for y in YEARS:
    for m in range(0, 14) + [99]:
      yield ('date', '', '%s%02d' % (y, m), 0,
             ['%02d' % d for d in range(0, 34) + [99]])
  bad = ['', ' ', '2010-01-01', '2010010', '201001011', '2010/1/1', ' 20100101',
         '20100101 ', '20100101\n', '2010010a', '2010O101', '+2010101',
         '-2010101', '20100101.0', '2010.0101', u'２０１００１０１', '1e7',
         '20100101;', 'today', '0x100101', '        ', '2010 101']
  yield ('date', '', '', 0, bad)
  alphabet = '01 -'
  for p, full in split(alphabet, 3):
    yield ('date', alphabet, p, 5 if full else 0) if tier != 'quick' else (
        'date', alphabet, p, 0, ['', '101', '0101', '00101', '-0101'])


def gen_codes(tier):
  for a in string.ascii_lowercase:
    yield ('lang', '', a, 0, list(string.ascii_lowercase) +
           list(string.ascii_uppercase) + ['', '0', '-', ' ', '-US', 'n-US',
                                           'ng'])
    yield ('lang', '', a.upper(), 0, list(string.ascii_letters))
  yield ('lang', '', '', 0, ['', ' ', 'eng', 'en-US', 'EN', 'en ', ' en',
                             'e\n', 'en\n', u'\u0435n', 'de_DE', 'c', '--'])
  base = 'aF09Bc'
  chars = [chr(c) for c in range(128)]
  for i in range(6):
    yield ('colour', '', base[:i], 0, [c + base[i + 1:] for c in chars])
  for n in range(0, 9):
    yield ('colour', '', 'A1b2C3d4'[:n], 0, ['', '\n', ' ', '#', 'g'])
  yield ('colour', '', '#', 0, ['ABCDE', 'ABCDEF', 'FFF', '00000'])
  for v in ('00', '01', '7f', '80', 'FF'):
    yield ('colour', '', v, 0, [a + b for a in ('00', '10', 'FE', 'ff')
                                for b in ('00', '55', 'Aa')])
  yield ('url', '', '', 0, [
      '', ' ', 'http://', 'https://', 'http://x', 'https://x', 'HTTP://x',
      'http:/x', 'http//x', 'ftp://x', 'x', 'www.x.com', ' http://x',
      'httpx://a', 'https:/a', 'https//a', 'mailto:a@b.c', 'http:', '/a',
      'shttp://a', 'http ://x', 'htt://x', 'http://\xc3\xa9'[:7]])
  for n in range(1, 9):
    yield ('url', '', 'https://'[:n], 0, ['', 'x', '/', '://', '//'])
    yield ('url', '', 'http://'[:n], 0, ['', 'x', '/', '://', '//'])


def gen_seconds(tier):
  if tier == 'quick':
    spans = [(0, 400000), (3590000, 3600000)]
  else:
    spans = [(0, 3600000)]
  for a, b in spans:
    for k in range(a, b, 4000):
      yield (k, min(k + 4000, b))


def run_seconds(x, case):
  a, b = case
  for s in xrange(a, b):
    m, sec = divmod(s, 60)
    h, m = divmod(m, 60)
    want = '%02d:%02d:%02d' % (h, m, sec)
    got = util.FormatSecondsSinceMidnight(s)
    if got != want:
      x.fail('format', '%d: got %r, want %r' % (s, got, want))
      return
    if util.TimeToSecondsSinceMidnight(got) != s:
      x.fail('parse-formatted', '%d' % s)
      return
    if h < 10 and util.TimeToSecondsSinceMidnight(want[1:]) != s:
      x.fail('parse-short', '%d' % s)
      return
  x.step(b - a)
  x.state(case)
  x.outcome('ok')


def gen_intvalue(tier):
  vals = [None, '', ' ', '0', '1', '2', '3', '4', '-1', '01', ' 1', '1 ', '1.0',
          'a', '1e0', u'1', u'\xe9', 0, 1, 2, 3, -1, '0x1', 'None']
  for v in vals:
    for allowed in ([0, 1], [0, 1, 2, 3], [1]):
      for default in (None, 0):
        for allow_empty in (True, False):
          for col in ('c', None):
            yield (v, allowed, default, allow_empty, col)


def run_intvalue(x, case):
  v, allowed, default, allow_empty, col = case
  pr, rec = feeds.reporter()
  got = util.ValidateAndReturnIntValue(v, allowed, default, allow_empty, col,
                                       pr)
  x.step()
  blank = v is None or (not isinstance(v, int) and not v.strip())
  text = None if v is None else (unicode(v) if isinstance(v, int)
                                 else feeds.U(v).strip())
  number = None
  if not blank:
    t = text[1:] if text[:1] in u'+-' else text
    if t and all(c in DIG for c in t):
      number = int(text)
  if blank and allow_empty:
    want, rep = default, []
  elif number is None:
    want, rep = default, [('InvalidValue', 'E')]
  elif number not in allowed:
    want, rep = number, [('InvalidValue', 'W')]
  else:
    want, rep = number, []
  if col is None:
    rep = []
  x.eq(got, want, 'int-value', repr(case))
  x.eq([k[:2] for k in rec.keys()], rep, 'int-value-report', repr(case))
  x.state((case, got))
  x.outcome('ok' if not rep else rep[0][1])


def gen_misc(tier):
  for a in string.ascii_uppercase:
    yield ('currency', a)
  for c in ('usd', 'Usd', 'US', 'USDD', ' USD', 'US\n', '840', '', u'€'):
    yield ('currency1', c)
  for z in ('Europe/Zurich', 'America/Los_Angeles', 'UTC', 'US/Pacific',
            'europe/zurich', 'Europe/Zurich ', 'Europe', 'Zurich', '', ' ',
            'Etc/GMT+1', 'PST', 'America/Nowhere', 'Europe/', u'é', 'GMT'):
    yield ('timezone', z)


def run_misc(x, case):
  kind, v = case
  if kind == 'timezone':
    import pytz
    good = empty(v) or v in pytz.common_timezones
    validated(x, util.ValidateTimezone, v, good, 'timezone')
    x.outcome('tz%d' % good)
    return
  codes = [v] if kind == 'currency1' else [
      v + b + c for b in string.ascii_uppercase
      for c in string.ascii_uppercase]
  for code in codes:
    pr, rec = feeds.reporter()
    f = transitfeed.FareAttribute('F', 1.0, code, 0, 0)
    f.Validate(pr)
    x.step()
    if not code:
      want = [('MissingValue', 'E', u'currency_type')]
    elif code in CURRENCIES:
      want = []
    else:
      want = [('InvalidValue', 'E', u'currency_type')]
    x.eq([k[:3] for k in rec.keys()], want, 'currency', repr(code))
  x.state(case)
  x.outcome(kind)


SCENARIOS = [
    Scenario('words', gen_words, run_words,
             bound='all strings up to length 4-8 (thorough 5-10) over small '
                   'alphabets for times, numbers, e-mail addresses and flags, '
                   'as byte and unicode strings'),
    Scenario('times', gen_times, run_words,
             bound='all combinations of 19 hour, 12 minute, 12 second parts, '
                   '6 separators twice and 7 tails'),
    Scenario('dates', gen_dates, run_words,
             bound='all months 00-13,99 and days 00-33,99 of 13 years, '
                   'malformed texts, all words over "01 -" '),
    Scenario('codes', gen_codes, run_words,
             bound='all two-letter language codes in any case, every ASCII '
                   'character at every position of a colour, URL prefixes'),
    Scenario('seconds', gen_seconds, run_seconds,
             bound='all seconds of 0-111 hours and 997-1000 hours (thorough: '
                   'all below 1000 hours)'),
    Scenario('intvalue', gen_intvalue, run_intvalue,
             bound='25 values x 3 ranges x defaults'),
    Scenario('misc', gen_misc, run_misc,
             bound='all three-letter currency codes; 16 time zones'),
]
