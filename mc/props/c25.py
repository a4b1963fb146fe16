# -*- coding: utf-8 -*-
"""C25: language tags and the fields of the Google extension are judged by
their grammar and rules.

Every tag of a bounded number of subtags over alphabets with every class of
subtag, every registered subtag with its near misses and every short tag is
judged by the real parser and by an independent one that reads the registry
itself.  Rows with every combination of values of the extension's fields are
loaded through the extension and compared with independent rules, and feeds
without such fields must be read as the core reads them."""
import itertools
import os
import string
import sys

import transitfeed
import extensions.googletransit as ext
from extensions.googletransit import extension_util
from extensions.googletransit.pybcp47 import bcp47languageparser
import feeds
from core import Scenario
from props import c01
from props import c14

U = feeds.U
PARSER = extension_util.parser
ALPHA = set(string.ascii_letters)
DIGIT = set('0123456789')
ALNUM = ALPHA | DIGIT


# --- an independent reading of the registry --------------------------------
def read_registry():
  p = os.path.join(os.path.dirname(bcp47languageparser.__file__),
                   'language-subtag-registry.txt')
  h = open(p, 'rb')
  s = h.read().decode('utf-8')
  h.close()
  out = {}
  for rec in s.split('\n%%\n')[1:]:
    rec = rec.replace('\n  ', ' ')
    typ, tags, desc = None, [], []
    for l in rec.split('\n'):
      k, _, v = l.partition(': ')
      if k == 'Type':
        typ = v.strip().lower()
      elif k in ('Subtag', 'Tag'):
        v = v.strip().lower()
        if '..' in v:
          a, b = v.split('..')
          tags = [''.join(t) for t in itertools.product(
              string.ascii_lowercase, repeat=len(a)) if
              a <= ''.join(t) <= b] if len(a) < 4 else [
              a[:2] + ''.join(t) for t in itertools.product(
                  string.ascii_lowercase, repeat=2)
              if a <= a[:2] + ''.join(t) <= b]
        else:
          tags = [v]
      elif k == 'Description':
        desc.append(v.strip())
    for t in tags:
      out.setdefault(typ, {})[t] = u', '.join(desc)
  return out


REG = read_registry()


def all_in(s, chars):
  return all(c in chars for c in s)


def judge(tag):
  """(well formed, valid, descriptions of the parts, first offender)."""
  low = tag.lower()
  if low in REG['grandfathered']:
    return True, True, [REG['grandfathered'][low]], None
  subs = tag.split('-')
  i = [0]

  def at():
    return subs[i[0]] if i[0] < len(subs) else None

  def match(lo, hi, chars, first=None):
    s = at()
    return s is not None and lo <= len(s) <= hi and all_in(s, chars) and (
        first is None or s[0] in first)
  found = []
  if not (subs[0] in ('x', 'X')):
    if match(2, 3, ALPHA):
      found.append(('language', at()))
      i[0] += 1
      n = 0
      while n < 3 and match(3, 3, ALPHA):
        found.append(('extlang', at()))
        i[0] += 1
        n += 1
    elif match(4, 8, ALPHA):
      found.append(('language', at()))
      i[0] += 1
    else:
      return False, False, [], None
    if match(4, 4, ALPHA):
      found.append(('script', at()))
      i[0] += 1
    if match(2, 2, ALPHA) or match(3, 3, DIGIT):
      found.append(('region', at()))
      i[0] += 1
    while match(5, 8, ALNUM) or match(4, 4, ALNUM, DIGIT):
      found.append(('variant', at()))
      i[0] += 1
    while match(1, 1, ALNUM) and at() not in ('x', 'X'):
      found.append(('singleton', at()))
      i[0] += 1
      if not match(2, 8, ALNUM):
        return False, False, [], None
      while match(2, 8, ALNUM):
        i[0] += 1
  if at() in ('x', 'X'):
    i[0] += 1
    if not match(1, 8, ALNUM):
      return False, False, [], None
    while match(1, 8, ALNUM):
      i[0] += 1
  if at() is not None:
    return False, False, [], None
  if low in REG['redundant']:
    return True, True, [REG['redundant'][low]], None
  parts, seen = [], set()
  for kind, s in found:
    s = s.lower()
    if kind == 'singleton':
      if (kind, s) in seen:
        return True, False, parts, s
    else:
      if kind == 'extlang' and any(k == 'extlang' for k, _ in seen):
        return True, False, parts, s
      if s not in REG[kind] or kind == 'variant' and (kind, s) in seen:
        return True, False, parts, s
      parts.append(REG[kind][s] + (u' script' if kind == 'script' else u''))
    seen.add((kind, s))
  return True, True, parts, None


def compare(x, tag):
  wf, valid, parts, bad = judge(tag)
  x.step()
  o = PARSER.ParseLanguage(tag)
  x.eq((bool(o.wellformed), bool(o.valid)), (wf, valid), 'judgement',
       repr(tag))
  x.eq(bool(extension_util.IsValidLanguageCode(tag)), wf and valid, 'code',
       repr(tag))
  if wf:
    x.eq(o.descriptions[:len(parts)], parts, 'parts', repr(tag))
    more = o.descriptions[len(parts):]
    if bad:
      x.check(len(more) == 1 and "'%s'" % bad in more[0], 'offender',
              lambda: '%r: %r' % (tag, o.descriptions))
    elif len(more) > 1 or more and not more[0].endswith('was ignored'):
      x.fail('more parts', '%r: %r' % (tag, o.descriptions))
  x.state((tag, wf, valid))
  return wf, valid


WIDE = ['de', 'DE', 'fra', 'ar', 'arb', 'yue', 'zh', 'sgn', 'Latn', 'latm',
        '419', '015', '999', 'ZZ', 'ax', '1901', '1996', '1902', '1Abc',
        'boont', 'rozaj', 'biske', 'shadok', 'abcde', 'a', 'b', 'B', 'x', 'X',
        '1', 'i', 'klingon', 'abcdefgh', 'abcdefghi', '', 'qaa', 'qtz', 'qua',
        'Qaaa', 'QM', 'aa', '12', u'\xe9t', 'd e', 'ab1', '12345678', 'GB',
        'oed', u'\u0664\u0661\u0669', u'\u212a\u212a', 'cel', 'gaulish',
        'default', 'min', 'nan', 'de ', '\nde', 'de\n', 'a_b', '*']
MID = ['de', 'ar', 'arb', 'yue', 'zh', 'Latn', 'latm', '419', 'DE', 'qx',
       '1901', '1996', 'rozaj', 'shadok', 'a', 'x', 'X', 'nan', '1']
FEW = ['zh', 'yue', 'Latn', 'CN', 'rozaj', '1901', 'a', 'b', 'x', 'biske']
TINY = ['sl', 'rozaj', 'biske', 'a', 'A', 'bb', 'x']


def gen_tags(tier):
  n = 2 if tier == 'quick' else 3
  for k in range(1, n + 1):
    for w in itertools.product(range(len(WIDE)), repeat=k - 1):
      yield 'WIDE', list(w)
  for k in range(3, 4 if tier == 'quick' else 5):
    for w in itertools.product(range(len(MID)), repeat=k - 1):
      yield 'MID', list(w)
  for k in range(4, 5 if tier == 'quick' else 6):
    for w in itertools.product(range(len(FEW)), repeat=k - 1):
      yield 'FEW', list(w)
  for k in range(5, 7 if tier == 'quick' else 8):
    for w in itertools.product(range(len(TINY)), repeat=k - 1):
      yield 'TINY', list(w)


def run_tags(x, case):
  name, w = case
  alpha = {'WIDE': WIDE, 'MID': MID, 'FEW': FEW, 'TINY': TINY}[name]
  n = [0, 0, 0]
  for last in alpha:
    wf, valid = compare(x, '-'.join([alpha[i] for i in w] + [last]))
    n[wf + (wf and valid)] += 1
  x.outcome('%s %d' % (name, len(w) + 1))
  for k, label in enumerate(('malformed', 'not valid', 'valid')):
    if n[k]:
      x.outcome(label)


FRAME = {'language': ['%s', '%s-CH', 'x-%s'], 'extlang': ['zh-%s', 'ar-%s-US'],
         'script': ['de-%s', 'zh-yue-%s-CN'], 'region': ['de-%s', 'de-Latn-%s'],
         'variant': ['de-%s', 'de-Latn-CH-%s', 'de-1901-%s', 'de-%s-1901'],
         'grandfathered': ['%s', '%s-x-a', '%s-a'],
         'redundant': ['%s', '%s-x-ab', '%s-zz']}


def gen_registry(tier):
  for kind in sorted(REG):
    tags = sorted(REG[kind])
    for i in range(0, len(tags), 40):
      yield kind, tags[i:i + 40]


def run_registry(x, case):
  kind, tags = case
  for t in tags:
    near = [t, t.upper(), t[:-1], t + 'z', t[:-1] + ('z' if t[-1] != 'z' else
                                                    'q'), t[::-1]]
    for f in FRAME[kind]:
      for s in near:
        compare(x, f % s)
  x.outcome(kind)


def gen_short(tier):
  for a in string.ascii_lowercase:
    yield a, 1
    if tier != 'quick':
      yield a, 2
  for a in '0123456789':
    yield a, 3


def run_short(x, case):
  """Every language of two (three) letters and every region."""
  a, k = case
  if k == 3:
    for b, c in itertools.product(string.digits, repeat=2):
      compare(x, 'de-' + a + b + c)
  elif k == 1:
    for b in string.ascii_lowercase:
      compare(x, a + b)
      compare(x, 'en-' + a.upper() + b)
      o = PARSER.Parse_ISO639_1_Language(a + b)
      x.eq((bool(o.wellformed), bool(o.valid)),
           (True, a + b in REG['language']), 'iso', a + b)
      for c in string.ascii_lowercase:
        compare(x, a + b + c)
  else:
    for b, c in itertools.product(string.ascii_lowercase, repeat=2):
      compare(x, 'zh-' + a + b + c)
  x.outcome('short')


# --- rows through the extension --------------------------------------------
BASE = feeds.base()
FACTORY = ext.GetGtfsFactory()
SPEEDS = {
    0: 100, 1: 150, 2: 300, 3: 100, 4: 80, 5: 50, 6: 50, 7: 50,
    8: 50, 9: 120, 10: 150, 11: 100, 12: 150, 100: 300, 101: 300, 102: 300,
    103: 300, 105: 300, 106: 300, 107: 300, 108: 300, 109: 300, 200: 120,
    201: 120, 202: 120, 204: 120, 208: 120, 400: 150, 401: 150, 402: 150,
    403: 150, 405: 150, 700: 100, 701: 120, 702: 120, 704: 100, 715: 120,
    717: 120, 800: 100, 900: 100, 1000: 80, 1100: 1000, 1300: 50, 1400: 50,
    1500: 100, 1501: 100, 1700: 100, 1701: 50, 1702: 50}


def load(x, f, factory=FACTORY):
  x.step()
  s, rec = feeds.load(f, factory=factory)
  return s, rec


def integer(v):
  try:
    return int(v)
  except ValueError:
    return None


def mine(rec, columns):
  return sorted((e.__class__.__name__, feeds.ptype(e), e.column_name,
                 feeds.txt(getattr(e, 'value', None)))
                for e in rec.problems
                if getattr(e, 'column_name', None) in columns)


def gen_stops(tier):
  for lt in ('', '0', '1', '2', '3', '4', '5', '-1', 'x', '2.0'):
    for parent in ('', 'ST'):
      for vt in (None, '', '0', '3', '8', '13', '104', '204', '1702', '9999',
                 '-1', 'x', '3.5'):
        for name in ('', 'Nine'):
          for tz in ('', 'America/Los_Angeles', 'Bad/Zone'):
            if tz and tier == 'quick' and vt not in (None, '0', 'x'):
              continue
            yield lt, parent, vt, name, tz


def run_stops(x, case):
  lt, parent, vt, name, tz = case
  f = BASE.copy()
  t = f['stops.txt']
  t.add_col('platform_code')
  if vt is not None:
    t.add_col('vehicle_type')
  row = dict(t.rows[2], stop_id=u'S9', stop_name=U(name), location_type=U(lt),
             parent_station=U(parent), stop_timezone=U(tz), stop_lat=u'36.1001',
             stop_lon=u'-116.1', platform_code=u'7\xfc', wheelchair_boarding=u'')
  if vt is not None:
    row['vehicle_type'] = U(vt)
  t.rows.append(row)
  s, rec = load(x, f)
  want = []
  kind = 0
  if lt:
    kind = integer(lt)
    if kind is None:
      want.append(('InvalidValue', 'E', 'location_type', lt))
      kind = 0
    elif kind not in range(5):
      want.append(('InvalidValue', 'W', 'location_type', lt))
    if kind == 2 and not parent:
      want.append(('InvalidValue', 'E', 'location_type', '2'))
    if kind == 1 and parent:
      want.append(('InvalidValue', 'E', 'parent_station', parent))
  if not name and kind != 2:
    want.append(('MissingValue', 'E', 'stop_name', None))
  if tz == 'Bad/Zone':
    want.append(('InvalidValue', 'E', 'stop_timezone', tz))
  if tz and parent:
    want.append(('InvalidValue', 'W', 'stop_timezone', tz))
  vehicle = None
  if vt:
    vehicle = integer(vt)
    if vehicle is None:
      want.append(('InvalidValue', 'E', 'vehicle_type', vt))
    else:
      if vehicle not in SPEEDS:
        want.append(('InvalidValue', 'W', 'vehicle_type', vt))
      if kind == 2:
        want.append(('InvalidValue', 'E', 'vehicle_type', vt))
      elif parent:
        want.append(('InvalidValue', 'W', 'vehicle_type', vt))
  x.eq(mine(rec, ('location_type', 'parent_station', 'stop_name',
                  'stop_timezone', 'vehicle_type', 'platform_code')),
       sorted((a, b, c, feeds.txt(d)) for a, b, c, d in want), 'stop problems',
       repr(case))
  stop = s.GetStop('S9')
  x.eq((stop.location_type, stop.vehicle_type, stop.platform_code),
       (kind, vehicle, u'7\xfc'), 'stop values', repr(case))
  x.state(case)
  x.outcome('%d problems' % len(want))


def gen_routes(tier):
  types = [str(i) for i in range(0, 110)] + [str(k) for k in sorted(SPEEDS)
                                             if k >= 110]
  types += ['199', '203', '1703', '9999', '-1', 'x', '', '3.5', 'Bus']
  for rt in types:
    for co2 in (None, '', '15.5', 'x'):
      yield rt, co2
  for rt in ('3', '204'):
    for co2 in ('0', '1e2', '15.5mg', '-1', '15,5', '.5', '1.5.2', u'\xfc'):
      yield rt, co2


def run_routes(x, case):
  rt, co2 = case
  f = BASE.copy()
  t = f['routes.txt']
  if co2 is not None:
    t.add_col('co2_per_km')
  row = dict(t.rows[1], route_id=u'R9', route_short_name=u'9',
             route_long_name=u'Ninth', route_type=U(rt))
  if co2 is not None:
    row['co2_per_km'] = U(co2)
  t.rows.append(row)
  s, rec = load(x, f)
  want, kind, co = [], integer(rt), None
  if rt == '':
    want.append(('MissingValue', 'E', 'route_type', None))
  if kind is None or kind < 0:
    want.append(('InvalidValue', 'E', 'route_type', rt))
  elif kind not in SPEEDS:
    want.append(('InvalidValue', 'W', 'route_type', rt))
  if co2:
    try:
      co = float(co2)
    except ValueError:
      want.append(('InvalidValue', 'E', 'co2_per_km', feeds.txt(co2)))
  got = mine(rec, ('route_type', 'co2_per_km'))
  if rt == '':
    got = [g for g in got if g[0] != 'InvalidValue' or g[2] != 'route_type']
    want = [w for w in want if w[0] != 'InvalidValue' or w[2] != 'route_type']
  x.eq(got, sorted((a, b, c, feeds.txt(d)) for a, b, c, d in want),
       'route problems', repr(case))
  r = s.GetRoute('R9')
  if kind is not None and kind >= 0:
    x.eq(r.route_type, kind, 'route type', repr(case))
  if not co2 or co is not None:
    x.eq(r.co2_per_km or None, co or None, 'co2', repr(case))
    x.check(not co2 or isinstance(r.co2_per_km, float), 'co2 type', repr(case))
  x.state(case)
  x.outcome('%d problems' % len(want))


def gen_speed(tier):
  for rt in sorted(SPEEDS):
    for factor in (0.5, 0.95, 1.05, 2):
      yield rt, factor


def run_speed(x, case):
  rt, factor = case
  f = BASE.copy()
  f['routes.txt'].rows[1]['route_type'] = U(str(rt))
  km = SPEEDS[rt] * factor / 2.0          # in half an hour
  dlat = km / 6378.137 * 57.29577951308232
  st = f['stops.txt']
  for i, sid in ((0, u'S8'), (1, u'S9')):
    st.rows.append(dict(st.rows[2], stop_id=sid, stop_name=sid,
                        stop_lat=U('%.7f' % (40 + i * dlat)),
                        stop_lon=u'-116.2', wheelchair_boarding=u''))
  rows = f['stop_times.txt'].rows
  f['stop_times.txt'].rows = [r for r in rows if r['trip_id'] != u'T3']
  for i, sid, when in ((1, u'S8', u'05:00:00'), (2, u'S9', u'05:30:00')):
    f['stop_times.txt'].rows.append(dict(
        rows[-1], trip_id=u'T3', stop_id=sid, stop_sequence=U(str(i)),
        arrival_time=when, departure_time=when))
  x.step()
  s, rec = feeds.load(f, factory=FACTORY, extra_validation=True)
  got = [(feeds.ptype(e), e.trip_id) for e in rec.problems
         if e.__class__.__name__ == 'TooFastTravel']
  x.eq(got, [('W', u'T3')] if factor > 1 else [], 'speed', repr(case))
  x.outcome('fast' if factor > 1 else 'slow')


def gen_fares(tier):
  ids = (None, '', 'AG1', 'AG2', 'X', 'ag1', 'None')
  for agencies in ('one', 'blank', 'two', 'no column'):
    for a in ids:
      for b in ids:
        if (a is None) == (b is None):
          yield agencies, a, b


def run_fares(x, case):
  agencies, a, b = case
  f = BASE.copy()
  ag = f['agency.txt']
  known = ['AG1', 'AG2']
  if agencies != 'two':
    ag.rows = ag.rows[:1]
    known = ['AG1']
    for r in f['routes.txt'].rows:
      r['agency_id'] = u'AG1'
    if agencies != 'one':
      known = ['']
      ag.rows[0]['agency_id'] = u''
      for r in f['routes.txt'].rows:
        r['agency_id'] = u''
    if agencies == 'no column':
      ag.cols.remove('agency_id')
      f['routes.txt'].cols.remove('agency_id')
  fa = f['fare_attributes.txt']
  if a is not None:
    fa.add_col('agency_id')
    fa.rows[0]['agency_id'] = U(a)
    fa.rows[1]['agency_id'] = U(b)
  s, rec = load(x, f)
  want = []
  for v, i in ((a, 'F1'), (b, 'F2')):
    if v in known or len(known) == 1 and not v:
      continue
    want.append(('InvalidAgencyID', 'E', 'agency_id', v, i))
  got = [(e.__class__.__name__, feeds.ptype(e), e.column_name,
          feeds.txt(e.value) or (None if a is None else u''),
          e.relating_id)
         for e in rec.problems]
  x.eq(sorted(got), sorted(want), 'fare problems', repr(case))
  for v, i in ((a, 'F1'), (b, 'F2')):
    x.eq(s.GetFareAttribute(i).agency_id or u'', v or u'', 'fare value', '')
  x.state(case)
  x.outcome('%d problems' % len(want))


LANGS = [t for t in WIDE if t.strip() == t] + [
    'de-CH', 'zh-yue', 'zh-yue-nan', 'fra-XY', 'de-1901-1901', 'de-1901-1996',
    'sl-rozaj-biske', 'sl-rozaj-nope1', 'en-a-bb-a-cc', 'en-a-bb-b-cc',
    'x-private', 'i-klingon', 'zh-Hant-CN', 'nb-xx1', 'nb-QQQ', u'd\xe9',
    u'de-\xfc', 'lang123456789', 'en-GB-oed', 'EN', 'eN-us', 'nb-999']


def gen_lang(tier):
  for t in LANGS:
    yield feeds.txt(t),


def run_lang(x, case):
  tag = case[0]
  f = BASE.copy()
  f['agency.txt'].rows[1]['agency_lang'] = tag
  s, rec = load(x, f)
  wf, valid, parts, bad = judge(tag)
  want = []
  if tag and not wf:
    want = [('InvalidValue', 'E', 'agency_lang', tag)]
  elif tag and not valid:
    want = [('InvalidValue', 'W', 'agency_lang', tag)]
  x.eq(mine(rec, ('agency_lang',)), want, 'agency_lang', repr(tag))
  for e in rec.problems:
    m = feeds.txt(e.FormatProblem())
    if e.column_name == 'agency_lang':
      x.check(('not well-formed' in m) == (not wf) and
              ('not valid' in m) == (wf and not valid) and
              all(p in m for p in parts), 'message', lambda: repr(m))
  x.eq(s.GetAgency('AG2').agency_lang or u'', tag, 'language kept', '')
  x.outcome('%s %s' % (wf, valid))


# --- everything else is as in the core -------------------------------------
def gen_core(tier):
  cells = [c for c in c01.gen_cell(tier)]
  step = 1 if tier != 'quick' else 4
  for i, c in enumerate(cells):
    if i % step == 0:
      yield 'cell', c
  for i in range(len(c14.FAULTS)):
    for row in range(3):
      yield 'fault', [i, row]


def run_core(x, case):
  what, c = case
  f = BASE.copy()
  if what == 'cell':
    for fn, i, col, v in c:
      f[fn].rows[i][col] = v
      if (fn, col) in (('agency.txt', 'agency_lang'),):
        x.outcome('skipped')
        return
  else:
    fn, col, v = c14.FAULTS[c[0]][:3]
    i = c[1]
    if i >= len(f[fn].rows) or col not in f[fn].cols or col == 'agency_lang':
      x.outcome('skipped')
      return
    f[fn].rows[i][col] = v
  s1, r1 = load(x, f, None)
  s2, r2 = load(x, f)
  x.eq(sorted(k for k in r2.keys(True) if k[4] != 'fare_attributes.txt' or
              k[:3] != ('InvalidAgencyID', 'E', 'agency_id')),
       sorted(r1.keys(True)), 'core problems', repr(case))
  x.eq(feeds.observe(s2), feeds.observe(s1), 'core values',
       repr(case))
  x.outcome('%s %s' % (what, 'silent' if not r1.problems else 'problems'))


# --- what is loaded can be written and read again ---------------------------
def gen_write(tier):
  for vt in ('', '0', '3', '204'):
    for pc in ('', '7', u'\xfc,"1"'):
      for co2 in ('', '0', '15.5', '1e2'):
        for rt in ('3', '204', '1702'):
          for fa in ('AG1', 'AG2'):
            yield vt, pc, co2, rt, fa


def run_write(x, case):
  import tempfile
  vt, pc, co2, rt, fa = case
  f = BASE.copy()
  for fn, cols, i in (('stops.txt', {'vehicle_type': vt,
                                     'platform_code': pc}, 2),
                      ('routes.txt', {'co2_per_km': co2}, 0),
                      ('fare_attributes.txt', {'agency_id': fa}, 1)):
    for c, v in cols.items():
      f[fn].add_col(c)
      f[fn].rows[i][c] = U(v)
  f['fare_attributes.txt'].rows[0]['agency_id'] = u'AG1'
  f['routes.txt'].rows[0]['route_type'] = U(rt)
  s, rec = load(x, f)
  x.eq(rec.keys(), [], 'sound', repr(case))
  h, path = tempfile.mkstemp('.zip')
  os.close(h)
  try:
    s.WriteGoogleTransitFeed(path)
    h = open(path, 'rb')
    data = h.read()
    h.close()
  finally:
    os.remove(path)
  x.step()
  s2, rec2 = feeds.load(data, factory=FACTORY)
  x.eq(rec2.keys(), [], 'sound again', repr(case))
  for sc in (s, s2):
    st, r = sc.GetStop('S3'), sc.GetRoute('R1')
    x.eq((st.vehicle_type, st.platform_code or '', r.co2_per_km or None,
          r.route_type, sc.GetFareAttribute('F1').agency_id,
          sc.GetFareAttribute('F2').agency_id),
         (int(vt) if vt else None, pc, float(co2) or None if co2 else None,
          int(rt), 'AG1', fa), 'written', repr(case))
  x.eq(feeds.observe(s2), feeds.observe(s), 'all', repr(case))
  x.outcome('written')


SCENARIOS = [
    Scenario('tags', gen_tags, run_tags,
             bound='<= 2 (3) of 60, 3 (4) of 19, 4 (5) of 10, 6 (7) of 7 '
             'subtags'),
    Scenario('registry', gen_registry, run_registry,
             bound='every registered subtag and near misses in context'),
    Scenario('short', gen_short, run_short,
             bound='every tag of two and three letters, every region'),
    Scenario('stops', gen_stops, run_stops, bound='all value combinations'),
    Scenario('routes', gen_routes, run_routes, bound='all value combinations'),
    Scenario('speed', gen_speed, run_speed, bound='every route type'),
    Scenario('fares', gen_fares, run_fares, bound='all value combinations'),
    Scenario('lang', gen_lang, run_lang, bound='tags of agencies'),
    Scenario('core', gen_core, run_core,
             bound='every cell value and fault of the core'),
    Scenario('write', gen_write, run_write, bound='extension values'),
]
