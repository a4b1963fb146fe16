# -*- coding: utf-8 -*-
"""C33: the Zurich importer converts a DIVA export exactly."""
import csv
import datetime
import io
import itertools
import os
import shutil
import StringIO
import tempfile
import zipfile
from fractions import Fraction

import transitfeed
import prog
from core import Scenario
from feeds import U

PROGRAM = 'misc/import_ch_zurich.py'
SEP = u';'

# file -> columns; the order in the file is not that of the program
COLS = {
    'rec_ort.mdv': ['ORT_NR', 'ORT_POS_X', 'ORT_NAME', 'ORT_POS_Y',
                    'ORT_NR_NATIONAL'],
    'rec_lin_ber.mdv': ['BEREICH_NR', 'LI_NR', 'LINIEN_BEZ_DRUCK'],
    'lid_verlauf.mdv': ['LI_NR', 'STR_LI_VAR', 'LI_RI_NR', 'LI_LFD_NR',
                        'ORT_NR'],
    'tagesart_merkmal.mdv': ['TAGESART_NR', 'TAGESMERKMAL_NR'],
    'firmenkalender.mdv': ['BETRIEBSTAG', 'FPL_KUERZEL', 'TAGESART_NR'],
    'vb_regio.mdv': ['FPL_KUERZEL', 'VB', 'DATUM_VON', 'DATUM_BIS',
                     'VB_DATUM'],
    'bedverb.mdv': ['FRT_FID', 'LI_LFD_NR', 'BEDVERB_CODE'],
    'lid_fahrzeitart.mdv': ['LI_NR', 'STR_LI_VAR', 'LI_RI_NR', 'LI_LFD_NR',
                            'FGR_NR', 'FZT_REL', 'HZEIT'],
    'rec_frt.mdv': ['FRT_FID', 'FRT_START', 'LI_NR', 'STR_LI_VAR', 'LI_RI_NR',
                    'FGR_NR', 'FPL_KUERZEL', 'TAGESMERKMAL_NR', 'VB',
                    'FRT_HP_AUS', 'HALTEPUNKT_NR_ZIEL', 'FAHRTART_NR'],
}
ADV = 'bedienendeLinien_google.csv'   # without a header


def base():
  """Rows by file; three stations, two lines, two trips."""
  return {
      'rec_ort.mdv': [
          (u'11', u'683000', u'Zürich, Rathaus', u'247500', u'8503001'),
          (u'12', u'684000', u'Zürich, Enge', u'246500', u''),
          (u'13', u'685000', u'Forch, Bahnhof', u'245500', u'8503003')],
      'rec_lin_ber.mdv': [(u'1', u'4', u'4'), (u'1', u'70', u'N7')],
      'lid_verlauf.mdv': [(u'4', u'1', u'1', u'1', u'11'),
                          (u'4', u'1', u'1', u'2', u'12'),
                          (u'4', u'1', u'1', u'3', u'13'),
                          (u'70', u'1', u'2', u'1', u'13'),
                          (u'70', u'1', u'2', u'2', u'11')],
      'tagesart_merkmal.mdv': [(u'1', u'H1')],
      'firmenkalender.mdv': [(u'20091214', u'j10', u'1'),
                             (u'20091215', u'j10', u'1')],
      'vb_regio.mdv': [(u'j10', u'5', u'20091201', u'20091231', u'00000006')],
      'bedverb.mdv': [],
      'lid_fahrzeitart.mdv': [(u'4', u'1', u'1', u'1', u'1', u'0', u'0'),
                              (u'4', u'1', u'1', u'2', u'1', u'120', u'30'),
                              (u'4', u'1', u'1', u'3', u'1', u'90', u'0'),
                              (u'70', u'1', u'2', u'1', u'1', u'0', u'0'),
                              (u'70', u'1', u'2', u'2', u'1', u'600', u'0')],
      'rec_frt.mdv': [
          (u'1', u'28800', u'4', u'1', u'1', u'1', u'j10', u'H1', u'', u'13',
           u'1', u'1'),
          (u'2', u'86340', u'70', u'1', u'2', u'1', u'j10', u'H1', u'5',
           u'11', u'1', u'1')],
      ADV: [(u'11', u'0004'), (u'12', u'4'), (u'13', u'04'), (u'11', u'70'),
            (u'13', u'070')],
  }


def cell(v):
  return u'"%s"' % v if SEP in v else v


def pack(rows):
  f = io.BytesIO()
  out = StringIO.StringIO()
  z = zipfile.ZipFile(out, 'w')
  for n in sorted(rows):
    lines = [] if n == ADV else [SEP.join(U(c) for c in COLS[n])]
    lines += [SEP.join(cell(v) for v in r) for r in rows[n]]
    if n == ADV:
      lines = [l + u';;;;' for l in lines]
    z.writestr(n, (u'\r\n'.join(lines) + u'\r\n').encode('iso-8859-1'))
  z.close()
  return out.getvalue()


def convert(x, rows, *opts):
  """{file: [row as dict]} of the feed made, None if none was."""
  d = tempfile.mkdtemp(prefix='mc33-')
  try:
    src, dst = os.path.join(d, 'in.zip'), os.path.join(d, 'out.zip')
    f = open(src, 'wb')
    f.write(pack(rows))
    f.close()
    code, text = prog.run(PROGRAM, list(opts) + [
        '--in_file=' + src, '--out_file', dst])
    x.step()
    if code or not os.path.exists(dst):
      x.fail('no-feed', repr((code, text)))
      return None
    f = open(dst, 'rb')
    data = f.read()
    f.close()
  finally:
    shutil.rmtree(d)
  z = zipfile.ZipFile(StringIO.StringIO(data))
  out = {}
  for n in z.namelist():
    lines = [[c.decode('utf-8') for c in r] for r in
             csv.reader(StringIO.StringIO(z.read(n)))]
    if not x.check(all(len(l) == len(lines[0]) for l in lines), 'ragged', n):
      return None
    out[n] = [dict(zip(lines[0], l)) for l in lines[1:]]
  # the feed can be read
  class Acc(transitfeed.ProblemAccumulatorInterface):
    def _Report(self, e):
      x.check(not e.IsError(), 'loads', e.FormatProblem())
  transitfeed.Loader(StringIO.StringIO(data), problems=
                     transitfeed.ProblemReporter(Acc())).Load()
  return out


# ---- the oracle --------------------------------------------------------------------------
TRAMS = {'2': 'FF3300 FFFFFF', '3': '009933 FFFFFF', '4': '333399 FFFFFF',
         '5': '996600 FFFFFF', '6': 'CC9933 FFFFFF', '7': '000000 FFFFFF',
         '8': '99CC00 000000', '9': '333399 FFFFFF', '10': 'FF6699 FFFFFF',
         '11': '009933 FFFFFF', '12': 'FFFFFF 000000', '13': 'FFCC33 000000',
         '14': '3399CC FFFFFF', '15': 'FF3300 FFFFFF'}
POI = [u'Bahnhof', u'Dorfzentrum', u'Schiffstation', u'Station', u'Zentrum',
       u'Dorfplatz', u'Zentrum/Bahnhof', u'Dorf']
SPECIAL = {
    u'Freienbach SOB, Bahnhof': (u'Freienbach SOB', u'Freienbach'),
    u'Herrliberg-Feldmeilen,Bhf West': (u'Bahnhof West',
                                        u'Herrliberg-Feldmeilen'),
    u'Neue Forch': (u'Neue Forch', u'Zürich'),
    u'Oberrieden Dorf Bahnhof': (u'Oberrieden Dorf', u'Oberrieden'),
    u'Spital Zollikerberg': (u'Spital', u'Zollikerberg'),
    u'Triemli': (u'Triemli', u'Zürich'),
    u'Zentrum Glatt': (u'Zentrum Glatt', u'Wallisellen')}


def split_name(full):
  if full in SPECIAL:
    return SPECIAL[full]
  for short, long_ in ((u'Schiffst.', u'Schiffstation'), (u'str.', u'strasse')):
    if full.endswith(short) and full != short:
      full = full[:-len(short)] + long_
      break
  city, comma, rest = full.partition(u', ')
  if comma:
    name = city + u' ' + rest if rest in POI else rest
  else:
    name, city = full, full.partition(u' ')[0]
  city = {u'Affoltern a. A.': u'Affoltern am Albis',
          u'Wangen b. D.': u'Wangen'}.get(city, city)
  return name, city


def wgs84(x, y):
  """The published approximation, in exact arithmetic."""
  a, b = Fraction(x - 600000, 10 ** 6), Fraction(y - 200000, 10 ** 6)
  D = lambda s: Fraction(s)
  lon = (D('2.6779094') + D('4.728982') * a + D('0.791484') * a * b +
         D('0.1306') * a * b ** 2 - D('0.0436') * a ** 3)
  lat = (D('16.9023892') + D('3.238272') * b - D('0.270978') * a ** 2 -
         D('0.002528') * b ** 2 - D('0.0447') * a ** 2 * b -
         D('0.0140') * b ** 3)
  return float(lat * 100 / 36), float(lon * 100 / 36)


def quote(s):
  safe = (u'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
          u'_.-/')
  return u''.join(c if c in safe else u'%%%02X' % ord(c) for c in s)


def hms(v):
  return u'%02d:%02d:%02d' % (v // 3600, v // 60 % 60, v % 60)


def ymd(d):
  return u'%04d%02d%02d' % (d.year, d.month, d.day)


def month_days(start, end, mask):
  """The dates of a bit mask, eight hexadecimal digits for each month."""
  y, m = int(start[:4]), int(start[4:6])
  out = []
  while (y, m) <= (int(end[:4]), int(end[4:6])):
    bits = int(mask[:8], 16)
    mask = mask[8:]
    d = datetime.date(y, m, 1)
    while d.month == m:
      if bits & 1:
        out.append(ymd(d))
      bits >>= 1
      d += datetime.timedelta(days=1)
    assert not bits
    y, m = (y, m + 1) if m < 12 else (y + 1, 1)
  return out


def services(rows):
  out = {}
  pairs = rows['tagesart_merkmal.mdv']
  for date, plan, kind in rows['firmenkalender.mdv']:
    for k, mark in pairs:
      if k == kind:
        out.setdefault(u'C%s.%s' % (plan, mark), set()).add(date)
  for plan, vb, start, end, mask in rows['vb_regio.mdv']:
    out[u'VB%s.%s' % (plan, vb)] = set(month_days(start, end, mask))
  return dict((k, sorted(v)) for k, v in out.items() if v)


def check(x, rows, keep_all, what):
  opts = {None: (), 0: ('--drop_unadvertised_lines',),
          1: ('--nodrop_unadvertised_lines',)}[keep_all]
  got = convert(x, rows, *opts)
  if got is None:
    x.fail('no-feed', what)
    return
  x.eq(sorted(got), sorted(['agency.txt', 'calendar.txt', 'calendar_dates.txt',
                            'routes.txt', 'trips.txt', 'stops.txt',
                            'stop_times.txt']), 'files', what)
  x.eq(got['agency.txt'], [
      {u'agency_name': u'VBZ', u'agency_url': u'http://www.vbz.ch/',
       u'agency_lang': u'de', u'agency_timezone': u'Europe/Zurich'}],
      'agency', what)
  # stations
  names = {}
  want = {}
  for nr, px, full, py, uic in rows['rec_ort.mdv']:
    name, city = names[nr] = split_name(full)
    want[nr] = (name, city, u'CH', uic if len(uic) == 7 and
                uic[:2] == u'85' else u'',
                u'http://fahrplan.zvv.ch/?to.0=' + quote(full))
  have = dict((r['stop_id'], (r['stop_name'], r['stop_city'],
                              r['stop_country'], r['stop_uic_code'],
                              r['stop_url'])) for r in got['stops.txt'])
  x.eq([(k, have.get(k)) for k in sorted(want) if have.get(k) != want[k]],
       [(k, want[k]) for k in sorted(want) if have.get(k) != want[k]],
       'stops', what)
  x.eq(len(got['stops.txt']), len(want), 'stops-once', what)
  place = dict((r['stop_id'], (float(r['stop_lat']), float(r['stop_lon'])))
               for r in got['stops.txt'])
  for nr, px, _, py, _ in rows['rec_ort.mdv']:
    p = wgs84(int(px), int(py))
    if nr in place:
      x.check(max(abs(p[0] - place[nr][0]), abs(p[1] - place[nr][1])) < 1e-9,
              'position', lambda: '%s: %r, want %r' % (what, place[nr], p))
  # lines
  want = {}
  for _, nr, name in rows['rec_lin_ber.mdv']:
    tram = TRAMS.get(name)
    colors = tram or ('000000 FFFF00' if name[:1] == u'N' else 'FFFFFF 000000')
    want[nr] = (name, u'0' if tram else u'3', colors)
  x.eq(dict((r['route_id'], (r['route_short_name'], r['route_type'],
                             '%s %s' % (r['route_color'],
                                        r['route_text_color'])))
            for r in got['routes.txt']), want, 'routes', what)
  x.eq(len(got['routes.txt']), len(want), 'routes-once', what)
  # services
  want = services(rows)
  have = {}
  for r in got['calendar_dates.txt']:
    x.eq(r['exception_type'], u'1', 'exception', what)
    have.setdefault(r['service_id'], []).append(r['date'])
  x.eq(dict((k, sorted(v)) for k, v in have.items()), want, 'dates', what)
  x.eq(sorted((r['service_id'], r['start_date'], r['end_date'],
               ''.join(r[d] for d in ('monday', 'tuesday', 'wednesday',
                                      'thursday', 'friday', 'saturday',
                                      'sunday')))
              for r in got['calendar.txt']),
       sorted((k, v[0], v[-1], '0000000') for k, v in want.items()),
       'calendar', what)
  # trips
  board = {}
  for fid, seq, code in rows['bedverb.mdv']:
    if code in (u'A', u'E'):
      board.setdefault((fid, int(seq)), set()).add(code)
  adv = set((s, l.lstrip(u'0')) for s, l in rows[ADV])
  want, times = {}, {}
  for (fid, start, li, var, dr, fgr, plan, mark, vb, _, _, kind) in rows[
      'rec_frt.mdv']:
    if kind != u'1':
      continue
    at = dict((int(r[3]), r[4]) for r in rows['lid_verlauf.mdv']
              if r[:3] == (li, var, dr))
    n = max(at)
    if sorted(at) != range(1, n + 1):
      continue
    tid = u'%s_%s' % (fid, li)
    want[tid] = (li, u'VB%s.%s' % (plan, vb) if vb else u'C%s.%s' % (plan,
                                                                    mark),
                 names[at[n]][0])
    t = int(start)
    for r in rows['lid_fahrzeitart.mdv']:
      if r[:3] == (li, var, dr) and r[4] == fgr:
        k = int(r[3])
        t += int(r[5])
        if keep_all or (at[k], li) in adv:
          b = board.get((fid, k), ())
          times.setdefault(tid, []).append(
              (k, at[k], hms(t), hms(t + int(r[6])),
               u'1' if u'A' in b else u'0', u'1' if u'E' in b else u'0'))
        t += int(r[6])
  x.eq(dict((r['trip_id'], (r['route_id'], r['service_id'],
                            r['trip_headsign'])) for r in got['trips.txt']),
       want, 'trips', what)
  x.eq(len(got['trips.txt']), len(want), 'trips-once', what)
  have = {}
  for r in got['stop_times.txt']:
    have.setdefault(r['trip_id'], []).append(
        (int(r['stop_sequence']), r['stop_id'], r['arrival_time'],
         r['departure_time'], r['pickup_type'], r['drop_off_type']))
  x.eq(have, times, 'stop-times', what)
  x.state((what if len(what) < 200 else hash(what), sorted(have.items())))
  x.outcome('%d trips' % len(want))


# ---- stations ----------------------------------------------------------------------------
CITY = [u'Zürich', u'Affoltern a. A.', u'Wangen b. D.', u'Küsnacht ZH', u'Uster',
        u'X"Y', u'A;B', u'']
PLACE = POI + [u'Enge', u'Bahnhofstr.', u'Seestr.', u'Schiffst.', u'Rathaus',
               u'Dorf, West', u'str.', u'Neue Forch', u'bahnhof', u'Zentrum ']
GLUE = [u', ', u' ', u',', u'/', u',  ']
UICS = [u'', u'8503000', u'850300', u'85030001', u'8403000', u'0085030', u'85']
XS = [600000, 600001, 683256, 485000, 834000, 700000]
YS = [200000, 199999, 248117, 75000, 296000, 100000]


def gen_stations(tier):
  for part in range(4):
    yield ('names', part)
  for i in range(len(UICS)):
    yield ('uic', i)
  for i in range(len(XS)):
    yield ('place', i)


def run_stations(x, case):
  kind, part = case
  rows = base()
  st = rows['rec_ort.mdv']
  if kind == 'names':
    names = sorted(SPECIAL) + PLACE + [c for c in CITY if c]
    names += [c + g + p for c in CITY for g in GLUE for p in PLACE]
    if part % 2:
      names = [n + u' ' + u'Süd' for n in names
               if u'str.' not in n and u'Schiffst.' not in n]
    names = [n.strip() for n in names]
    for i, n in enumerate(n for n in names if n and n != u'str.'):
      if i % 2 == part // 2:
        st.append((u'%d' % (1000 + i), u'683%03d' % (i % 1000), n, u'247500',
                   u''))
  elif kind == 'uic':
    for i, (u, v) in enumerate(itertools.product(UICS, repeat=2)):
      st.append((u'A%d' % i, u'683000', u'Uster, Platz %d' % i, u'247500', u))
    st[0] = st[0][:4] + (UICS[part],)
  else:
    for i, y in enumerate(YS):
      st.append((u'P%d' % i, u'%d' % XS[part], u'Uster, Platz %d' % i,
                 u'%d' % y, u''))
  check(x, rows, 1, repr(case))


# ---- lines -------------------------------------------------------------------------------
LINES = [u'%d' % i for i in range(0, 19)] + [
    u'N1', u'N', u'n1', u'S4', u'', u'Fähre', u'Bus "7"', u'A,B', u'02', u'1N',
    u'Ersatz 4', u'31']


def gen_lines(tier):
  for i in range(len(LINES)):
    yield (i,)


def run_lines(x, case):
  rows = base()
  lines = [n for n in LINES[case[0]:] + LINES[:case[0]] if n]
  rows['rec_lin_ber.mdv'] = [(u'1', u'4', lines[0]), (u'2', u'70', lines[1])]
  rows['rec_lin_ber.mdv'] += [(u'1', u'L%d' % i, n) for i, n in
                              enumerate(lines[2:2 + 15])]
  check(x, rows, None, repr(case))


# ---- services ----------------------------------------------------------------------------
DATES = [u'20091231', u'20100101', u'20100228', u'20100301']


def gen_services(tier):
  # which day types (of two) have the marks H1, H2; the days of each plan and
  # day type
  n = 2 if tier == 'quick' else 3
  for marks in itertools.product(range(4), repeat=2):
    if not marks[0]:
      continue
    for days in itertools.product(range(2 ** n), repeat=4):
      if tier == 'quick' and (sum(days) + sum(marks)) % 4:
        continue
      yield (marks, days)


def run_services(x, case):
  marks, days = case
  rows = base()
  rows['tagesart_merkmal.mdv'] = [
      (u'%d' % (k + 1), u'H%d' % (m + 1)) for k in range(2) for m in range(2)
      if marks[m] >> k & 1]
  cal = [(d, p, u'%d' % (k + 1))
         for i, (p, k) in enumerate(itertools.product((u'j10', u'p11'),
                                                      (0, 1)))
         for j, d in enumerate(DATES) if days[i] >> j & 1]
  rows['firmenkalender.mdv'] = cal
  on = services(rows)
  rows['rec_frt.mdv'] = [r[:6] + (s[1:4], s[5:], u'') + r[9:]
                         for i, s in enumerate(sorted(on)) if s[:1] == u'C'
                         for r in rows['rec_frt.mdv'][:1]
                         for r in [(u'%d' % i,) + r[1:]]]
  check(x, rows, 1, repr(case))


MONTHS = [(2009, 12), (2010, 1), (2010, 2), (2012, 2), (2010, 11), (2010, 6)]


def length(y, m):
  return (datetime.date(y + m // 12, m % 12 + 1, 1) -
          datetime.date(y, m, 1)).days


def gen_masks(tier):
  for m in range(len(MONTHS)):
    for n in range(1, 15):
      for kind in range(6):
        yield (m, n, kind)


def run_masks(x, case):
  m, n, kind = case
  y, mo = MONTHS[m]
  months = []
  for k in range(n):
    months.append((y, mo))
    y, mo = (y, mo + 1) if mo < 12 else (y + 1, 1)
  full = [(1 << length(*v)) - 1 for v in months]
  masks = {
      0: [full],
      1: [[0] * n, [1] * n],
      2: [[b if k == i else 0 for i in range(n)] for k, b in
          enumerate(full)],
      3: [[1 << d & b for b in full] for d in range(31)],
      4: [[f & 0x55555555 for f in full], [f & 0x2AAAAAAA for f in full]],
      5: [[(f + 1) >> 1 for f in full], [f & 0x7F0F3 for f in full]],
  }[kind]
  rows = base()
  for i, mk in enumerate(masks):
    a = u'%04d%02d%02d' % (months[0] + ((1, 5, 28)[i % 3],))
    b = u'%04d%02d%02d' % (months[-1] + ((28, 3, 1)[i % 3],))
    if b < a:
      b = a
    text = u''.join(u'%08x' % v for v in mk)
    if i % 2:
      text = text.upper()
    rows['vb_regio.mdv'].append((u'j10', u'M%d' % i, a, b, text))
  check(x, rows, 1, repr(case))


# ---- trips -------------------------------------------------------------------------------
def gen_trips(tier):
  # stations of the pattern, their times, the start
  times = [(0, 0), (60, 0), (90, 30), (3600, 61)]
  for n in (2, 3):
    for seq in itertools.product((0, 1, 2), repeat=n):
      for ts in itertools.product(times, repeat=n - 1):
        if tier == 'quick' and n == 3 and sum(seq) % 3 != (ts[0][0] +
                                                           ts[1][1]) % 3:
          continue
        for start in (0, 86399):
          yield ('times', seq, ts, start)
  # what happens at each place: code, advertised
  for codes in itertools.product((0, 1, 2, 3, 4), repeat=3):
    for keep in (None, 0, 1):
      if tier == 'quick' and keep == 0 and sum(codes) % 3:
        continue
      yield ('board', codes, keep)
  for adv in itertools.product((0, 1), repeat=6):
    for keep in (None, 0, 1):
      yield ('adv', adv, keep)
  for order in itertools.permutations(range(3)):
    for gap in (0, 1, 2, 3):
      yield ('order', order, gap)
  for kinds in itertools.product(u'12345', repeat=2):
    for vb in itertools.product((u'', u'5'), repeat=2):
      yield ('kinds', kinds, vb)
  for a, b in itertools.product(range(3), repeat=2):
    yield ('share', a, b)


def run_trips(x, case):
  kind, a, b = case[:3]
  rows = base()
  keep = None
  ids = [u'11', u'12', u'13']
  if kind == 'times':
    rows['lid_verlauf.mdv'] = [(u'4', u'1', u'1', u'%d' % (i + 1), ids[k])
                               for i, k in enumerate(a)]
    rows['lid_fahrzeitart.mdv'] = [
        (u'4', u'1', u'1', u'%d' % (i + 1), u'1', u'%d' % d, u'%d' % w)
        for i, (d, w) in enumerate(((0, 30),) + tuple(b))]
    rows['rec_frt.mdv'] = [(u'1', u'%d' % case[3]) +
                           rows['rec_frt.mdv'][0][2:]]
  elif kind == 'board':
    codes = [(), (u'A',), (u'E',), (u'B',), (u'A', u'E', u'B')]
    rows['bedverb.mdv'] = [(u'1', u'%d' % (i + 1), c)
                           for i, k in enumerate(a) for c in codes[k]]
    rows['bedverb.mdv'] += [(u'9', u'1', u'A'), (u'2', u'2', u'A')]
    keep = b
  elif kind == 'adv':
    pairs = list(itertools.product(ids, (u'4', u'70')))
    rows[ADV] = [(s, u'00' + l if i % 2 else l)
                 for i, (s, l) in enumerate(pairs) if a[i]]
    rows[ADV] += [(u'99', u'4')]
    keep = b
  elif kind == 'order':
    # the rows of a pattern in any order, one of them missing
    v = rows['lid_verlauf.mdv']
    first = [v[i] for i in a if i + 1 != b]
    rows['lid_verlauf.mdv'] = first[:1] + v[3:] + first[1:]
    if b == 3:
      # the last place is unknown; two remain
      rows['lid_fahrzeitart.mdv'] = [r for i, r in enumerate(
          rows['lid_fahrzeitart.mdv']) if i != 2]
  elif kind == 'kinds':
    rows['rec_frt.mdv'] = [r[:8] + (b[i],) + r[9:11] + (a[i],)
                           for i, r in enumerate(rows['rec_frt.mdv'])]
  else:
    # two trips of one number on two lines, two sets of driving times
    extra = [(u'4', u'1', u'1', u'%d' % i, u'2', u'%d' % (i * 7), u'1')
             for i in (1, 2, 3)]
    rows['lid_fahrzeitart.mdv'] = (
        rows['lid_fahrzeitart.mdv'] + extra if a == 0 else
        extra + rows['lid_fahrzeitart.mdv'] if a == 1 else
        [r for p in zip(rows['lid_fahrzeitart.mdv'], extra) for r in p] +
        rows['lid_fahrzeitart.mdv'][3:])
    t = rows['rec_frt.mdv']
    t[1] = (u'1',) + t[1][1:]
    t.append((u'3',) + t[0][1:5] + (u'2',) + t[0][6:])
    rows['bedverb.mdv'] = [(u'1', u'1', u'A')] if b == 1 else [
        (u'3', u'2', u'E')] if b == 2 else []
  check(x, rows, keep, repr(case))


SCENARIOS = [
    Scenario('stations', gen_stations, run_stations,
             bound='8 cities x 5 separators x 18 places with and without more '
                   'text, all special names, 7 UIC codes, 36 positions'),
    Scenario('lines', gen_lines, run_lines,
             bound='30 names of lines in all rotations'),
    Scenario('services', gen_services, run_services,
             bound='all relations of 2 day types to 2 marks x all sets of 2 '
                   '(3) dates for 2 plans and day types; a quarter in quick'),
    Scenario('masks', gen_masks, run_masks,
             bound='6 start months x 1-14 months x single days, full, empty '
                   'and mixed months'),
    Scenario('trips', gen_trips, run_trips,
             bound='all visits of 2-3 of 3 stations with 4 times; all boarding '
                   'codes, advertised lines, orders of rows, kinds of trips'),
]
