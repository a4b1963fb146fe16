# -*- coding: utf-8 -*-
"""C29: each field of each table is accepted or reported exactly by its rule.

One feed holds, for a pair of columns of a table, one row for every pair of
values over the alphabets of the two columns, all else being sound; the
problems of each row and the values stored for it are compared with rules
stated here for the rows.  Small groups of columns that are judged together are
explored in full, and the same rows are validated as objects."""
import collections
import itertools

import transitfeed
import feeds
from core import Scenario

TEXT = [u'', u'x', u'One', u'\xe9\u20ac \u4e2d']
URL = [u'', u'http://x', u'https://x', u'x', u'ftp://x', u'http:/x',
       u'xhttp://x', u'https:', u'http://\xe9']
LANG = [u'', u'en', u'EN', u'Zh', u'xx', u'eng', u'e', u'\xe9\xe9']
TZ = [u'', u'America/New_York', u'UTC', u'Europe/Berlin', u'Nowhere/X',
      u'america/new_york', u'x']
EMAIL = [u'', u'a@b.c', u'a.b@c.d.e', u'a', u'a@b', u'@b.c', u'a@@b.c',
         u'a@b.', u'a@.c', u'\xe9@b.c']
LAT = [u'0', u'0.5', u'-0.99', u'1', u'-1', u'36.1', u'-36.10', u'+5', u'90',
       u'-90', u'90.01', u'-91', u'1e1', u'5.', u'.5', u'nan', u'inf', u'x',
       u'0x5', u'', u'1,5', u'100']
LON = [u'0', u'0.5', u'-0.99', u'1', u'-116.1', u'+5', u'180', u'-180',
       u'180.01', u'-181', u'1e1', u'5.', u'nan', u'x', u'', u'100']
YNU = [u'', u'0', u'1', u'2', u'3', u'-1', u'x', u'01', u'1.0']
COLOR = [u'', u'FFFFFF', u'ffffff', u'000000', u'808080', u'F30000', u'F40000',
         u'007C00', u'007D00', u'0000FF', u'484848', u'494949', u'aAbBcC',
         u'GGGGGG', u'FFFFF', u'FFFFFFF', u'#FFFFF', u'white', u'FF FFF']
DATE = [u'20100101', u'20101231', u'20110101', u'20080229', u'20100229',
        u'20100431', u'20101301', u'2010010', u'201001011', u'2010-1-1', u'x',
        u'', u'20100100', u'00000101']
CALDATE = DATE + [u'18991231', u'19000101', u'21001231', u'21010101']
FLAG = [u'0', u'1', u'2', u'', u'x', u'-1', u'01', u'true']
TIME = [u'', u'00:00:00', u'08:00:00', u'8:00:00', u'09:30:00', u'24:10:00',
        u'100:00:00', u'1000:00:00', u'08:60:00', u'08:00:60', u'8:0:00',
        u'08:00', u'x', u'-1:00:00', u'080000']
INT4 = [u'', u'0', u'1', u'2', u'3', u'4', u'-1', u'x', u'1.0', u'01', u'+1']
DIST = [u'', u'0', u'1.5', u'2', u'x', u'nan', u'inf', u'-inf']


def blank(v):
  return v.strip() == u''


def floats(s):
  """(value, plain) of a number as text, None if it is no finite number."""
  t = s[1:] if s[:1] in (u'+', u'-') else s
  digits = u'0123456789'
  if t and all(c in digits for c in t):
    return float(s), True
  a, dot, b = t.partition(u'.')
  if dot and all(c in digits for c in a + b) and (a or b):
    return float(s), bool(a and b)
  m, e, x = t.partition(u'e')
  if e and all(c in digits for c in m + x) and m and x:
    return float(s), False
  return None, False


def ints(s):
  """(value, plain) of an integer as text, None if it is none."""
  t = s[1:] if s[:1] in (u'+', u'-') else s
  if not t or not all(c in u'0123456789' for c in t):
    return None, False
  return int(s), s == u'0' or (s[0] in u'123456789')


class P(set):
  """The problems a row must have."""
  def miss(self, c):
    self.add(('MissingValue', 'E', c))

  def inv(self, c, t='E'):
    self.add(('InvalidValue', t, c))

  def odd_float(self):
    self.add(('InvalidFloatValue', 'W', None))

  def odd_int(self):
    self.add(('InvalidNonNegativeIntegerValue', 'W', None))

  # kinds of fields
  def required(self, r, *cs):
    for c in cs:
      if blank(r[c]):
        self.miss(c)

  def url(self, r, c):
    v = r[c]
    if not blank(v) and v[:7] != u'http://' and v[:8] != u'https://':
      self.inv(c)

  def among(self, r, c, good, t='E'):
    if not blank(r[c]) and r[c] not in good:
      self.inv(c, t)

  def yes_no(self, r, c):
    self.among(r, c, (u'0', u'1', u'2'))

  def lang(self, r, c):
    if not blank(r[c]) and r[c].lower() not in (u'en', u'zh'):
      self.inv(c)

  def tz(self, r, c):
    self.among(r, c, (u'America/New_York', u'UTC', u'Europe/Berlin',
                      u'America/Los_Angeles'))

  def date(self, r, c):
    """True if there is a sound date."""
    v = r[c]
    if blank(v):
      return False
    ok = len(v) == 8 and all(x in u'0123456789' for x in v)
    if ok:
      y, m, d = int(v[:4]), int(v[4:6]), int(v[6:])
      leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
      days = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
      ok = y >= 1 and 1 <= m <= 12 and 1 <= d <= days[m - 1]
    if not ok:
      self.inv(c)
    return ok

  def degrees(self, r, c, limit):
    """The number of a coordinate, None if there is none."""
    v, plain = floats(r[c])
    if v is None:
      self.inv(c)
      return None
    if not plain:
      self.odd_float()
    if abs(v) > limit:
      self.inv(c)
    return v

  def enum(self, r, c, good):
    """Whole numbers, others than the good ones are warned of."""
    if blank(r[c]):
      return None
    v, _ = ints(r[c])
    if v is None:
      self.inv(c)
    elif v not in good:
      self.inv(c, 'W')
    return v


def secs(s):
  p = s.split(u':')
  if (len(p) == 3 and all(x and all(y in u'0123456789' for y in x) for x in p)
      and len(p[0]) <= 3 and len(p[1]) == 2 and len(p[2]) == 2 and
      int(p[1]) < 60 and int(p[2]) < 60):
    return int(p[0]) * 3600 + int(p[1]) * 60 + int(p[2])
  return None


def agency(r):
  p = P()
  p.required(r, 'agency_name', 'agency_url', 'agency_timezone')
  p.url(r, 'agency_url')
  p.url(r, 'agency_fare_url')
  p.lang(r, 'agency_lang')
  p.tz(r, 'agency_timezone')
  v = r['agency_email']
  if not blank(v):
    a, at, b = v.partition(u'@')
    dom = b.rpartition(u'.')
    # one @; something before it; a dot with something on both sides after it
    if not (a and at and u'@' not in b and u'.' in b[1:-1]):
      p.inv('agency_email')
  return p


def stop(r):
  p = P()
  p.required(r, 'stop_id', 'stop_name', 'stop_lat', 'stop_lon')
  lat = None if blank(r['stop_lat']) else p.degrees(r, 'stop_lat', 90)
  lon = None if blank(r['stop_lon']) else p.degrees(r, 'stop_lon', 180)
  if lat is not None and lon is not None and abs(lat) < 1 and abs(lon) < 1:
    p.inv('stop_lat', 'W')
  p.url(r, 'stop_url')
  p.enum(r, 'location_type', (0, 1, 2, 3, 4))
  p.tz(r, 'stop_timezone')
  parent = not blank(r['parent_station'])
  if parent and not blank(r['stop_timezone']):
    p.inv('stop_timezone', 'W')
  if parent and ints(r['location_type'])[0] == 1:
    p.inv('parent_station')
  p.yes_no(r, 'wheelchair_boarding')
  if (not blank(r['stop_desc']) and
      r['stop_desc'].strip().lower() == r['stop_name'].strip().lower()):
    p.inv('stop_desc', 'W')
  return p


def luminance(c):
  return (299 * int(c[:2], 16) + 587 * int(c[2:4], 16) + 114 * int(c[4:], 16))


def is_color(c):
  return len(c) == 6 and all(x in u'0123456789abcdefABCDEF' for x in c)


def route(r):
  p = P()
  p.required(r, 'route_id', 'route_type')
  s, l, d = r['route_short_name'], r['route_long_name'], r['route_desc']
  if blank(s) and blank(l):
    p.inv('route_short_name')
  if len(s) > 6:
    p.inv('route_short_name', 'W')
  if not blank(s) and not blank(l):
    a, b = s.strip().lower(), l.strip().lower()
    if a == b or b[:len(a) + 1] in (a + u' ', a + u'(', a + u'-'):
      p.inv('route_long_name', 'W')
  if not blank(d) and d in (s, l):
    p.inv('route_desc')
  if not blank(r['route_type']):
    v, plain = ints(r['route_type'])
    if v is None or v < 0:
      p.inv('route_type')
    else:
      if not plain:
        p.odd_int()
      if v > 7:
        p.inv('route_type', 'W')
  p.url(r, 'route_url')
  colors = []
  for c, default in (('route_color', u'ffffff'), ('route_text_color',
                                                  u'000000')):
    v = r[c]
    if not blank(v) and not is_color(v):
      p.inv(c)
    colors.append(luminance(v if is_color(v) else default))
  if abs(colors[0] - colors[1]) * 7 < 510 * 1000:
    p.inv('route_color', 'W')
  p.yes_no(r, 'bikes_allowed')
  if r['agency_id'] not in (u'AG1', u'AG2'):
    p.inv('agency_id')
  return p


def trip(r):
  p = P()
  p.required(r, 'trip_id', 'route_id', 'service_id')
  p.among(r, 'route_id', (u'R1', u'R2'))
  p.among(r, 'service_id', (u'WK', u'WE'))
  p.among(r, 'shape_id', (u'SH1', u'SH2'))
  p.among(r, 'direction_id', (u'0', u'1'))
  p.yes_no(r, 'bikes_allowed')
  p.yes_no(r, 'wheelchair_accessible')
  return p


def stop_time(r):
  """Nothing else of a row without a sequence number or a known stop."""
  p = P()
  v, _ = ints(r['stop_sequence'])
  if v is None or v < 0:
    p.inv('stop_sequence')
    if v is None:
      return p
  if r['stop_id'] not in (u'S1', u'S2', u'S3', u'ST'):
    p.inv('stop_id')
    return p
  t = {}
  for c in ('arrival_time', 'departure_time'):
    t[c] = secs(r[c])
    if not blank(r[c]) and t[c] is None:
      p.inv(c)
  a, d = t['arrival_time'], t['departure_time']
  if a is not None and blank(r['departure_time']):
    p.miss('departure_time')
  if d is not None and blank(r['arrival_time']):
    p.miss('arrival_time')
  if a is not None and d is not None and d < a:
    p.inv('departure_time')
  on = p.enum(r, 'pickup_type', (0, 1, 2, 3))
  off = p.enum(r, 'drop_off_type', (0, 1, 2, 3))
  if on == 1 and off == 1 and a is None and d is None:
    p.add(('OtherProblem', 'W', None))
  p.enum(r, 'timepoint', (0, 1))
  v = r['shape_dist_traveled']
  if not blank(v) and floats(v)[0] is None:
    p.inv('shape_dist_traveled')
  return p


def frequency(r):
  """Judged from left to right; nothing after the first that is unusable."""
  p = P()
  if not blank(r['exact_times']):
    v, _ = ints(r['exact_times'])
    if v not in (0, 1):
      p.inv('exact_times')
  t = {}
  for c in ('start_time', 'end_time'):
    t[c] = secs(r[c])
    if blank(r[c]):
      p.miss(c)
      return p
    if t[c] is None:
      p.inv(c)
      return p
  if blank(r['headway_secs']):
    p.miss('headway_secs')
    return p
  v, _ = ints(r['headway_secs'])
  if v is None or v <= 0:
    p.inv('headway_secs')
    return p
  if t['end_time'] <= t['start_time']:
    p.inv('end_time')
  return p


def fare(r):
  p = P()
  p.required(r, 'fare_id', 'price', 'currency_type', 'payment_method')
  if not blank(r['price']):
    v, _ = floats(r['price'])
    if v is None or v < 0:
      p.inv('price')
  p.among(r, 'currency_type', (u'USD', u'EUR', u'JPY'))
  for c, top in (('payment_method', 1), ('transfers', 2)):
    if not blank(r[c]):
      v, _ = ints(r[c])
      if v is None or not 0 <= v <= top:
        p.inv(c)
  if not blank(r['transfer_duration']):
    v, _ = ints(r['transfer_duration'])
    if v is None or v < 0:
      p.inv('transfer_duration')
  return p


def fare_rule(r):
  p = P()
  p.required(r, 'fare_id')
  if blank(r['fare_id']):
    return p
  p.among(r, 'fare_id', (u'F1', u'F2'))
  p.among(r, 'route_id', (u'R1', u'R2'))
  for c in ('origin_id', 'destination_id', 'contains_id'):
    p.among(r, c, (u'Z1', u'Z2'))
  return p


def transfer(r):
  p = P()
  p.required(r, 'from_stop_id', 'to_stop_id')
  kind = 0
  ok = not p
  if not blank(r['transfer_type']):
    kind, _ = ints(r['transfer_type'])
    if kind is None or not 0 <= kind <= 3:
      p.inv('transfer_type')
      ok = False
  if not blank(r['min_transfer_time']):
    if kind != 2:
      p.add(('MinimumTransferTimeSetWithInvalidTransferType', 'E', None))
    v, _ = ints(r['min_transfer_time'])
    if v is None or v < 0 or v >= 24 * 3600:
      p.inv('min_transfer_time')
      ok = ok and v is not None and v >= 0
    elif v >= 3 * 3600:
      p.inv('min_transfer_time', 'W')
  if ok:  # references are looked at if the fields can be used
    p.among(r, 'from_stop_id', (u'S1', u'S2', u'S3', u'ST'))
    p.among(r, 'to_stop_id', (u'S1', u'S2', u'S3', u'ST'))
  return p


def feed_info(r):
  p = P()
  p.required(r, 'feed_publisher_name', 'feed_publisher_url', 'feed_lang')
  p.url(r, 'feed_publisher_url')
  p.lang(r, 'feed_lang')
  a = p.date(r, 'feed_start_date')
  b = p.date(r, 'feed_end_date')
  if a and b and r['feed_end_date'] < r['feed_start_date']:
    p.inv('feed_end_date')
  return p


def shape_point(r):
  """Judged from left to right; nothing after the first that is unusable."""
  p = P()
  p.required(r, 'shape_id')
  if p:
    return p
  v, plain = ints(r['shape_pt_sequence'])
  if v is None or v < 0:
    p.inv('shape_pt_sequence')
    return p
  if not plain:
    p.odd_int()
  at = []
  for c, limit in (('shape_pt_lat', 90), ('shape_pt_lon', 180)):
    v = p.degrees(r, c, limit)
    if v is None or abs(v) > limit:
      return p
    at.append(v)
  if abs(at[0]) < 1 and abs(at[1]) < 1:
    p.inv('shape_pt_lat', 'W')
    return p
  if not blank(r['shape_dist_traveled']):
    v, plain = floats(r['shape_dist_traveled'])
    if v is not None and not plain:
      p.odd_float()
    if v is None or v < 0:
      p.inv('shape_dist_traveled')
  return p


def calendar(r):
  p = P()
  p.required(r, *r.keys())
  ok = {}
  for c in ('start_date', 'end_date'):
    ok[c] = p.date(r, c)
    if ok[c] and not u'1900' <= r[c][:4] <= u'2100':
      p.add(('DateOutsideValidRange', 'E', c))
      ok[c] = False
  if (ok['start_date'] and ok['end_date'] and
      r['end_date'] < r['start_date']):
    p.inv('end_date')
  for c in DAYS:
    p.among(r, c, (u'0', u'1'))
  if not any(r[c] == u'1' for c in DAYS):
    p.add(('OtherProblem', 'W', None))
  return p


def calendar_date(r):
  """The date of a row of no sound exception type is not used."""
  p = P()
  p.required(r, 'service_id')
  if r['exception_type'] not in (u'1', u'2'):
    p.inv('exception_type')
    return p
  p.required(r, 'date')
  if p.date(r, 'date') and not u'1900' <= r['date'][:4] <= u'2100':
    p.add(('DateOutsideValidRange', 'E', 'date'))
  return p


DAYS = [u'monday', u'tuesday', u'wednesday', u'thursday', u'friday',
        u'saturday', u'sunday']
REF = lambda *ok: list(ok) + [u'nosuch', ok[0].lower()]

# table -> (rule, identifier column, columns and alphabets)
TABLES = collections.OrderedDict([
    ('agency.txt', (agency, 'agency_id', [
        ('agency_name', TEXT), ('agency_url', URL), ('agency_timezone', TZ),
        ('agency_lang', LANG), ('agency_phone', TEXT),
        ('agency_fare_url', URL), ('agency_email', EMAIL)])),
    ('stops.txt', (stop, 'stop_id', [
        ('stop_name', TEXT), ('stop_lat', LAT), ('stop_lon', LON),
        ('stop_desc', TEXT + [u'ONE', u'One x']), ('zone_id', TEXT),
        ('stop_url', URL), ('stop_code', TEXT),
        ('location_type', INT4 + [u'5']), ('parent_station', [u'', u'ST']),
        ('stop_timezone', TZ), ('wheelchair_boarding', YNU)])),
    ('routes.txt', (route, 'route_id', [
        ('route_short_name', [u'', u'1', u'One', u'sixsix', u'seven77',
                              u'\xe9\xe9']),
        ('route_long_name', [u'', u'1', u'one', u'One Way', u'ONE-way',
                             u'One(x)', u'Onex', u'1 One', u'\xe9\xe9 x',
                             u'The One']),
        ('route_type', [u'', u'0', u'3', u'7', u'8', u'-1', u'x', u'03', u'+3',
                        u'3.0', u'100']),
        ('agency_id', [u'AG1', u'AG2', u'AG3', u'ag1', u'']),
        ('route_desc', [u'', u'1', u'One', u'One Way', u'one', u'd']),
        ('route_url', URL), ('route_color', COLOR),
        ('route_text_color', COLOR), ('bikes_allowed', YNU)])),
    ('trips.txt', (trip, 'trip_id', [
        ('route_id', [u'R1', u'R2', u'R3', u'r1', u'']),
        ('service_id', [u'WK', u'WE', u'nosuch', u'']),
        ('trip_headsign', TEXT), ('trip_short_name', TEXT),
        ('direction_id', FLAG), ('block_id', TEXT),
        ('shape_id', [u'', u'SH1', u'SH2', u'nosuch']),
        ('bikes_allowed', YNU), ('wheelchair_accessible', YNU),
        ('original_trip_id', TEXT)])),
    ('stop_times.txt', (stop_time, None, [
        ('arrival_time', TIME), ('departure_time', TIME),
        ('stop_id', [u'S1', u'S2', u'nosuch', u's1', u'']),
        ('stop_sequence', [u'0', u'1', u'99', u'-1', u'x', u'', u'1.0']),
        ('stop_headsign', TEXT), ('pickup_type', INT4),
        ('drop_off_type', INT4), ('shape_dist_traveled', DIST),
        ('timepoint', [u'', u'0', u'1', u'2', u'-1', u'x'])])),
    ('frequencies.txt', (frequency, None, [
        ('start_time', TIME), ('end_time', TIME),
        ('headway_secs', [u'', u'1', u'600', u'0', u'-1', u'x', u'1.5',
                          u'100000']),
        ('exact_times', [u'', u'0', u'1', u'2', u'-1', u'x', u'1.0'])])),
    ('fare_attributes.txt', (fare, 'fare_id', [
        ('price', [u'0', u'1', u'1.25', u'-0.01', u'-1', u'x', u'', u'nan',
                   u'inf', u'1,5', u'.5', u'$1', u'1e1']),
        ('currency_type', [u'USD', u'EUR', u'JPY', u'usd', u'US', u'XYZ', u'',
                           u'\u20ac']),
        ('payment_method', [u'0', u'1', u'2', u'-1', u'x', u'', u'1.0']),
        ('transfers', [u'', u'0', u'1', u'2', u'3', u'-1', u'x', u'1.0']),
        ('transfer_duration', [u'', u'0', u'1', u'3600', u'-1', u'x', u'1.5',
                               u'1000000'])])),
    ('fare_rules.txt', (fare_rule, None, [
        ('fare_id', [u'F1', u'F2', u'F3', u'f1', u'']),
        ('route_id', [u'', u'R1', u'R2', u'nosuch']),
        ('origin_id', [u'', u'Z1', u'Z2', u'nosuch', u'z1']),
        ('destination_id', [u'', u'Z1', u'Z2', u'nosuch', u'z1']),
        ('contains_id', [u'', u'Z1', u'Z2', u'nosuch', u'z1'])])),
    ('transfers.txt', (transfer, None, [
        ('from_stop_id', [u'S1', u'S2', u'nosuch', u's1', u'']),
        ('to_stop_id', [u'S1', u'S3', u'nosuch', u's1', u'']),
        ('transfer_type', INT4),
        ('min_transfer_time', [u'', u'0', u'1', u'600', u'10799', u'10800',
                               u'86399', u'86400', u'-1', u'x', u'1.5'])])),
    ('feed_info.txt', (feed_info, None, [
        ('feed_publisher_name', TEXT), ('feed_publisher_url', URL),
        ('feed_lang', LANG), ('feed_start_date', DATE),
        ('feed_end_date', DATE), ('feed_version', TEXT)])),
    ('shapes.txt', (shape_point, 'shape_id', [
        ('shape_pt_lat', LAT), ('shape_pt_lon', LON),
        ('shape_pt_sequence', [u'0', u'1', u'99', u'-1', u'x', u'', u'01',
                               u'1.0']),
        ('shape_dist_traveled', [u'', u'0', u'1.5', u'-0.1', u'x', u'1e1',
                                 u'.5', u'nan'])])),
    ('calendar.txt', (calendar, 'service_id', [
        ('start_date', CALDATE), ('end_date', CALDATE)] +
        [(d, FLAG) for d in DAYS])),
    ('calendar_dates.txt', (calendar_date, 'service_id', [
        ('date', CALDATE), ('exception_type', FLAG + [u'3'])])),
])

# columns that are judged together: explored in full
GROUPS = [
    ('stops.txt', ['location_type', 'parent_station', 'stop_timezone']),
    ('stops.txt', ['stop_lat', 'stop_lon', 'parent_station']),
    ('routes.txt', ['route_short_name', 'route_long_name', 'route_desc']),
    ('routes.txt', ['route_color', 'route_text_color', 'route_type']),
    ('stop_times.txt', ['arrival_time', 'departure_time', 'pickup_type',
                        'drop_off_type']),
    ('frequencies.txt', ['start_time', 'end_time', 'headway_secs']),
    ('fare_attributes.txt', ['price', 'currency_type', 'payment_method']),
    ('fare_attributes.txt', ['payment_method', 'transfers',
                             'transfer_duration']),
    ('fare_rules.txt', ['fare_id', 'route_id', 'origin_id', 'destination_id']),
    ('transfers.txt', ['from_stop_id', 'to_stop_id', 'transfer_type',
                       'min_transfer_time']),
    ('shapes.txt', ['shape_pt_lat', 'shape_pt_lon', 'shape_dist_traveled']),
    ('calendar.txt', ['start_date', 'end_date', 'monday']),
    ('trips.txt', ['route_id', 'service_id', 'shape_id']),
]
SMALL = {  # for the larger groups
    'arrival_time': [u'', u'08:00:00', u'09:30:00', u'08:60:00', u'x'],
    'departure_time': [u'', u'08:00:00', u'8:00:00', u'09:30:00', u'x'],
    'pickup_type': [u'', u'0', u'1', u'x', u'4'],
    'drop_off_type': [u'', u'1', u'3', u'x', u'4'],
    'start_time': TIME[:6] + [u'x'], 'end_time': TIME[:6] + [u'x'],
    'transfer_type': [u'', u'0', u'2', u'3', u'4', u'x'],
    'monday': [u'0', u'1', u'x', u''],
    'start_date': CALDATE[:3] + [u'20100229', u'18991231', u'21001231', u''],
    'end_date': CALDATE[:3] + [u'20100229', u'21010101', u'19000101', u''],
}

JUDGED = set(['MissingValue', 'InvalidValue', 'InvalidFloatValue',
              'InvalidNonNegativeIntegerValue', 'DateOutsideValidRange',
              'OtherProblem', 'MinimumTransferTimeSetWithInvalidTransferType'])


def gen_pairs(tier):
  for name, (_, _, cols) in TABLES.items():
    names = [c for c, _ in cols]
    for pair in itertools.combinations(names, 2):
      yield [name, list(pair), False]


def gen_groups(tier):
  for name, cols in GROUPS:
    yield [name, cols, True]
  if tier != 'quick':
    for name, (_, _, cols) in TABLES.items():
      for tri in itertools.combinations([c for c, _ in cols], 3):
        yield [name, list(tri), True]


def rows_of(name, cols, small):
  """All rows of the case: the sound row with every combination of values."""
  rule, key, alphabets = TABLES[name]
  base = dict(feeds.base().tables[name].rows[0])
  if name == 'stops.txt':
    base['parent_station'] = u''
  if name == 'routes.txt':
    base['route_desc'] = u'something'
  if name == 'transfers.txt':
    base['transfer_type'] = u''
  alpha = dict(alphabets)
  sets = []
  for c in cols:
    vals = alpha[c]
    if small and len(cols) > 2 and c in SMALL:
      vals = SMALL[c]
    elif small and len(cols) > 2 and len(vals) > 9:
      vals = vals[::2] + vals[1:2]
    sets.append(vals)
  out = []
  for combo in itertools.product(*sets):
    r = dict(base)
    r.update(zip(cols, combo))
    out.append(r)
  return out, key, rule


CHUNK = 400


def run_rows(x, case):
  name, cols, small = case
  rows, key, rule = rows_of(name, cols, small)
  per = 1 if name == 'feed_info.txt' else CHUNK
  for i in range(0, len(rows), per):
    chunk(x, name, cols, rows[i:i + per], key, rule)
    if x.case_failures:
      return


def chunk(x, name, cols, rows, key, rule):
  f = feeds.base()
  t = f.tables[name]
  if name in ('stop_times.txt', 'frequencies.txt'):
    tr = f.tables['trips.txt']
    for i, r in enumerate(rows):
      row = dict(tr.rows[2])
      row['trip_id'] = u'X%d' % i
      tr.rows.append(row)
      r['trip_id'] = u'X%d' % i
  if name == 'feed_info.txt':
    t.rows[:] = []
  if name == 'calendar_dates.txt':
    f.tables['calendar.txt'].rows[:0] = []
  first = len(t.rows) + 2
  for i, r in enumerate(rows):
    if key:
      r[key] = u'X%d' % i
    t.rows.append(r)
  s, rec = feeds.load(f, extra_validation=False)
  x.step(len(rows))
  got = {}
  for e in rec.problems:
    n = getattr(e, 'row_num', None)
    cls = e.__class__.__name__
    if getattr(e, 'file_name', None) != name or n is None or cls not in JUDGED:
      continue
    if name == 'calendar_dates.txt' and cls == 'OtherProblem':
      continue  # the service may have no other dates
    got.setdefault(n, []).append(e)
  bad = 0
  for i, r in enumerate(rows):
    es = got.get(first + i, [])
    g = set((e.__class__.__name__, feeds.ptype(e),
             getattr(e, 'column_name', None)) for e in es)
    w = set(rule(r))
    shown = dict((c, r[c]) for c in cols)
    if g != w:
      for k in sorted(g ^ w, key=repr):
        x.fail('%s-%s-%s' % ('unreported' if k in w else 'reported', k[0],
                             k[2] or name),
               '%s %r: %r, want %r' % (name, shown, sorted(g), sorted(w)))
      bad += 1
    for e in es:
      c = getattr(e, 'column_name', None)
      v = getattr(e, 'value', None)
      if c in r and e.__class__.__name__ == 'InvalidValue':
        if feeds.ptype(e) == 'W' and v is None:
          continue  # of a colour that was reported and left unset
        same = ((feeds.txt(v) or u'') == r[c].strip() or
                v is not None and v == secs(r[c]))
        if not same:
          try:
            same = float(v) == float(r[c])
          except (TypeError, ValueError):
            pass
        x.check(same, 'value-shown', lambda: '%s %r: value %r of %s' %
                (name, shown, v, c))
    x.state((name, sorted(shown.items()), sorted(g)))
    x.outcome('%s %s' % (name, 'sound' if not w else 'faulty'))
    if bad > 3:
      return
  stored(x, name, rows, cols, s, rule)


NUMBERS = {  # column -> type of what is stored
    'stop_lat': float, 'stop_lon': float, 'location_type': int,
    'route_type': int, 'price': float, 'payment_method': int,
    'transfers': int, 'transfer_duration': int, 'transfer_type': int,
    'min_transfer_time': int}


def stored(x, name, rows, cols, s, rule):
  """Sound rows are stored with the values given."""
  got = {'agency.txt': lambda r: s.GetAgency(r['agency_id']),
         'stops.txt': lambda r: s.GetStop(r['stop_id']),
         'routes.txt': lambda r: s.GetRoute(r['route_id']),
         'trips.txt': lambda r: s.GetTrip(r['trip_id']),
         'fare_attributes.txt': lambda r: s.GetFareAttribute(r['fare_id']),
         'feed_info.txt': lambda r: s.feed_info}.get(name)
  q = feeds.reporter()[0]
  for r in rows:
    if any(k[1] == 'E' for k in rule(r)):
      continue
    shown = dict((c, r[c]) for c in cols)
    if got is not None:
      try:
        o = got(r)
      except KeyError:
        x.fail('not-stored', '%s %r' % (name, shown))
        continue
      for c in cols:
        v = getattr(o, c)
        if c in NUMBERS:
          if blank(r[c]):
            want = 0 if c in ('location_type', 'transfer_type') else None
            ok = v == want or v == ''
          else:
            ok = v == NUMBERS[c](float(r[c])) and isinstance(
                v, (int, long) if NUMBERS[c] is int else float)
        else:
          ok = (feeds.txt(v) or u'') == r[c]
        x.check(ok, 'stored-' + c, lambda: '%s %r: %s is %r' %
                (name, shown, c, v))
    elif name == 'stop_times.txt':
      st = s.GetTrip(r['trip_id']).GetStopTimes(q)
      if not x.check(len(st) == 1, 'not-stored', '%s %r' % (name, shown)):
        continue
      g = feeds.stoptime(st[0])
      d = r['shape_dist_traveled']
      w = (secs(r['arrival_time']), secs(r['departure_time']), r['stop_id'],
           int(r['stop_sequence']), r['stop_headsign'],
           ints(r['pickup_type'])[0], ints(r['drop_off_type'])[0],
           None if blank(d) else float(d), ints(r['timepoint'])[0])
      x.eq(g, w, 'stored-stop-time', repr(shown))
    elif name == 'frequencies.txt':
      g = [tuple(v) for v in s.GetTrip(r['trip_id']).GetFrequencyTuples()]
      w = [(secs(r['start_time']), secs(r['end_time']),
            int(r['headway_secs']), ints(r['exact_times'])[0] or 0)]
      x.eq(g, w, 'stored-frequency', repr(shown))
    elif name == 'shapes.txt':
      if any(k[0] == 'InvalidValue' for k in rule(r)):
        continue  # too close to 0, 0: not used
      d = r['shape_dist_traveled']
      x.eq([(a, b, c or 0.0) for a, b, c in s.GetShape(r['shape_id']).points],
           [(float(r['shape_pt_lat']), float(r['shape_pt_lon']),
             0.0 if blank(d) else float(d))], 'stored-shape', repr(shown))
    elif name == 'calendar.txt':
      g = s.GetServicePeriod(r['service_id'])
      x.eq((g.start_date, g.end_date, tuple(g.day_of_week)),
           (r['start_date'], r['end_date'],
            tuple(r[d] == u'1' for d in DAYS)), 'stored-calendar', repr(shown))
    elif name == 'calendar_dates.txt':
      g = s.GetServicePeriod(r['service_id'])
      x.eq(dict((k, int(v[0])) for k, v in g.date_exceptions.items()),
           {r['date']: int(r['exception_type'])}, 'stored-date', repr(shown))
  if name in ('fare_rules.txt', 'transfers.txt'):
    want = []
    kept = feeds.base().tables[name].rows + [
        r for r in rows if not any(k[1] == 'E' for k in rule(r))]
    num = lambda v: None if blank(v) else int(v)
    if name == 'fare_rules.txt':
      g = [tuple(v or u'' for v in fr.GetFieldValuesTuple())
           for fa in s.GetFareAttributeList() for fr in fa.GetFareRuleList()]
      w = [tuple(r[c] for c in ('fare_id', 'route_id', 'origin_id',
                                'destination_id', 'contains_id'))
           for r in kept]
      # rules with an unknown route or zone are kept as well
      w += [tuple(r[c] for c in ('fare_id', 'route_id', 'origin_id',
                                 'destination_id', 'contains_id'))
            for r in rows if rule(r) and
            not any(k[2] == 'fare_id' for k in rule(r))]
    else:
      kept_keys = None
      g = [(t.from_stop_id, t.to_stop_id, t.transfer_type,
            t.min_transfer_time if t.min_transfer_time != '' else None)
           for t in s.GetTransferList()]
      w = [(r['from_stop_id'], r['to_stop_id'], num(r['transfer_type']) or 0,
            num(r['min_transfer_time'])) for r in kept]
      # of the others it is not said whether they are kept
      left = collections.Counter(g)
      left.subtract(collections.Counter(w))
      x.check(all(v >= 0 for v in left.values()), 'stored-' + name,
              lambda: 'not stored: %r' % [k for k, v in left.items() if v < 0])
      return
    x.eq(sorted(g), sorted(w), 'stored-' + name)


# ---- identifiers: one row each --------------------------------------------------
def gen_ids(tier):
  for name, (_, key, cols) in TABLES.items():
    keys = [key] if key else (['trip_id'] if name in (
        'stop_times.txt', 'frequencies.txt') else [])
    for k in keys:
      for v in (u'', u' ', u'  ', u'x', u'0', u'\xe9\u20ac', u'a b', u'None'):
        yield [name, k, v]


def run_ids(x, case):
  name, key, v = case
  f = feeds.base()
  rows, _, rule = rows_of(name, [], False)
  r = rows[0]
  r[key] = v
  t = f.tables[name]
  t.rows.append(r)
  if name == 'trips.txt':
    pass
  s, rec = feeds.load(f)
  x.step()
  g = set((e.__class__.__name__, feeds.ptype(e), e.column_name)
          for e in rec.problems
          if getattr(e, 'file_name', None) == name and
          getattr(e, 'row_num', None) == len(t.rows) + 1 and
          e.__class__.__name__ in JUDGED)
  if name in ('stop_times.txt', 'frequencies.txt'):
    w = set([('InvalidValue', 'E', 'trip_id')])
  elif blank(v) and name != 'agency.txt':
    w = set([('MissingValue', 'E', key)])
  else:
    w = set()
  x.eq(g, w, 'id-' + name, repr(case))
  x.outcome('missing' if blank(v) else 'given')
  x.state((case, sorted(g)))


# ---- the same rows as objects ----------------------------------------------------
OBJECTS = {'agency.txt': 'Agency', 'stops.txt': 'Stop', 'routes.txt': 'Route',
           'fare_attributes.txt': 'FareAttribute', 'transfers.txt': 'Transfer'}
LINKED = {'routes.txt': ['agency_id'],
          'transfers.txt': ['from_stop_id', 'to_stop_id']}


def gen_objects(tier):
  for name in sorted(OBJECTS):
    names = [c for c, _ in TABLES[name][2] if c not in LINKED.get(name, [])]
    for pair in itertools.combinations(names, 2):
      yield [name, list(pair)]


def run_objects(x, case):
  """Objects validated outside any schedule, by the same rules."""
  name, cols = case
  rows, key, rule = rows_of(name, cols, False)
  cls = getattr(transitfeed, OBJECTS[name])
  alpha = dict(TABLES[name][2])
  for n, r in enumerate(rows):
    d = dict((k, v) for k, v in r.items() if k in alpha or k == key)
    if n % 2:  # blank values left out
      d = dict((k, v) for k, v in d.items() if v != u'')
    o = cls(field_dict=d)
    p, rec = feeds.reporter()
    o.Validate(p)
    x.step()
    g = set((e.__class__.__name__, feeds.ptype(e),
             getattr(e, 'column_name', None)) for e in rec.problems)
    w = set(rule(r))
    if not x.eq(sorted(g), sorted(w), 'object-' + name,
                repr(dict((c, r[c]) for c in cols))):
      return
    x.outcome('sound' if not w else 'faulty')
    x.state((name, sorted((c, r[c]) for c in cols), sorted(g)))


SCENARIOS = [
    Scenario('ids', gen_ids, run_ids,
             bound='8 values of every identifier'),
    Scenario('groups', gen_groups, run_rows,
             bound='all combinations of values of 13 groups of 3 or 4 columns '
             '(thorough: of every 3 columns of every table)'),
    Scenario('pairs', gen_pairs, run_rows,
             bound='every pair of columns of every table, all pairs of values '
             'of alphabets of up to 22'),
    Scenario('objects', gen_objects, run_objects,
             bound='the same pairs validated as objects of 5 classes'),
]
