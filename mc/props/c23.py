# -*- coding: utf-8 -*-
"""C23: upgrading translations keeps every translation of every record.

Feeds are all sets of up to two (three) cells holding a translation key, an
original text or other text, for several sets of old translations, feed
languages and ways of writing the files.  The old files and the files written
by the real converter are read by independent interpreters of the two formats;
what they say about every record must be the same."""
import csv
import itertools
import os
import shutil
import StringIO
import sys
import tempfile

import upgrade_translations as ut
from core import Scenario
from feeds import U

B8 = lambda s: s.encode('utf-8') if isinstance(s, unicode) else s

# table -> (columns, rows, record id column, record sub id column)
TABLES = [
    ('agency', 'agency_id,agency_name,agency_url,agency_timezone,agency_lang',
     [['a1', 'plain', 'http://a', 'UTC', ''], ['a2', 'plain', '', 'UTC', '']],
     ['agency_id']),
    ('stops', 'stop_id,stop_name,stop_desc,stop_lat,tts_stop_name,zone_id',
     [['s1', 'plain', '', '1', '', ''], ['s2', 'other', '', '2', '', '']],
     ['stop_id']),
    ('routes', 'route_long_name,route_short_name,route_id,route_type',
     [['plain', '', 'r1', '3'], ['plain', '', 'r2', '3']], ['route_id']),
    ('trips', 'route_id,service_id,trip_id,trip_headsign,trip_short_name',
     [['r1', 'w', 't1', 'plain', ''], ['r1', 'w', 't2', 'plain', ''],
      ['r2', 'w', 't3', 'other', '']], ['trip_id']),
    ('stop_times', 'trip_id,stop_id,stop_sequence,stop_headsign',
     [['t1', 's1', '1', 'plain'], ['t1', 's2', '2', ''],
      ['t2', 's1', '1', 'plain']], ['trip_id', 'stop_sequence']),
    ('feed_info', 'feed_publisher_name,feed_publisher_url,feed_lang',
     [['plain', 'http://p', 'en']], []),
    ('pathways', 'pathway_id,from_stop_id,signposted_as,instructions',
     [['p1', 's1', '', ''], ['p2', 's2', 'plain', '']], ['pathway_id']),
    ('levels', 'level_id,level_index,level_name',
     [['l1', '0', 'plain']], ['level_id']),
    ('transfers', 'from_stop_id,to_stop_id,transfer_desc',
     [['s1', 's2', ''], ['s1', 's1', '']], ['from_stop_id', 'to_stop_id']),
    ('areas', 'kind,area_id,area_name,other_id',
     [['plain', 'x1', 'plain', 'o1'], ['K1', 'x2', '', 'o1']], ['area_id']),
    ('calendar', 'service_id,start_date', [['w', '20100101'], ['K1', 'A']],
     ['service_id']),
    ('notes', 'kind,note_text', [['plain', 'plain']], []),
    ('empty', '', [], []),
]
NAMES = [t[0] for t in TABLES]
SUFFIXES = ('_name', '_desc', '_headsign', '_url', '_text', '_abbreviation',
            'signposted_as', 'instructions')

# old translations: trans_id -> {lang: text}
MAPS = {
    'keys': {'K1': {'en': 'A', 'de': 'A1', 'fr': 'A2'},
             'K2': {'en': 'A', 'de': 'A3'},
             'K3': {'en': 'B', 'de': 'B1', 'it': 'B2'}},
    'natural': {'A': {'en': 'A', 'de': 'A1'},
                'B': {'en': 'B', 'de': 'B1', 'fr': 'B'}},
    'crossed': {'A': {'en': 'B', 'de': 'x'}, 'B': {'en': 'A', 'de': 'y'}},
    'only': {'K1': {'en': 'A'}, 'K3': {'en': 'B', 'de': 'B'}},
    'odd': {'K1': {'en': 'Ä, "q"\nz', 'de': ''},
            'ü,"k': {'en': 'E', 'de': 'D'},
            'K3': {'en': 'plain', 'de': 'P1'}},
    'mixed': {'A': {'en': 'A', 'de': 'A1'}, 'K2': {'en': 'A', 'de': 'A3'},
              'B': {'en': 'A', 'fr': 'A4'}},
    'same': {'K1': {'en': 'A', 'de': 'A1'}, 'K2': {'en': 'A', 'de': 'A1'}},
    'german': {'K1': {'de': 'A', 'en': 'A1', 'fr': 'A2'},
               'K2': {'de': 'A', 'fr': 'A3'}, 'K3': {'de': 'B', 'en': 'B'}},
    'none': {},
}

CELLS = [
    ('agency', 0, 'agency_name'), ('agency', 1, 'agency_url'),
    ('stops', 0, 'stop_name'), ('stops', 0, 'stop_desc'),
    ('stops', 1, 'stop_name'), ('stops', 1, 'tts_stop_name'),
    ('stops', 0, 'zone_id'), ('routes', 0, 'route_long_name'),
    ('routes', 1, 'route_short_name'), ('trips', 0, 'trip_headsign'),
    ('trips', 1, 'trip_headsign'), ('trips', 2, 'trip_headsign'),
    ('trips', 0, 'trip_short_name'), ('stop_times', 0, 'stop_headsign'),
    ('stop_times', 1, 'stop_headsign'), ('stop_times', 2, 'stop_headsign'),
    ('feed_info', 0, 'feed_publisher_name'),
    ('feed_info', 0, 'feed_publisher_url'), ('pathways', 0, 'signposted_as'),
    ('pathways', 0, 'instructions'), ('pathways', 1, 'signposted_as'),
    ('levels', 0, 'level_name'), ('transfers', 0, 'transfer_desc'),
    ('transfers', 1, 'transfer_desc'), ('areas', 0, 'area_name'),
    ('areas', 1, 'area_name'), ('areas', 0, 'kind'), ('notes', 0, 'note_text'),
]


def values(name):
  m = MAPS[name]
  lang = 'de' if name == 'german' else 'en'
  vs = set(m) | set(t.get(lang) for t in m.values()) | set(['plain'])
  vs.discard('')
  return sorted(vs)


def make(assign):
  out = {}
  for n, cols, rows, ids in TABLES:
    out[n] = [cols.split(',') if cols else [], [list(r) for r in rows]]
  for (t, i, c), v in assign:
    cols, rows = out[t]
    rows[i][cols.index(c)] = v
  return out


def line(cells, how):
  w = []
  for c in cells:
    if how == 'all' or any(ch in c for ch in ',"\r\n'):
      c = '"%s"' % c.replace('"', '""')
    w.append(c)
  return ','.join(w)


def data(cols, rows, eol='\n', how='min', bom=False, final=True):
  if not cols:
    return ''
  s = eol.join([line(cols, how)] + [line(r, how) for r in rows])
  return ('\xef\xbb\xbf' if bom else '') + s + (eol if final else '')


def old_table(m, order=False):
  cols = ['trans_id', 'lang', 'translation']
  rows = [[k, l, t] for k, d in sorted(m.items())
          for l, t in sorted(d.items())]
  if order:
    cols = ['translation', 'lang', 'note', 'trans_id']
    rows = [[t, l, 'n', k] for k, l, t in reversed(rows)]
  return cols, rows


def read(path):
  h = open(path, 'rb')
  s = h.read()
  h.close()
  if s.startswith('\xef\xbb\xbf'):
    s = s[3:]
  rows = [r for r in csv.reader(StringIO.StringIO(s)) if r]
  if not rows:
    return [], []
  return rows[0], [r + [''] * (len(rows[0]) - len(r)) for r in rows[1:]]


def translatable(c):
  return any(c.endswith(s) for s in SUFFIXES)


def check(x, tables, m, lang, src, dst, raw):
  x.eq(sorted(f for f in os.listdir(dst)),
       sorted([n + '.txt' for n in tables] + ['translations.txt']), 'files',
       'files written')
  cols, rows = read(os.path.join(dst, 'translations.txt'))
  x.eq(cols, ['table_name', 'field_name', 'language', 'translation',
              'record_id', 'record_sub_id', 'field_value'], 'header', '')
  rows = [dict(zip(cols, r)) for r in rows]
  x.state(sorted(map(sorted, (r.items() for r in rows))))
  used = set()
  for name, (cols, recs) in sorted(tables.items()):
    ids = [t[3] for t in TABLES if t[0] == name][0]
    got_cols, got = read(os.path.join(dst, name + '.txt'))
    want = []
    for r in recs:
      d = dict(zip(cols, r))
      said = {}
      for c in cols:
        if translatable(c) and d[c] in m:
          said[c] = dict((k, v) for k, v in m[d[c]].items() if k != lang)
          d[c] = m[d[c]][lang]
      want.append((d, said))
    x.eq(got_cols, cols, 'columns', name)
    x.eq(got, [[d[c] for c in cols] for d, s in want], 'rows', name)
    if not any(s for d, s in want) and not any(translatable(c) for c in cols):
      h = open(os.path.join(dst, name + '.txt'), 'rb')
      x.eq(h.read(), raw[name], 'copy', name)
      h.close()
    for d, said in want:
      rid = d[ids[0]] if ids else ''
      sub = d[ids[1]] if len(ids) > 1 else ''
      for c in cols:
        found = {}
        for i, t in enumerate(rows):
          if t['table_name'] != name or t['field_name'] != c:
            continue
          if t['field_value']:
            if t['record_id'] or t['record_sub_id'] or \
                t['field_value'] != d[c]:
              continue
          elif (t['record_id'], t['record_sub_id']) != (rid, sub):
            continue
          used.add(i)
          if t['language'] in found:
            x.check(found[t['language']] == t['translation'], 'contradiction',
                    lambda: '%s %r %s: %r' % (name, d, c, rows))
          found[t['language']] = t['translation']
        if c in said:
          x.eq(found, said[c], 'translations', '%s %r %s' % (name, d, c))
        elif found:
          # A text given literally where another record of the table has it
          # by one key, and it is the text of no other key.
          keys = [k for k in m if m[k][lang] == d[c]]
          ok = name in ('trips', 'stop_times') and len(keys) == 1 and \
              found == dict((k, v) for k, v in m[keys[0]].items()
                            if k != lang)
          x.check(ok, 'translated', lambda: '%s %r %s: %r' % (
              name, d, c, found))
  x.eq([t for i, t in enumerate(rows) if i not in used], [], 'spurious',
       'translations of nothing')
  x.check(not any(t['language'] == lang for t in rows), 'feed language', '')


def convert(x, tables, name, lang, via='api', **style):
  m = MAPS[name]
  d = tempfile.mkdtemp()
  argv = sys.argv
  try:
    src, dst = os.path.join(d, 'feed'), os.path.join(d, 'out')
    os.mkdir(src)
    raw = {}
    order = style.pop('order', False)
    for n, (cols, rows) in tables.items():
      raw[n] = data(cols, rows, **style)
      h = open(os.path.join(src, n + '.txt'), 'wb')
      h.write(raw[n])
      h.close()
    h = open(os.path.join(src, 'translations.txt'), 'wb')
    cols, rows = old_table(m, order)
    h.write(data(cols, rows, **style))
    h.close()
    before = dict((f, open_read(os.path.join(src, f)))
                  for f in os.listdir(src))
    if via == 'api':
      ut.TranslationsConverter(src).convert_translations(dst)
    else:
      sys.argv = ['upgrade_translations.py', src + ('/' if via == 'main/'
                                                    else '')]
      if via == 'main2':
        sys.argv.append(dst)
      else:
        dst = src + '_upgraded'
      ut.main()
    x.step()
    x.eq(dict((f, open_read(os.path.join(src, f)))
              for f in os.listdir(src)), before, 'source', 'source changed')
    check(x, tables, m, lang, src, dst, raw)
  finally:
    sys.argv = argv
    shutil.rmtree(d)


def open_read(p):
  h = open(p, 'rb')
  try:
    return h.read()
  finally:
    h.close()


def gen_cells(tier):
  for name in sorted(MAPS):
    vs = values(name)
    yield name, ()
    for k in (1, 2, 3):
      for cells in itertools.combinations(range(len(CELLS)), k):
        if k == 3 and (tier == 'quick' or name not in ('keys', 'mixed')):
          if name not in ('keys', 'mixed') or not set(cells) <= set(
              (9, 10, 11)) and not set(cells) <= set((13, 14, 15)):
            continue
        if k == 2 and tier == 'quick' and len(set(
            CELLS[c][0] for c in cells)) > 1 and name not in ('keys', 'odd'):
          continue
        if k == 2 and tier == 'quick' and name == 'odd' and cells[1] > 16:
          continue
        for vals in itertools.product(vs, repeat=k):
          yield name, tuple(zip(cells, vals))


def run_cells(x, case):
  name, assign = case
  tables = make([(CELLS[i], B8(v)) for i, v in assign])
  lang = 'en'
  if name == 'german':
    lang = 'de'
    tables['feed_info'][1][0][2] = 'de'
  convert(x, tables, name, lang)
  x.outcome(name)


STYLES = {
    'plain': {}, 'crlf': {'eol': '\r\n'}, 'quoted': {'how': 'all'},
    'bom': {'bom': True}, 'bom crlf': {'bom': True, 'eol': '\r\n'},
    'open end': {'final': False}, 'order': {'order': True},
}


def gen_files(tier):
  for style in sorted(STYLES):
    for name in ('keys', 'odd', 'natural', 'none'):
      for how in ('api', 'main', 'main2', 'main/'):
        for lang in ('feed_info', 'no feed_info', 'blank', 'late', 'second'):
          for rows in (0, 1):
            yield style, name, how, lang, rows


def run_files(x, case):
  style, name, how, lang, rows = case
  vs = values(name)
  tables = make([(c, B8(vs[i % len(vs)])) for i, c in enumerate(CELLS)])
  cols, recs = tables['feed_info']
  agency = tables['agency'][1]
  if lang == 'no feed_info':
    del tables['feed_info']
    agency[0][4] = 'en'
  elif lang == 'blank':
    recs[0][2] = ''
    agency[0][4] = agency[1][4] = 'en'
  elif lang == 'late':
    recs[0][2] = ''
    agency[1][4] = 'en'
  elif lang == 'second':
    agency[0][4] = 'de'
  if rows == 0:
    for n in ('stops', 'levels', 'notes'):
      tables[n][1] = []
  convert(x, tables, name, 'en', how, **dict(STYLES[style]))
  x.outcome('files')


def gen_refused(tier):
  for lang in ('fr', 'xx', ''):
    for name in ('keys', 'natural'):
      yield lang, name


def run_refused(x, case):
  """Without a feed language, or originals in it, nothing is converted."""
  lang, name = case
  tables = make([])
  tables['feed_info'][1][0][2] = B8(lang)
  try:
    convert(x, tables, name, B8(lang))
  except KeyError:
    x.fail('unexplained', 'KeyError')
  except Exception as e:
    x.step()
    x.check('language' in str(e), 'unexplained', lambda: repr(e))
    x.outcome('refused')
    return
  x.fail('converted', 'converted without originals')


SCENARIOS = [
    Scenario('cells', gen_cells, run_cells,
             bound='<= 2 of 28 cells (3 of trips or stop times) x every text'),
    Scenario('files', gen_files, run_files,
             bound='ways of writing x languages x command lines'),
    Scenario('refused', gen_refused, run_refused, bound='missing languages'),
]
