# -*- coding: utf-8 -*-
"""C24: pathway diagrams show exactly the feed's stations, locations and
pathways.

Feeds are all parent-closed subsets of a forest of stations, platforms with
boarding areas, entrances and nodes, with all sets of up to two pathways; each
is drawn for every selection of stops.  The Graphviz text is read back with a
parser of the DOT grammar and compared with what the rows of the feed say."""
import itertools
import os
import re
import shutil
import sys
import tempfile

import visualize_pathways as vp
from core import Scenario

# id -> (location_type, parent)
FOREST = [
    ('S1', '1', ''), ('P1', '0', 'S1'), ('B1', '4', 'P1'), ('B2', '4', 'P1'),
    ('P2', '', 'S1'), ('E1', '2', 'S1'), ('N1', '3', 'S1'), ('S2', '1', ''),
    ('P3', '0', 'S2'), ('E2', '2', 'S2'), ('B4', '4', 'P3'), ('R', '0', ''),
    ('B3', '4', 'R'), ('Q', '', ''),
]
PARENT = dict((i, p) for i, t, p in FOREST)
STOP_COLS = ['stop_id', 'stop_name', 'stop_lat', 'location_type',
             'parent_station', 'platform_code', 'signposted_as']
PATH_COLS = ['pathway_id', 'from_stop_id', 'to_stop_id', 'pathway_mode',
             'is_bidirectional', 'signposted_as', 'reversed_signposted_as']
COLORS = {'0': 'lightskyblue', '1': 'lightyellow', '2': 'lightcoral',
          '3': 'lightgrey', '4': 'springgreen'}
SHAPES = {'0': 'box', '1': 'polygon', '2': 'doubleoctagon', '3': 'hexagon',
          '4': 'oval'}
MODES = ['unknown', 'walkway', 'stairs', 'moving_sidewalk', 'escalator',
         'elevator', 'fare_gate', 'exit_gate']


# --- reading DOT -----------------------------------------------------------
TOKEN = re.compile(
    r'\s+|//[^\n]*|/\*.*?\*/|^#[^\n]*|(?P<punct>->|--|[{}\[\]=;,:])|'
    r'(?P<id>[A-Za-z_\x80-\xff][A-Za-z0-9_\x80-\xff]*)|'
    r'(?P<num>-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))|'
    r'(?P<q>"(?:[^"\\]|\\.)*")', re.S | re.M)
KEYWORDS = ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict')


class Bad(Exception):
  pass


def tokens(s):
  i, out = 0, []
  while i < len(s):
    m = TOKEN.match(s, i)
    if not m:
      raise Bad('no token at %r' % s[i:i + 30])
    if m.group('punct'):
      out.append(('p', m.group()))
    elif m.group('id'):
      w = m.group()
      out.append(('k', w.lower()) if w.lower() in KEYWORDS else ('i', w))
    elif m.group('num'):
      out.append(('i', m.group()))
    elif m.group('q'):
      out.append(('i', m.group()[1:-1].replace('\\\n', ''), True))
    i = m.end()
  return out


def text(s):
  """The text an escaped string of Graphviz stands for."""
  return re.sub(r'\\(.)', lambda m: '\n' if m.group(1) in 'nlr' else
                '<escape %s>' % m.group(1) if m.group(1) in 'NGETHL' else
                m.group(1), s, flags=re.S)


class Parser(object):
  def __init__(self, s):
    self.t = tokens(s)
    self.i = 0
    self.nodes = []     # (group path, id, attributes)
    self.edges = []     # (from, to, attributes)
    self.groups = []    # (group path, attributes)

  def peek(self, n=0):
    j = self.i + n
    return self.t[j][:2] if j < len(self.t) else None

  def take(self, want=None):
    t = self.peek()
    if t is None or (want and t != want):
      raise Bad('%r instead of %r' % (t, want))
    self.i += 1
    return t

  def ident(self):
    t = self.take()
    if t[0] != 'i':
      raise Bad('%r instead of an id' % (t,))
    return text(t[1])

  def parse(self):
    if self.peek() == ('k', 'strict'):
      raise Bad('strict')
    self.take(('k', 'digraph'))
    if self.peek()[0] == 'i':
      self.ident()
    self.body((), {'node': {}, 'edge': {}, 'graph': {}})
    if self.peek() is not None:
      raise Bad('text after the graph')
    return self

  def attrs(self):
    out = {}
    while self.peek() == ('p', '['):
      self.take()
      while self.peek() != ('p', ']'):
        k = self.ident()
        self.take(('p', '='))
        out[k] = self.ident()
        if self.peek() in (('p', ','), ('p', ';')):
          self.take()
      self.take()
    return out

  def body(self, path, defaults):
    self.take(('p', '{'))
    defaults = dict((k, dict(v)) for k, v in defaults.items())
    own = {}
    while self.peek() != ('p', '}'):
      t = self.peek()
      if t is None:
        raise Bad('unfinished')
      if t == ('p', ';'):
        self.take()
      elif t == ('k', 'subgraph'):
        self.take()
        name = self.ident() if self.peek()[0] == 'i' else ''
        self.body(path + (name,), defaults)
      elif t[0] == 'k':
        self.take()
        a = self.attrs()
        defaults[t[1]].update(a)
        if t[1] == 'graph':
          own.update(a)
      else:
        a = self.ident()
        if self.peek() == ('p', '='):
          self.take()
          own[a] = self.ident()
        elif self.peek() == ('p', '->'):
          chain = [a]
          while self.peek() == ('p', '->'):
            self.take()
            chain.append(self.ident())
          at = dict(defaults['edge'], **self.attrs())
          for f, to in zip(chain, chain[1:]):
            self.edges.append((f, to, at))
        else:
          self.nodes.append((path, a, dict(defaults['node'], **self.attrs())))
    self.take()
    self.groups.append((path, own))


# --- what is to be shown ---------------------------------------------------
def short(s, n):
  u = s.decode('utf-8')
  if len(u) > n:
    u = u[:n - 4] + '..' + u[-2:]
  return u.encode('utf-8')


def label(d, n):
  s = d['stop_id']
  if d.get('platform_code'):
    return s + '\nPlatform ' + d['platform_code']
  if d.get('signposted_as'):
    return s + '\n' + d['signposted_as']
  if d.get('stop_name'):
    return s + '\n' + (short(d['stop_name'], n) if n else d['stop_name'])
  return s


def expected(stops, paths, select):
  by = dict((d['stop_id'], d) for d in stops)

  def root(i):
    while by[i].get('parent_station'):
      i = by[i]['parent_station']
    return i
  if select:
    roots = set(root(i) for i in select)
  else:
    roots = set(root(p[c]) for p in paths
                for c in ('from_stop_id', 'to_stop_id'))
  groups, nodes, edges = [], [], []
  shown = set(i for i in by if root(i) in roots)
  parents = set(d.get('parent_station') for d in stops)
  for i in shown:
    d = by[i]
    kind = d.get('location_type') or '0'
    up = d.get('parent_station')
    if not up:
      groups.append((('cluster_' + i,), COLORS[kind], label(d, 0)))
    elif kind == '0' and i in parents:
      groups.append((('cluster_' + up, 'cluster_' + i), COLORS[kind],
                     label(d, 20)))
    else:
      path = ('cluster_' + up,)
      if by[up].get('parent_station'):
        path = ('cluster_' + by[up]['parent_station'],) + path
      nodes.append((path, i, COLORS[kind], SHAPES[kind], label(d, 25)))
  for p in paths:
    if p['from_stop_id'] in shown and p['to_stop_id'] in shown:
      s = MODES[int(p.get('pathway_mode') or 0)]
      for c in ('signposted_as', 'reversed_signposted_as'):
        if p.get(c):
          s += '\n' + short(p[c], 20)
      edges.append((p['from_stop_id'], p['to_stop_id'],
                    'both' if p.get('is_bidirectional') == '1' else 'forward',
                    s))
  return sorted(groups), sorted(nodes), sorted(edges)


def compare(x, s, want):
  x.step()
  try:
    g = Parser(s).parse()
  except Bad as e:
    x.fail('syntax', '%s: %s' % (e, s))
    return
  got = (sorted((p, a.get('color'), a.get('label'))
                for p, a in g.groups if p),
         sorted((p, i, a.get('color'), a.get('shape'), a.get('label'))
                for p, i, a in g.nodes),
         sorted((f, t, a.get('dir', 'forward'), a.get('label'))
                for f, t, a in g.edges))
  x.state(got)
  for k, a, b in zip(('groups', 'nodes', 'edges'), got, want):
    x.eq(a, b, k, '')


# --- feeds -----------------------------------------------------------------
def line(cells, quote):
  return ','.join('"%s"' % c.replace('"', '""')
                  if quote or any(h in c for h in ',"\r\n') else c
                  for c in cells)


def table(cols, rows, eol='\n', quote=False, bom=False, pad=''):
  return ('\xef\xbb\xbf' if bom else '') + eol.join(
      [line(cols, quote)] +
      [line([pad + r.get(c, '') + pad for c in cols], quote) for r in rows]
  ) + eol


def write(d, stops, paths, scols=STOP_COLS, pcols=PATH_COLS, **style):
  for n, cols, rows in (('stops', scols, stops), ('pathways', pcols, paths)):
    h = open(os.path.join(d, n + '.txt'), 'wb')
    h.write(table(cols, rows, **style))
    h.close()


def draw(x, stops, paths, selects=((),), **style):
  d = tempfile.mkdtemp()
  try:
    write(d, stops, paths, **style)
    for sel in selects:
      g = vp.gtfs_to_graphviz(vp.GtfsReader(d), ','.join(sel) or None)
      compare(x, str(g), expected(stops, paths, sel))
  finally:
    shutil.rmtree(d)


def rows(ids):
  return [{'stop_id': i, 'stop_name': 'Name of ' + i, 'stop_lat': '1',
           'location_type': t, 'parent_station': p}
          for i, t, p in FOREST if i in ids]


def path(n, f, t, mode='1', both='0', **more):
  d = {'pathway_id': 'w%s' % n, 'from_stop_id': f, 'to_stop_id': t,
       'pathway_mode': mode, 'is_bidirectional': both}
  d.update(more)
  return d


def subsets(limit):
  ids = [i for i, t, p in FOREST]
  for k in range(1, limit + 1):
    for c in itertools.combinations(ids, k):
      if all(not PARENT[i] or PARENT[i] in c for i in c):
        yield list(c)


def gen_forest(tier):
  for ids in subsets(6 if tier == 'quick' else 9):
    yield ids, 1
    if len(ids) <= (4 if tier == 'quick' else 6):
      yield ids, 2


def run_forest(x, case):
  ids, k = case
  stops = rows(ids)
  pairs = list(itertools.permutations(ids, 2)) + [(i, i) for i in ids]
  if k == 1:
    draw(x, stops, [], [()] + [(i,) for i in ids])
    for f, t in pairs:
      sels = [()]
      if f <= t:
        sels += [(i,) for i in ids] + [(ids[0], ids[-1]), (ids[-1], ids[0])]
      draw(x, stops, [path(1, f, t)], sels)
  else:
    for a, b in itertools.combinations_with_replacement(pairs, 2):
      draw(x, stops, [path(1, *a), path(2, *b, both='1')], [()])
  x.outcome('%d locations' % len(ids))


TEXTS = [
    'a', '1', '_', 'ab', 'node', 'Edge', 'GRAPH', 'digraph', 'subgraph',
    'strict', 'nodes', '_1', 'a b', 'a"b', '"', 'a\\', '\\', 'a\\"', 'a\\nb',
    '\\N', '\\\\', '<b>', 'a,b', '\xc3\xbc', '\xe6\x97\xa5\xe6\x9c\xac',
    'a\xc3\xbc', '-1', '1.5', '1a', 'a-b', 'a.b', '{', '}', '[x]', 'a->b', ';',
    '#a', '//a', '/*', 'cluster_S', 'a\nb', '&amp;', '%s', '%', '=', 'a:b',
    "it's", 'a' * 17, 'b' * 18, 'c' * 20, 'd' * 21, 'e' * 24, 'f' * 25,
    'g' * 26, 'h' * 40, '\xc3\xa4' * 20, '\xc3\xb6' * 21, '\xc3\xbc' * 25,
    '\xc3\x9f' * 26, '\xe6\x97\xa5' * 21, 'x' * 19 + '"y', 'x' * 16 + '\\zz',
    'x' * 15 + '\\"' * 4, 'a\tb',
]
IDS = ['S', 'P', 'B', 'N', 'w']


def gen_names(tier):
  for t in range(len(TEXTS)):
    for what in ('id', 'stop_name', 'platform_code', 'signposted_as', 'sign',
                 'reversed', 'both', 'code and name', 'sign and name'):
      yield what, t, 0
  for t in range(len(TEXTS)):
    for u in range(len(TEXTS)):
      if u != t:
        yield 'ids', t, u
        if tier != 'quick':
          yield 'texts', t, u


def run_names(x, case):
  what, t, u = case
  t, u = TEXTS[t], TEXTS[u]
  style = {}

  def feed(ids, **more):
    s, p, b, n, w = ids
    st = [dict(stop_id=s, stop_name='Station', location_type='1'),
          dict(stop_id=p, stop_name='Platform', location_type='0',
               parent_station=s),
          dict(stop_id=b, stop_name='Board', location_type='4',
               parent_station=p),
          dict(stop_id=n, stop_name='Node', location_type='3',
               parent_station=s)]
    return st, [dict(path(1, b, n), pathway_id=w)]
  if what == 'id':
    for k in range(5):
      st, pw = feed(IDS[:k] + [t] + IDS[k + 1:])
      draw(x, st, pw)
  elif what == 'ids':
    for a, b in ((0, 1), (1, 2), (2, 3), (0, 3)):
      ids = list(IDS)
      ids[a], ids[b] = t, u
      st, pw = feed(ids)
      draw(x, st, pw)
  elif what in ('sign', 'reversed', 'both'):
    st, pw = feed(IDS)
    if what != 'reversed':
      pw[0]['signposted_as'] = t
    if what != 'sign':
      pw[0]['reversed_signposted_as'] = t
    draw(x, st, pw)
  elif what == 'texts':
    st, pw = feed(IDS)
    st[3]['stop_name'] = t
    st[1]['stop_name'] = u
    pw[0].update(signposted_as=u, reversed_signposted_as=t)
    draw(x, st, pw)
  else:
    for k in range(4):
      st, pw = feed(IDS)
      if what == 'code and name':
        st[k].update(platform_code='7', stop_name=t, signposted_as=t)
      elif what == 'sign and name':
        st[k].update(signposted_as='To', stop_name=t)
      else:
        st[k][what] = t
        if what != 'stop_name':
          st[k]['stop_name'] = ''
      draw(x, st, pw)
  x.outcome(what)


STYLES = {'plain': {}, 'crlf': {'eol': '\r\n'}, 'quoted': {'quote': True},
          'bom': {'bom': True}, 'bom crlf': {'bom': True, 'eol': '\r\n'},
          'blanks': {'pad': ' '},
          'order': {'scols': STOP_COLS[::-1], 'pcols': PATH_COLS[::-1]}}


def gen_values(tier):
  for mode in [''] + [str(i) for i in range(8)]:
    for both in ('', '0', '1'):
      for style in sorted(STYLES):
        yield 'mode', mode, both, style
  for k in range(4):
    for missing in itertools.combinations(
        ('platform_code', 'signposted_as', 'stop_lat', 'pathway_mode',
         'is_bidirectional', 'reversed_signposted_as'), k):
      for style in ('plain', 'bom', 'order'):
        yield 'missing', '', list(missing), style
  for style in sorted(STYLES):
    yield 'no types', '', '', style


def run_values(x, case):
  what, mode, both, style = case
  stops = rows(['S1', 'P1', 'B1', 'E1', 'P2', 'S2', 'P3', 'E2'])
  paths = [path(1, 'B1', 'E1', '2', '1'), path(2, 'P2', 'E1', '3', '0'),
           path(3, 'P3', 'E2', '5', '1', signposted_as='There',
                reversed_signposted_as='Back')]
  st = dict(STYLES[style])
  if what == 'mode':
    for k in range(3):
      if style == 'blanks' and not (mode and both):
        return
      paths[k].update(pathway_mode=mode, is_bidirectional=both)
    if style == 'blanks':
      for d in stops:
        d['location_type'] = d['location_type'] or '0'
  elif what == 'missing':
    for d in stops:
      d['platform_code'] = '7' if d['stop_id'] > 'P' else ''
      for c in both:
        d.pop(c, None)
    for p in paths:
      for c in both:
        p.pop(c, None)
    st['scols'] = [c for c in st.get('scols', STOP_COLS) if c not in both]
    st['pcols'] = [c for c in st.get('pcols', PATH_COLS) if c not in both]
  else:
    stops = [dict(d, location_type='') for d in rows(['R', 'Q'])]
    paths = [path(1, 'R', 'Q')]
    if style == 'blanks':
      return
    st['scols'] = [c for c in st.get('scols', STOP_COLS)
                   if c != 'location_type' and c != 'parent_station']
    for d in stops:
      del d['location_type'], d['parent_station']
  draw(x, stops, paths, [(), (stops[-1]['stop_id'],)], **st)
  x.outcome(what)


def gen_main(tier):
  for sel in ((), ('S1',), ('B1',), ('E2',), ('B1', 'E2'), ('P1', 'B1'),
              ('nope',), ('S1', 'nope')):
    for dot in (None, 'x.dot', 'plain', 'dir.d/y.txt'):
      for png in (0, 1):
        for svg in (0, 1):
          for slash in (0, 1):
            yield sel, dot, png, svg, slash


def run_main(x, case):
  sel, dot, png, svg, slash = case
  stops = rows(['S1', 'P1', 'B1', 'E1', 'S2', 'P3', 'E2', 'Q'])
  paths = [path(1, 'B1', 'E1'), path(2, 'P3', 'E2', '5', '1')]
  calls = []

  class Fake(object):
    @staticmethod
    def call(args, *a, **k):
      calls.append(list(args))
      return 0
  argv, proc = sys.argv, vp.subprocess
  d = tempfile.mkdtemp()
  try:
    src = os.path.join(d, 'feed')
    os.mkdir(src)
    os.mkdir(os.path.join(d, 'dir.d'))
    write(src, stops, paths)
    vp.subprocess = Fake
    sys.argv = ['visualize_pathways.py', src + ('/' if slash else '')]
    out = src + '.dot'
    if dot:
      out = os.path.join(d, dot)
      sys.argv += ['--dot', out]
    sys.argv += ['--png'] * png + ['--svg'] * svg
    if sel:
      sys.argv += ['--stop_ids', ','.join(sel)]
    try:
      vp.main()
    except Exception as e:
      x.step()
      x.check('nope' in sel and 'nope' in str(e), 'refused',
              lambda: '%r: %r' % (sel, e))
      x.check(not os.path.exists(out), 'written', 'wrote a refused diagram')
      x.outcome('refused')
      return
    x.check('nope' not in sel, 'accepted', lambda: repr(sel))
    h = open(out, 'rb')
    s = h.read()
    h.close()
    compare(x, s, expected(stops, paths, sel))
    base = os.path.splitext(out)[0]
    x.eq(sorted((c[0], c[c.index('-T') + 1], c[c.index('-o') + 1], c[-1])
                for c in calls),
         sorted([('dot', 'png', base + '.png', out)] * png +
                [('dot', 'svg', base + '.svg', out)] * svg), 'calls', '')
    x.outcome('drawn')
  finally:
    sys.argv, vp.subprocess = argv, proc
    shutil.rmtree(d)


SCENARIOS = [
    Scenario('forest', gen_forest, run_forest,
             bound='parent-closed sets of <= 6 of 14 locations x pathways x '
             'selections; two pathways for <= 4'),
    Scenario('names', gen_names, run_names,
             bound='texts in every field, all pairs of ids'),
    Scenario('values', gen_values, run_values,
             bound='modes, directions, missing columns, ways of writing'),
    Scenario('main', gen_main, run_main, bound='all option combinations'),
]
