# -*- coding: utf-8 -*-
"""Runs a program of the repository inside this process."""
import __builtin__
import os
import sys
import types

REPO = os.environ.get('MC_REPO', '/repo')
CODE = {}


class Out(object):
  encoding = 'utf-8'

  def __init__(self):
    self.parts = []

  def write(self, s):
    self.parts.append(s.encode('utf-8') if isinstance(s, unicode) else s)

  def writelines(self, ls):
    for s in ls:
      self.write(s)

  def flush(self):
    pass

  def isatty(self):
    return False

  def text(self):
    return ''.join(self.parts)


def execute(code, space):
  exec code in space


def run(name, argv, modules=()):
  """(exit code or None, standard output) of program `name` with argv."""
  path = os.path.join(REPO, name)
  if name not in CODE:
    f = open(path)
    CODE[name] = compile(f.read(), path, 'exec')
    f.close()
  modules = dict(modules)
  mod = types.ModuleType('__main__')
  mod.__dict__['__builtins__'] = __builtin__
  mod.__dict__['__file__'] = path
  modules['__main__'] = mod
  opened = []

  def track(*args, **kwargs):
    opened.append(open(*args, **kwargs))
    return opened[-1]
  mod.__dict__['open'] = track
  old = sys.argv, sys.stdout, sys.stderr, sys.path
  saved = {}
  for k in modules:
    saved[k] = sys.modules.get(k)
  out = Out()
  sys.argv = [path] + list(argv)
  sys.stdout, sys.stderr = out, Out()
  sys.path = [os.path.dirname(path)] + sys.path
  sys.modules.update(modules)
  code = None
  try:
    try:
      execute(CODE[name], mod.__dict__)
    except SystemExit as e:
      code = e.code
      if code is None:
        code = 0
  finally:
    sys.argv, sys.stdout, sys.stderr, sys.path = old
    # the end of the program's process closes its files
    for f in opened:
      f.close()
    for k, m in saved.items():
      if m is None:
        sys.modules.pop(k, None)
      else:
        sys.modules[k] = m
  return code, out.text()
