#!/usr/bin/env python3
"""Rewrites a copy of the repository without changing its behaviour and runs
the checks on it: every one has to stay quiet.

  refactor.py STYLE [--keep] [--budget S] [C01 ...]     STYLE: see STYLES

The rewriting is done on the syntax tree of every module of cmakelang (tests
excluded), by style: conditions become variables, loops become while loops,
comprehensions become loops, membership becomes a chain of comparisons, bodies
move into helpers, branches are swapped, formatting becomes f-strings.
"""
import ast
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Base(ast.NodeTransformer):
  n = 0

  def name(self, stem):
    Base.n += 1
    return '_%s%d' % (stem, Base.n)


class Conditions(Base):
  """if c: -> flag = c; if flag:   (not for elif, whose evaluation is later)"""

  def visit_If(self, node):
    self.generic_visit(node)
    v = self.name('flag')
    return [ast.Assign(targets=[ast.Name(v, ast.Store())], value=node.test),
            ast.If(ast.Name(v, ast.Load()), node.body, node.orelse)]


class Swap(Base):
  """if c: a else: b -> if not c: b else: a; early return for the rest"""

  def visit_If(self, node):
    self.generic_visit(node)
    if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
      return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
    return node


class Loops(Base):
  """for x in y: -> it = iter(y); while True: try: x = next(it)"""

  def visit_For(self, node):
    self.generic_visit(node)
    if node.orelse:
      return node
    it = self.name('it')
    end = self.name('end')
    src = ast.parse('''
%s = iter(0)
while True:
  %s = object()
  X = next(%s, %s)
''' % (it, end, it, end))
    assign, loop = src.body
    assign.value.args = [node.iter]
    val = self.name('val')
    loop.body[1].targets = [ast.Name(val, ast.Store())]
    test = ast.parse('if %s is %s:\n  break' % (val, end)).body[0]
    loop.body.append(test)
    loop.body.append(ast.Assign(targets=[node.target], value=ast.Name(val, ast.Load())))
    loop.body.extend(node.body)
    return [assign, loop]


class Comps(Base):
  """list comprehensions in assignments and returns become loops"""

  def loop(self, comp, out):
    if len(comp.generators) != 1:
      return None
    g = comp.generators[0]
    if not isinstance(g.target, (ast.Name, ast.Tuple)):
      return None
    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(out, ast.Load()), 'append', ast.Load()),
                              [comp.elt], []))]
    for c in reversed(g.ifs):
      body = [ast.If(c, body, [])]
    return [ast.Assign(targets=[ast.Name(out, ast.Store())], value=ast.List([], ast.Load())),
            ast.For(g.target, g.iter, body, [])]

  def stmt(self, node):
    self.generic_visit(node)
    if isinstance(node.value, ast.ListComp) and self.depth:
      out = self.name('out')
      pre = self.loop(node.value, out)
      if pre:
        node.value = ast.Name(out, ast.Load())
        return pre + [node]
    return node

  depth = 0

  def visit_FunctionDef(self, node):
    self.depth += 1
    self.generic_visit(node)
    self.depth -= 1
    return node

  visit_Assign = stmt
  visit_Return = stmt


class Members(Base):
  """x in (A, B) -> x == A or x == B, any() for longer ones"""

  def visit_Compare(self, node):
    self.generic_visit(node)
    if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
      r = node.comparators[0]
      if isinstance(r, (ast.Tuple, ast.List)) and isinstance(node.left, (ast.Name, ast.Attribute)) \
          and len(r.elts) > 1 and not any(isinstance(e, ast.Starred) for e in r.elts):
        if len(r.elts) < 4:
          out = ast.BoolOp(ast.Or(), [ast.Compare(node.left, [ast.Eq()], [e]) for e in r.elts])
        else:
          v = self.name('m')
          out = ast.Call(ast.Name('any', ast.Load()), [ast.GeneratorExp(
              ast.Compare(node.left, [ast.Eq()], [ast.Name(v, ast.Load())]),
              [ast.comprehension(ast.Name(v, ast.Store()), r, [], 0)])], [])
        return ast.UnaryOp(ast.Not(), out) if isinstance(node.ops[0], ast.NotIn) else out
    return node


class Helpers(Base):
  """the body of each function moves into another one"""

  def body(self, nodes):
    out = []
    for n in nodes:
      if isinstance(n, ast.ClassDef):
        n.body = self.body(n.body)
      elif isinstance(n, ast.FunctionDef) and not n.decorator_list and \
          not n.name.startswith('__') and not n.args.vararg and not n.args.kwarg and \
          not n.args.kwonlyargs and not any(
              isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal))
              or isinstance(x, ast.Name) and x.id in ('locals', 'globals', 'super')
              for x in ast.walk(n)):
        h = '_do_' + n.name.strip('_')
        names = [a.arg for a in n.args.args]
        new = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in names], None, [], [], None, []),
                              n.body, [])
        meth = names[:1] == ['self']
        call = ast.Call(
            ast.Attribute(ast.Name('self', ast.Load()), h, ast.Load()) if meth else ast.Name(h, ast.Load()),
            [ast.Name(a, ast.Load()) for a in names[1 if meth else 0:]], [])
        if meth:
          # overriding methods must not override the helper
          Base.n += 1
          h2 = '%s_%d' % (h, Base.n)
          new.name = h2
          call.func.attr = h2
        n.body = [ast.Return(call)]
        out.append(new)
      out.append(n)
    return out

  def visit_Module(self, node):
    doc = node.body[:0]
    node.body = doc + self.body(node.body)
    return node


class Format(Base):
  """'{}'.format(x) -> f-string, '%' unchanged; a + b on strings unchanged"""

  def visit_Call(self, node):
    self.generic_visit(node)
    f = node.func
    if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and \
        isinstance(f.value.value, str) and not node.keywords and \
        not any(isinstance(a, ast.Starred) for a in node.args):
      s = f.value.value
      if s.count('{}') == s.count('{') == s.count('}') == len(node.args) and node.args:
        vals = []
        parts = s.split('{}')
        for i, p in enumerate(parts):
          if p:
            vals.append(ast.Constant(p))
          if i < len(node.args):
            vals.append(ast.FormattedValue(node.args[i], -1, None))
        return ast.JoinedStr(vals)
    return node


class Copies(Base):
  """list(x) -> [*x]; x[:] unchanged; a += b -> a = a + b for plain names holding ints/strings
  is not safe in general, so only constants; not a == b -> a != b"""

  def visit_Call(self, node):
    self.generic_visit(node)
    if isinstance(node.func, ast.Name) and node.func.id == 'list' and len(node.args) == 1:
      return ast.List([ast.Starred(node.args[0], ast.Load())], ast.Load())
    return node

  def visit_AugAssign(self, node):
    self.generic_visit(node)
    if isinstance(node.target, ast.Name) and isinstance(node.value, ast.Constant) and \
        isinstance(node.value.value, int):
      return ast.Assign(targets=[node.target], value=ast.BinOp(
          ast.Name(node.target.id, ast.Load()), node.op, node.value))
    return node

  def visit_Return(self, node):
    self.generic_visit(node)
    if node.value is None or isinstance(node.value, ast.Constant):
      return node
    v = self.name('result')
    return [ast.Assign(targets=[ast.Name(v, ast.Store())], value=node.value),
            ast.Return(ast.Name(v, ast.Load()))]


STYLES = {'conditions': [Conditions], 'swap': [Swap], 'loops': [Loops], 'comps': [Comps],
          'members': [Members], 'helpers': [Helpers], 'format': [Format], 'copies': [Copies]}
STYLES['all'] = [Members, Format, Copies, Comps, Swap, Loops, Conditions, Helpers]


def rewrite(tree, style):
  for c in STYLES[style]:
    tree = c().visit(tree)
  return ast.fix_missing_locations(tree)


def main():
  style = sys.argv[1]
  rest = sys.argv[2:]
  budget = '30'
  if '--budget' in rest:
    i = rest.index('--budget')
    budget = rest[i + 1]
    del rest[i:i + 2]
  keep = '--keep' in rest
  props = [x for x in rest if not x.startswith('-')] or [
      json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
  tmp = '/tmp/refactor.%d' % os.getpid()
  subprocess.check_call(['cp', '-a', '/repo', tmp])
  try:
    for d, dirs, files in os.walk(tmp + '/cmakelang'):
      if 'test' in d or d.endswith('contrib'):
        continue
      for f in files:
        if not f.endswith('.py') or 'test' in f or f == 'variables.py' or f == 'lintdb.py':
          continue
        path = os.path.join(d, f)
        text = open(path, encoding='utf-8').read()
        try:
          tree = ast.parse(text)
        except SyntaxError:   # a template
          continue
        out = ast.unparse(rewrite(tree, style))
        open(path, 'w', encoding='utf-8').write('# -*- coding: utf-8 -*-\n' + out + '\n')
    r = subprocess.run(
        ['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && '
         'bash /opt/vp/build.sh >/dev/null && bash /opt/vp/test.sh %s/o.json' % (tmp, tmp)],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    got = set(json.load(open(tmp + '/o.json'))['passed'])
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss = [x for x in base if x not in got]
    print(style, 'tests that fail:', miss[:5] or 'none', flush=True)
    for p in props:
      r = subprocess.run(['python3-vt', os.path.join(ROOT, 'check.py'), p, '--budget', budget],
                         env=dict(os.environ, CMF_REPO=tmp), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True)
      lines = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
      print(p, r.returncode, 'QUIET' if r.returncode == 0 else 'ALARM', ' | '.join(lines)[-400:], flush=True)
  finally:
    if keep:
      print('kept', tmp)
    else:
      shutil.rmtree(tmp)


main()
