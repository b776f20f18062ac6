#!/usr/bin/env python3
"""Random one-place changes of the code that the existing tests let pass, as
raw material for planted bugs: which of them does no check notice?

  mutate.py make DIR COUNT SEED [FILE...]   writes DIR/N.json for each survivor
  mutate.py check DIR [CHECK ...]           runs the checks on each (up to the first alarm)
"""
import ast
import copy
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = '''format/formatter.py format/formatter.py format/formatter.py
parse/argument_nodes.py parse/body_nodes.py parse/simple_nodes.py parse/statement_node.py
parse/additional_nodes.py parse/util.py parse/common.py parse/funs/add_library.py
parse/funs/add_executable.py parse/funs/add_xxx.py parse/funs/install.py parse/funs/file.py
parse/funs/set.py parse/funs/list.py parse/funs/foreach.py parse/funs/miscellaneous.py
parse/funs/random.py parse/funs/break.py parse/funs/deprecated.py
parse/properties.py markup.py lex/__init__.py lint/basic_checker.py lint/lint_util.py
lint/__main__.py format/__main__.py config_util.py configuration.py genparsers.py
ctest_to.py annotate.py render.py common.py'''.split()
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def mutants(tree):
  """[(line, function changing the tree)]"""
  out = []
  for node in ast.walk(tree):
    line = getattr(node, 'lineno', 0)
    if isinstance(node, ast.Compare) and type(node.ops[0]) in SWAP:
      out.append((line, lambda n=node: n.ops.__setitem__(0, SWAP[type(n.ops[0])]())))
    if isinstance(node, ast.BoolOp):
      out.append((line, lambda n=node: setattr(
          n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())))
      for i in range(len(node.values)):
        out.append((line, lambda n=node, i=i: n.values.__delitem__(i)))
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
      out.append((line, lambda n=node: setattr(
          n, 'op', ast.Sub() if isinstance(n.op, ast.Add) else ast.Add())))
    if isinstance(node, ast.Constant) and type(node.value) is int:
      out.append((line, lambda n=node: setattr(n, 'value', n.value + 1)))
      out.append((line, lambda n=node: setattr(n, 'value', n.value - 1)))
    if isinstance(node, (ast.List, ast.Tuple, ast.Set)) and len(node.elts) > 1:
      for i in range(len(node.elts)):
        out.append((line, lambda n=node, i=i: n.elts.__delitem__(i)))
    if isinstance(node, ast.Dict) and len(node.keys) > 1:
      for i in range(len(node.keys)):
        out.append((line, lambda n=node, i=i: (
            n.keys.__delitem__(i), n.values.__delitem__(i))))
    if isinstance(node, (ast.If, ast.While)):
      out.append((line, lambda n=node: setattr(
          n, 'test', ast.UnaryOp(ast.Not(), n.test))))
      out.append((line, lambda n=node: setattr(n, 'test', ast.Constant(False))))
      if isinstance(node, ast.If):
        out.append((line, lambda n=node: setattr(n, 'test', ast.Constant(True))))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
      out.append((line, lambda n=node: setattr(n, 'op', ast.UAdd())))
    for field in ('body', 'orelse'):
      body = getattr(node, field, None)
      if isinstance(body, list):
        for i, st in enumerate(body):
          if isinstance(st, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or (
              isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)):
            out.append((st.lineno, lambda b=body, i=i: b.__setitem__(i, ast.Pass())))
  return out


def one(job):
  d, n, f, seed = job
  path = 'cmakelang/' + f
  text = open('/repo/' + path, encoding='utf-8').read()
  tree = ast.parse(text)
  before = ast.unparse(tree)
  rng = random.Random(seed)
  ms = [m for m in mutants(tree) if m[0]]
  line, fun = rng.choice(ms)
  fun()
  try:
    after = ast.unparse(ast.fix_missing_locations(tree))
    compile(after, path, 'exec')
  except Exception:
    return
  if before == after:
    return
  diff = list(difflib.unified_diff(before.splitlines(), after.splitlines(), lineterm='', n=4))
  if any(s in ''.join(x for x in diff if x[0] in '+-') for s in ('logger', 'logging', 'raise ', '__doc__')):
    return
  tmp = '%s/t%d' % (d, n)
  subprocess.check_call(['cp', '-a', '/repo', tmp])
  try:
    open(tmp + '/' + path, 'w', encoding='utf-8').write('# -*- coding: utf-8 -*-\n' + after + '\n')
    try:
      subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && bash /opt/vp/test.sh %s/o.json' % (tmp, tmp)],
                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
      got = set(json.load(open(tmp + '/o.json'))['passed'])
    except Exception:
      return
    if any(x not in got for x in json.load(open('/opt/vp/BASELINE.json'))['stable']):
      return
    with open('%s/%d.json' % (d, n), 'w') as out:
      json.dump({'file': path, 'line': line, 'diff': diff, 'after': after}, out)
    print(n, path, line, *diff[3:], sep='\n', flush=True)
  finally:
    shutil.rmtree(tmp)


def check(d, n, checks):
  m = json.load(open('%s/%d.json' % (d, n)))
  if 'caught' in m:
    return
  tmp = '%s/c%d' % (d, n)
  subprocess.check_call(['cp', '-a', '/repo', tmp])
  try:
    open(tmp + '/' + m['file'], 'w', encoding='utf-8').write('# -*- coding: utf-8 -*-\n' + m['after'] + '\n')
    caught = None
    for c in checks:
      r = subprocess.run(['python3-vt', ROOT + '/check.py', c], env=dict(os.environ, CMF_REPO=tmp),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
      if r.returncode:
        caught = c
        break
    m['caught'] = caught
    with open('%s/%d.json' % (d, n), 'w') as out:
      json.dump(m, out)
    print('==', n, m['file'], m['line'], 'caught by %s' % caught if caught else 'NOT CAUGHT', flush=True)
    if not caught:
      print(*m['diff'][3:], sep='\n', flush=True)
  finally:
    shutil.rmtree(tmp)


def main():
  d = os.path.abspath(sys.argv[2])
  os.makedirs(d, exist_ok=True)
  if sys.argv[1] == 'make':
    count, seed = int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or FILES
    rng = random.Random(seed)
    jobs = [(d, seed * 1000 + i, rng.choice(files), rng.random()) for i in range(count)]
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as pool:
      list(pool.map(one, jobs))
  else:
    checks = sys.argv[3:] or [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
    for f in sorted(os.listdir(d)):
      if f.endswith('.json'):
        check(d, int(f[:-5]), checks)


main()
