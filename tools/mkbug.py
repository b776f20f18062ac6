#!/usr/bin/env python3
"""Make (and confirm) the planted bugs listed in tools/bugs.py.

mkbug.py [ID...]: for each bug: copy /repo, apply the replacement, check that
only original non-test lines change, build and run the stable tests on the
changed copy (shown at /repo in a mount namespace of its own), run the
demonstration on the unchanged and on the changed tree, and, if everything
fits, write seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import bugs  # noqa: E402

BASE = 'e559918'
SH = '''#!/bin/bash
# cwd: /repo. Exit 0 when the property holds in this situation.
exec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
LIB = '''"""%s"""
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()
ENV = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1',
           LANG='C.UTF-8', LC_ALL='C.UTF-8')


def tool(mod, args, files, stdin=None, keep=()):
  """Run a cmakelang program in a scratch directory of its own."""
  tmp = tempfile.mkdtemp()
  try:
    for name, data in files.items():
      path = os.path.join(tmp, name)
      os.makedirs(os.path.dirname(path), exist_ok=True)
      with open(path, 'wb') as f:
        f.write(data.encode('utf-8') if isinstance(data, str) else data)
    res = subprocess.run(
        [sys.executable, '-Bm', 'cmakelang.' + mod] + args, cwd=tmp, env=ENV,
        input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        timeout=120)
    after = {}
    for name in keep:
      path = os.path.join(tmp, name)
      if os.path.exists(path):
        with open(path, 'rb') as f:
          after[name] = f.read()
    return res.returncode, res.stdout, res.stderr, after
  finally:
    shutil.rmtree(tmp)


def fmt(text, *args, config=None):
  """Formatted form of the text (bytes)."""
  files = {'CMakeLists.txt': text}
  extra = list(args)
  if config is not None:
    files['cfg.py'] = config
    extra += ['-c', 'cfg.py', '--']
  rc, out, err, _ = tool('format', extra + ['CMakeLists.txt'], files)
  if rc:
    sys.stderr.write(err.decode())
    sys.exit('format failed with status %%d' %% rc)
  return out


def lint(text, *args, config=None):
  """(status, list of reported lines)"""
  files = {'CMakeLists.txt': text}
  extra = ['--suppress-decorations'] + list(args)
  if config is not None:
    files['cfg.py'] = config
    extra += ['-c', 'cfg.py', '--']
  rc, out, _, _ = tool('lint', extra + ['CMakeLists.txt'], files)
  return rc, out.decode().splitlines()


def expect(cond, *what):
  if not cond:
    print('PROPERTY BROKEN:', *what)
    sys.exit(1)


'''


def sh(cmd, **kw):
  return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                        text=True, **kw)


def main():
  want = sys.argv[1:]
  for bug in bugs.BUGS:
    bid = bug['id']
    if want and bid not in want:
      continue
    if not want and os.path.exists(os.path.join(ROOT, 'seeded', bid)):
      continue
    print('==', bid, flush=True)
    tmp = '/tmp/mkbug.%d' % os.getpid()
    if os.path.exists(tmp):
      shutil.rmtree(tmp)
    sh(['cp', '-a', '/repo', tmp], check=True)
    try:
      one(bug, tmp)
    finally:
      shutil.rmtree(tmp)


def one(bug, tmp):
  for path, old, new in bug['edits']:
    full = os.path.join(tmp, path)
    text = open(full, encoding='utf-8').read()
    if text.count(old) != 1:
      return print('  FAIL: %d matches of %r' % (text.count(old), old))
    open(full, 'w', encoding='utf-8').write(text.replace(old, new))
    base = sh(['git', '-C', '/repo', 'show', '%s:%s' % (BASE, path)]).stdout
    gone = [l for l in old.splitlines() if l not in new.splitlines()]
    for line in gone:
      if line not in base.splitlines():
        return print('  FAIL: not an original line: %r' % line)
    if not gone:
      print('  note: pure addition in', path)
  diff = subprocess.run(['git', '-C', tmp, 'diff'], stdout=subprocess.PIPE).stdout
  out = os.path.join(ROOT, 'seeded', bug['id'])
  stage = tmp + '.d'
  os.makedirs(stage, exist_ok=True)
  try:
    open(stage + '/patch.diff', 'wb').write(diff)
    open(stage + '/demo.sh', 'w').write(SH)
    open(stage + '/demo.py', 'w').write(
        LIB % bug['breaks'].replace('"', "'") + bug['demo'].strip() + '\n')
    with open(stage + '/meta.json', 'w') as f:
      json.dump({'property': bug['property'], 'needs': bug['needs'],
                 'what_it_breaks': bug['breaks']}, f, indent=1)
      f.write('\n')
    res = sh(['bash', stage + '/demo.sh'], cwd='/repo')
    if res.returncode:
      return print('  FAIL: demo on the unchanged tree:', res.stdout[-1500:])
    ns = ['unshare', '-Urm', 'bash', '-c']
    pre = 'mount --bind %s /repo && cd /repo && ' % tmp
    res = sh(ns + [pre + 'bash %s/demo.sh' % stage])
    if not res.returncode:
      return print('  FAIL: demo passes with the change', res.stdout)
    print('  demo:', res.stdout.strip()[-300:])
    res = sh(ns + [pre + 'bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/o.json' % stage])
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    try:
      got = set(json.load(open(stage + '/o.json'))['passed'])
    except OSError:
      return print('  FAIL: build/test', res.stdout[-1500:])
    missing = [x for x in base if x not in got]
    if missing:
      return print('  FAIL: tests notice:', missing[:6])
    os.remove(stage + '/o.json')
    if os.path.exists(out):
      shutil.rmtree(out)
    shutil.copytree(stage, out)
    print('  kept')
  finally:
    shutil.rmtree(stage)


main()
