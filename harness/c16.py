"""C16: the nearest configuration file in the directory ancestry is used."""
from cmakelang.format import __main__ as fmt_main
from cmakelang.lint import __main__ as lint_main
from harness import vfs
from symex import rt

FUNCTIONS = ['format.__main__.find_config_file', 'format.__main__.get_config',
             'format.__main__.get_one_config_dict',
             'format.__main__.try_get_configdict', 'format.__main__.main',
             'lint.__main__.main']
BOUNDS = ('existence of every recognised name in every directory from the input '
          'file up to the root (depth up to 4, 35 unknown flags), unrecognised '
          'names always present; input named by absolute, relative, redundant '
          'path or standard input; explicit files')
ASSUMPTIONS = ['no symbolic links']
BUDGET = {'quick': 60.0, 'thorough': 300.0}

NAMES = ['.cmake-format', '.cmake-format.py', '.cmake-format.json',
         '.cmake-format.yaml', 'cmake-format.py', 'cmake-format.json',
         'cmake-format.yaml']
OTHER = ['cmake-format', '.cmake-format.yml', 'cmake-format.yml', '.cmake-format.txt',
         '.cmake-format.bak', '.cmake-lint.py', '.clang-format', '.cmake-format.js',
         'CMakeLists.txt', '.cmake-format.pyc', 'xcmake-format.py', 'cmake-format.jsn']
#: present or not, all together, in any directory
MARKS = ['.git', '.hg', '.gitignore', '.editorconfig', '.cmake-format-root', '.root',
         '.cmakelintrc', '.cmake-lint', '.projectile', 'setup.cfg', 'tox.ini', 'pyproject.toml',
         'CMakeCache.txt', 'Makefile', 'README', 'package.json', '.config', '.noconfig',
         '.hgroot', '.p4config', '.repo', '.bzr', '.fslckout', 'WORKSPACE']
VCS = ['.git', '.svn', '.hg', '.repo', '.bzr', 'CVS']
SRC = 'if(a)\nfoo()\nendif()\n'


def tasks(tier):
    T = []

    def add(name, **kw):
        T.append({'name': name, 'weight': 1.0, 'params': kw,
                  'bounds': '; '.join('%s %s' % kv for kv in sorted(kw.items()))})
    add('abs', cwd='/v/w', dir='/v/a/b', arg='/v/a/b/f.cmake', plain='py')
    add('abs-deep', cwd='/v', dir='/v/a/b/c', arg='/v/a/b/c/f.cmake', plain='yaml')
    add('abs-root', cwd='/v/a', dir='/', arg='/v.cmake', plain='json')
    add('rel', cwd='/v/a', dir='/v/a/b', arg='b/f.cmake', plain='json')
    add('rel-here', cwd='/v/a/b', dir='/v/a/b', arg='f.cmake', plain='yaml')
    add('rel-dot', cwd='/v/a', dir='/v/a', arg='./f.cmake', plain='py')
    add('rel-up', cwd='/v/w/x', dir='/v/a', arg='../../a/f.cmake', plain='pyflat', vcs=1)
    add('abs-vcs', cwd='/v/w', dir='/v/a/b', arg='/v/a/b/f.cmake', plain='json', vcs=1)
    add('redundant', cwd='/v/w', dir='/v/a/b', arg='/v/a//b/../b/./f.cmake', plain='json')
    add('stdin', cwd='/v/a/b', dir='/v/a/b', arg='-', plain='json')
    add('stdin-py', cwd='/v/a', dir='/v/a', arg='-', plain='py')
    add('dotted-dir', cwd='/v', dir='/v/a.b/cmake-format.d', plain='py',
        arg='/v/a.b/cmake-format.d/f.cmake')
    add('two', cwd='/v', dir='/v/a', arg='/v/a/f.cmake', plain='json', second='/v/b')
    add('two-nested', cwd='/v', dir='/v/a', arg='/v/a/f.cmake', plain='json', second='/v/a/b')
    add('two-rel', cwd='/v/a', dir='/v/a', arg='f.cmake', plain='py', second='/v')
    add('explicit', cwd='/v/a', dir='/v/a', arg='f.cmake', plain='py',
        explicit=['/v/x/conf.py'])
    add('explicit-rel', cwd='/v/a', dir='/v/a/b', arg='b/f.cmake', plain='py',
        explicit=['../x/conf.json'])
    add('explicit-stdin', cwd='/v/a', dir='/v/a', arg='-', plain='py',
        explicit=['/v/x/myconf'])
    add('lint-abs', cwd='/v/w', dir='/v/a/b', arg='/v/a/b/f.cmake', plain='py', lint=True)
    add('lint-rel', cwd='/v/a', dir='/v/a/b', arg='b/f.cmake', plain='json', lint=True)
    add('lint-two', cwd='/v', dir='/v/a', arg='/v/a/f.cmake', plain='json',
        second='/v/a/b', lint=True)
    add('lint-explicit', cwd='/v/a', dir='/v/a', arg='f.cmake', plain='py', lint=True,
        explicit=['/v/x/conf.yaml'])
    return T


def ancestry(d):
    out = [d]
    while d != '/':
        d = d.rsplit('/', 1)[0] or '/'
        out.append(d)
    return out


def alldirs(p):
    ds = ancestry(p['dir'])
    if p.get('second'):
        ds += [d for d in ancestry(p['second']) if d not in ds]
    for d in ancestry(p['cwd']):
        if d not in ds:
            ds.append(d)
    return ds


def inputs(S, p):
    return {'other': [S.bool('o%d' % i) for i in range(len(alldirs(p)))],
            'has': [[S.bool('x%d_%d' % (i, j)) for j in range(len(NAMES))]
                    for i in range(len(alldirs(p)))]}


def content(name, n, plain):
    kind = name.rsplit('.', 1)[-1]
    if kind not in ('py', 'json', 'yaml'):
        kind = plain
    return {'pyflat': 'tab_size = %d\nline_width = %d\n',
            'py': 'with section("format"):\n  tab_size = %d\n  line_width = %d\n',
            'json': '{"format": {"tab_size": %d, "line_width": %d}}\n',
            'yaml': 'format:\n  tab_size: %d\n  line_width: %d\n'}[kind] % (n, 60 + n)


def join(d, n):
    return (d if d != '/' else '') + '/' + n


#: comment lines of every length, to find out the line width from lint
LONG = ''.join('# ' + 'x' * (59 + i) + '\n' for i in range(60))


def warm():
    fs = vfs.VFS()
    fs.add('/v/a', SRC)
    vfs.run_main(fmt_main.main, ['/v/a'], fs)
    vfs.run_main(lint_main.main, ['/v/a'], fs)


def run(p, inp):
    fs = vfs.VFS(cwd=p['cwd'])
    dirs = alldirs(p)
    num = 3
    value = {}
    for d, flags, other in zip(dirs, inp['has'], inp['other']):
        fs.add(join(d, '.keep'), '')
        for name, flag in zip(NAMES, flags):
            fs.add(join(d, name), content(name, num, p['plain']), exists=flag)
            value[join(d, name)] = num
            num += 1
        for name in OTHER:
            fs.add(join(d, name), content(name, 1, 'json'))
        for name in MARKS:
            fs.add(join(d, name), '', exists=other)
        if p.get('vcs'):
            for name in VCS:
                fs.add(join(d, name) + '/x', '')
    argv = []
    exp = None
    if p.get('explicit'):
        for f in p['explicit']:
            fs.add(fs.norm(f), content(f, 47, 'json'))
        argv = ['-c'] + p['explicit']
        exp = 47
    todo = [(p['arg'], p['dir'])]
    if p.get('second'):
        todo.append((join(p['second'], 'g.cmake'), p['second']))
    src = LONG if p.get('lint') else SRC
    for a, _ in todo:
        if a == '-':
            fs.stdin = vfs.File(src)
        else:
            fs.add(fs.norm(a), src)
    if p.get('lint'):
        main = lint_main.main
        argv = ['--suppress-decorations'] + [a for a, _ in todo] + argv
    else:
        main = fmt_main.main
        argv = [a for a, _ in todo] + argv
    status, exc = vfs.run_main(main, argv, fs)
    rt.check(exc is None, lambda: 'raised %s' % exc)
    out = ''.join([t for t, _ in fs.stdout])
    got = []
    for part in (out.split('if(a)\n')[1:] if not p.get('lint') else
                 [[l for l in out.split('\n') if a + ':' in l and 'C0301' in l]
                  for a, _ in todo]):
        if p.get('lint'):
            # lines of length 61 .. 120, those longer than the width
            got.append(60 - len(part))
        else:
            got.append(part.find('foo'))
    want = []
    for _, d in todo:
        w = exp
        if w is None:
            w = 2 if not p.get('lint') else 20
            found = False
            for a in ancestry(d):
                flags = inp['has'][dirs.index(a)]
                for name, flag in zip(NAMES, flags):
                    if flag:
                        w = value[join(a, name)]
                        found = True
                        break
                if found:
                    break
        want.append(w)
    rt.check(got == want, lambda: 'the configuration with value %r is used instead '
             'of %r' % (got, want))
    return [status, got]
