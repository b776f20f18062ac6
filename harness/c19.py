"""C19: suppressions of lint findings, order of the report, exit status, summary."""
from cmakelang.lint import __main__ as lint_main
from cmakelang.lint import lintdb
from harness import lib, ref, corpus, vfs
from harness.corpus import task
from symex import rt

FUNCTIONS = ['lint.__main__.inner_main', 'lint.__main__.process_file',
             'lint.lint_util.FileContext.suppress', 'lint.lint_util.FileContext.unsuppress',
             'lint.lint_util.FileContext.record_lint', 'lint.lint_util.FileContext.get_lint',
             'lint.lint_util.GlobalContext.write_summary',
             'lint.basic_checker.LintChecker.check_body',
             'lint.basic_checker.LintChecker.check_comment',
             'lint.basic_checker.LintChecker.parse_pragmas_from_comment']
BOUNDS = ('up to three files per run; the findings in the absence of suppressions are '
          'those the tool itself reports for the same text with every directive '
          'replaced by an ordinary comment of the same length and nothing disabled')
ASSUMPTIONS = ['a block ends before the line of the command that closes it; blocks '
               'opened and closed on one line are outside',
               'a comment after a command on its line belongs to that command']
BUDGET = {'quick': 60.0, 'thorough': 600.0}
OPEN = ('if', 'while', 'foreach', 'function', 'macro')
MID = ('else', 'elseif')
CAT = {'C': 'Convention', 'E': 'Error', 'R': 'Refactor', 'W': 'Warning'}
MARK = '# cmake-lint: '
NEUTRAL = '# cmake_lint: '
WIDE = 'x' * 44
W = '--line-width 987001 '


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, files, args='', dis=('',), **kw):
        if isinstance(files, str):
            files = [files]
        d = task(name, '', {}, **kw)
        d['params'].update(files=[corpus.parts(f, 60) for f in files], args=W + args,
                           dis=list(dis))
        d['bounds'] = '%d files %s; arguments %s; disabled codes one of %s' % (
            len(files), ' | '.join(files).replace('\n', '\\n')[:240], args, list(dis))
        T.append(d)

    def D(n, ids='C0303|C0301|C0303,C0301|W0106'):
        return '‹p%d:%s›' % (n, '|'.join(MARK + 'disable=' + i for i in ids.split('|')))
    B = '‹%s:b2›\n'

    def line(i, z=None):
        return 'foo(%s)‹b%d:b›\n' % ('‹%s›' % z if z else '‹p%d:a|%s›' % (i, WIDE), i)
    # scopes of blocks
    add('body', line(1, 'Z') + D(2) + '\n' + line(3, 'Y') + line(4, 'X'))
    add('bodies', line(1) + D(2) + '\n' + 'if(a)‹b60:b›\n  ' + D(5, 'C0301|C0303') +
        '\n  ' + line(6) + 'endif()‹b61:b›\n' + line(7))
    add('nested', 'if(a)\n  ' + D(5, 'C0303|W0106') + '‹b63:b›\n  if(b)‹b60:b›\n'
        '    foo()‹b61:b›\n  endif()‹b62:b›\nelse()‹b64:b›\n  foo()‹b65:b›\n'
        'endif()‹b66:b›\n')
    add('inner', 'foreach(a b)‹b70:b›\n  foo()‹b71:b›\n  while(b)‹b60:b›\n    ' +
        D(5, 'C0303|W0106') + '‹b63:b›\n'
        '    foo()‹b61:b›\n  endwhile()‹b62:b›\n  foo()‹b72:b›\n'
        'endforeach()‹b66:b›\nfoo()‹b73:b›\n')
    add('arms', 'if(a)‹b70:b›\n  ' + D(1, 'C0303|C0301') + '\n  foo()‹b71:b›\nelseif(b)'
        '‹b60:b›\n  foo()‹b61:b›\n  ' + D(2, 'C0303|C0301') + '\n  foo()‹b62:b›\n'
        'else()‹b66:b›\n  foo()‹b73:b›\nendif()\n')
    for o, a in (('function', 'f'), ('macro', 'm'), ('while', 'a'), ('foreach', 'x y')):
        add('in-' + o, '# about\n%s(%s)‹b60:b›\n  ' % (o, a) + D(1, 'C0303|C0301') +
            '\n\n  foo()‹b61:b›\n\n\n‹p62:|  ›‹p63:end|END›%s()‹b64:b›\nfoo()‹b65:b›\n' %
            o)
    add('empty', 'if(a)‹b1:b›\n  ' + D(2, 'C0303|C0301') + '‹b5:b›\n‹p3:|\n|\n\n|  \n›'
        'endif()‹b4:b›\nfoo()‹b6:b›\n')
    add('twice', D(1, 'C0303|C0301') + '\n' + line(2) + D(3, 'C0303|C0301') + '\n' + line(4) +
        'if(a)\n  ' + D(5, 'C0303|C0301') + '\nendif()\n' + line(6))
    add('comments', '# a‹b1:b›\n' + D(2, 'C0303|W0106') + '‹b3:b›\n# b‹b4:b›\n\n'
        '# c‹b5:b›\nfoo()\n')
    add('blanks', 'foo()\n' + B % 'a' + D(2, 'C0303|C0305') + '\n' + B % 'c' + 'foo()\n\n\nfoo()\n')
    add('bracket', D(2, 'C0303|C0301') + '\n#[[‹a:b›x\n‹b:b›]]‹c:b›\nfoo([[‹d:b›\n‹e:b›]])\n')
    # inside statements
    add('inside', 'foo(a‹b1:b›\n    b ' + D(2, 'C0303|C0301') + '‹b3:b›\n    c‹b4:b›\n    '
        + D(5, 'C0303|C0301') + '‹b6:b›\n    d)‹b7:b›\nfoo()‹b8:b›\n')
    add('inside2', 'foo(a‹b1:b›\n    # b‹b2:b›\n    ' + D(5, 'C0303|W0106') + '‹b3:b›\n    '
        '# c‹b4:b›\n    d)‹b7:b›\n')
    add('trailing', 'foo()' + '‹p1: |› ' + D(2, 'C0303|C0307') + '‹b3:b›\n ‹p5:|  ›foo()‹b4:b›\n')
    add('trailing2', 'if(a) ' + D(2, 'C0303|C0301') + '‹b3:b›\n  foo()‹b4:b› ' +
        D(5, 'C0303|C0301') + '‹b6:b›\n  foo()‹b7:b›\nendif()‹p8: | ' + MARK +
        'disable=C0303›‹b9:b›\nfoo()‹b10:b›\n')
    add('kwarg', 'set(x a‹b1:b›\n    CACHE ' + D(2, 'C0303|C0301') + '‹b3:b›\n    STRING '
        '"b‹b4:b›\n"‹b5:b›\n    ' + D(6, 'C0303|C0301') + '‹b7:b›\n    )‹b8:b›\n')
    add('both', D(2, 'C0303|C0301') + '\nfoo(a ' + D(3, 'C0303|C0301') + '‹b4:b›\n' +
        'b‹b5:b›\n)\n' + line(7))
    # other findings than those of lines
    add('tree', 'foo(${a)‹p1:|\n|\n\n|\n\n\n\n›‹p5:#\nfunction(X)|function(X)|# b\nfunction(f)›\n  '
        + D(2, 'W0106|C0103|C0111|C0112|C0305|C0321|W0101|C0307') +
        '\n  set(‹p3:X|ab›)\n  return()\n   foo(‹p4:{a}|a›)\nendfunction()\n')
    add('tree2', D(2, 'W0106|C0103|C0111|C0112|C0305|C0321|W0101|C0307|E1120|R0912|R0915') +
        '\nif()\n  return()\n   foo(‹p4:{a}|a›)\nendif()\nfunction(X)\nendfunction() foo()\n')
    add('codes', MARK + 'disable=‹p1:C0303,C0301|C0301,C0303|C0303,C0303|C0301|C0303,X9|'
        'C03,C0303|C0303 disable=C0301|x=C0303›\n' + line(3) + line(4))
    add('shape', '‹p2:# cmake-lint:disable=C0303|#  cmake-lint: disable=C0303|'
        '# Cmake-lint: disable=C0303|# x cmake-lint: disable=C0303|'
        '# cmake-lint: disable=C0303|# cmake-lint: disable=c0303›‹p5:| x›\nfoo()‹b3:b›\n')
    # disabled by the configuration
    add('config', line(1) + D(2) + '\n' + line(3) + 'set(${a)', '--disabled-codes C0304',
        ['', 'C0301', 'C0303', 'C0303 W0106', 'C0301 C0304', 'C0302'])
    add('config2', 'foo(‹a:x2›)‹b:b›', '', ['C0301', 'C0303', 'C0304 C0303', 'C0307'])
    # programs, files, report
    FILE = ('‹p%d:foo()\n|foo() \n|foo(${a)\n|' + MARK + 'disable=C0303\nfoo() \n|foo() \n\n'
            'foo({a) |›')
    add('files', [FILE % 1, FILE % 2])
    add('files3', [FILE % 1, 'foo()‹b2:b›\n', '‹p3:foo()\n|foo() \n|missing|latin|foo(\n›'])
    add('files-plain', [FILE % 1, '‹p3:foo()\n|foo() \n|missing|latin|foo(\n›', 'foo() \n'],
        '--suppress-decorations')
    add('files-bad', ['‹p3:foo()\n|missing|latin|foo(\n|foo() \n›', 'foo()‹b2:b›\n'])
    add('files-bad3', ['‹p3:foo()\n|missing|latin›', '‹p4:foo(x) \n|missing|latin›', 'foo()\n'],
        '--suppress-decorations')
    add('files-bad-out', ['‹p3:foo()\n|missing|latin|foo() \n›', '‹p4:foo()\n|missing›', 'foo()\n'],
        '-o /v/out')
    add('again', ['foo()‹b1:b›\n', 'same'])
    add('out', [FILE % 1, '‹p3:foo()\n|foo() \n|missing|latin›'], '-o /v/out')
    add('out-plain', [FILE % 1, 'foo()‹b2:b›\n'], '-o /v/out --suppress-decorations')
    add('order', 'set(X {a ‹b1:b›)\nif(b)‹b2:b›\n   foo(\n ${c)‹p3:|' + WIDE + '›\nendif()\n'
        'function(Y)‹b4:b›\nendfunction()‹p5:|\n›')
    add('chars', MARK + 'disable=C0303\nfoo(‹a:x%d›)\n' % (2 if q else 3))
    add('chars2', 'foo(\n' + MARK + 'disable=C0303‹a:x›\n‹b:x%d›)\n' % (1 if q else 2))
    if not q:
        add('chars3', 'if(a)\n  ' + MARK + 'disable=C0303\n‹a:x3›endif()‹b:x›\n')
        add('lines', 'foo(‹p1:a|' + WIDE + '›)‹b2:b›\n' + ''.join(
            '‹p%d:' % (10 + i) + MARK + 'disable=C0303|foo(' + WIDE + ')|foo() |if(a) |endif() ›\n'
            for i in range(5)))
    return T


def no_numbers(real):
    """the lengths in the message of C0301 are not part of the property"""
    def get_database():
        db = real()
        try:
            db['C0301'].msgfmt = 'Line too long'
        except (AttributeError, KeyError, TypeError):
            pass
        return db
    return get_database


def inputs(S, p):
    return {'texts': [lib.build(S, f) for f in p['files']],
            'dis': S.pick('dis', p['dis']),
            'width': S.int('width', 36, 60)}


def warm():
    fs = vfs.VFS()
    fs.add('/v/a', 'foo( )\n')
    vfs.run_main(lint_main.main, ['/v/a'], fs)


def scopes(text):
    """-> [(first line, last line or None, codes)]"""
    out = []
    bodies = [[]]
    depth = 0
    after = False            # a command ended on this line
    start = True             # only blanks so far on this line
    line = 1
    for kind, t in ref.lex(text):
        if kind == 'nl':
            after = False
            start = True
        elif kind == 'lp':
            depth += 1
        elif kind == 'rp':
            depth -= 1
            after = True
        elif kind == 'lc':
            ids = []
            if t.startswith(MARK):
                for w in t[len(MARK):].split():
                    if w.startswith('disable='):
                        ids += w[len('disable='):].split(',')
            if ids and (depth or after):
                out.append((line, line, ids))
            elif ids:
                bodies[-1].append((line, ids))
        elif kind == 'un' and depth == 0:
            name = rt.conc(t.lower())
            end = name.startswith('end') and name[3:] in OPEN
            if end or name in MID:
                rt.assume(len(bodies) > 1)
                rt.assume(start)
                for first, ids in bodies.pop():
                    out.append((first, line - 1, ids))
            if name in OPEN or name in MID:
                bodies.append([])
        if kind not in ('nl', 'ws'):
            start = False
        line += t.count('\n')
    for b in bodies:
        for first, ids in b:
            out.append((first, None, ids))
    return out


def parse(out, names):
    """report -> ([(name, line, column, code, rest of the message's first line)],
    {category: count} or None, files scanned)"""
    recs = []
    counts = None
    files = None
    for ln in out.split('\n'):
        if counts is not None:
            if ':' in ln:
                k, v = ln.split(':', 1)
                k, v = rt.conc(k.strip()), rt.conc(v.strip())
                if k == 'files scanned':
                    files = int(v)
                elif v:
                    rt.check(k not in counts, lambda: k + ' twice in the summary')
                    counts[k] = int(v)
            continue
        if ln == 'Summary':
            counts = {}
            continue
        for n in dict.fromkeys(names):
            if not ln.startswith(n + ':'):
                continue
            head, msg = ln[len(n) + 1:].split(']', 1)
            loc, code = rt.conc(head).split(': [', 1)
            loc = [int(x) for x in loc.split(',')]
            recs.append((n, loc[0], loc[1] if len(loc) > 1 else None, code, msg))
    return recs, counts, files


def lint(names, texts, args, width):
    fs = vfs.VFS('/v')
    bad = False
    for n, t in zip(names, texts):
        if t == 'missing':
            bad = True
            continue
        if t == 'latin':
            bad = True
            fs.add(n, 'foo("é")\n', enc='latin-1')
            continue
        fs.add(n, t)
    real = lintdb.get_database
    lintdb.get_database = no_numbers(real)
    try:
        status, exc = vfs.run_main(lint_main.main, names + args, fs, values={987001: width})
    finally:
        lintdb.get_database = real
    out = ''.join([t for t, _ in fs.stdout])
    if '-o' in args:
        rt.check(out == '', 'output in spite of -o')
        f = fs.files.get('/v/out')
        rt.check(f is not None, 'no output file')
        out = f.text
    return status, out, bad


def run(p, inp):
    texts = list(inp['texts'])
    names = ['/v/d/f%d' % i for i in range(len(texts))]
    args = p['args'].split()
    for i, t in enumerate(texts):
        if t == 'same':
            texts[i] = texts[0]
            names[i] = names[0]
    cfg = lib.config('lint')
    for t in texts:
        if t not in ('missing', 'latin'):
            rt.assume('\r' not in t)
    broken = False
    for t in texts:
        if t not in ('missing', 'latin') and lib.process(cfg, t) is None:
            broken = True
    base = [a for a in args if a != '--suppress-decorations']
    for o in ('--disabled-codes', '-o'):
        if o in base:
            i = base.index(o)
            del base[i:i + 2]
    status, out, bad = lint(names, texts, args + (
        ['--disabled-codes'] + inp['dis'].split() if inp['dis'] else []), inp['width'])
    rt.check(status in (0, 1, 2), lambda: 'exit status %r' % (status,))
    if broken:
        rt.check(status != 0, 'a file could not be read as a listfile, yet the exit status is 0')
        return [status]
    plain = [t.replace(MARK, NEUTRAL) for t in texts]
    _, out0, _ = lint(names, plain, base + ['--suppress-decorations'], inp['width'])
    recs, counts, files = parse(out, names)
    recs0, _, _ = parse(out0, names)
    dis = inp['dis'].split()
    if not dis and '--disabled-codes' in args:
        dis = [args[args.index('--disabled-codes') + 1]]
    ranges = {}
    for n, t in zip(names, texts):
        if t not in ('missing', 'latin'):
            ranges[n] = scopes(t)
    want = []
    for r in recs0:
        hide = r[3] in dis
        for first, last, ids in ranges[r[0]]:
            if r[3] in ids and first <= r[1] and (last is None or r[1] <= last):
                hide = True
        if not hide:
            want.append(r)
    # findings about the directives themselves have no counterpart
    got = [r for r in recs if r[3] not in ('E0011', 'E0012')]
    rt.check([r[:4] for r in got] == [r[:4] for r in want],
             lambda: 'reported %r, expected %r' % ([r[:4] for r in got],
                                                   [r[:4] for r in want]))
    rt.check(rt.conj([a[4] == b[4] for a, b in zip(got, want)]), 'another message')
    for a, b in zip(recs, recs[1:]):
        if a[0] == b[0]:
            late = a[1] > b[1] or (a[1] == b[1] and a[2] is not None and
                                   b[2] is not None and a[2] > b[2])
            rt.check(not late, lambda: 'not in source order: %r before %r' % (a[:4], b[:4]))
        else:
            rt.check(names.index(a[0]) < names.index(b[0]), 'files out of order')
    rt.check((status != 0) == bool(recs or bad), lambda: 'exit status %r, %d findings, '
             'unreadable file: %r' % (status, len(recs), bad))
    if '--suppress-decorations' in args:
        rt.check(counts is None, 'summary in spite of --suppress-decorations')
    else:
        n = {}
        for r in recs:
            n[CAT[r[3][0]]] = n.get(CAT[r[3][0]], 0) + 1
        rt.check({k: v for k, v in (counts or {}).items() if v} == n,
                 lambda: 'summary %r, findings %r' % (counts, n))
        rt.check(files == len(ranges), lambda: '%r files scanned' % files)
    return [status, out]
