"""C18: check mode and the exit status tell exactly whether files would change."""
from cmakelang.format import __main__ as fmt_main
from harness import lib, corpus, vfs
from harness.corpus import task
from symex import rt

FUNCTIONS = ['format.__main__.main', 'format.__main__.inner_main',
             'format.__main__.onefile_main', 'format.__main__.process_file',
             'format.__main__.get_config']
BOUNDS = ('up to three files per run, each formatted / unformatted / rejected by '
          'the parser / rejected for its layout / disabled / not readable, in '
          'every order; modes check, in-place, standard output, output file, '
          'standard input')
ASSUMPTIONS = ['whether the run goes on after a rejected file is left open']
BUDGET = {'quick': 60.0, 'thorough': 600.0}

MODES = ['check', 'inplace', 'stdout']


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, files, mode, opts=None, hi=90, **kw):
        d = task(name, '', opts or {}, **kw)
        d['params'].update(files=[corpus.parts(f, hi) for f in files], mode=mode)
        d['bounds'] = '%d files %s; mode %s; options %s' % (
            len(files), ' | '.join(files).replace('\n', '\\n')[:200], mode,
            sorted(opts or {}))
        T.append(d)
    RV = {'format.require_valid_layout': 'b'}

    def pick(n, more=''):
        return ('‹p%d:foo()\n|foo(  )\n|foo(\n|if(a)\nfoo()\n|%s\n|disabled'
                '|missing%s›' % (n, 'foo(' + 'x' * 82 + ')', more))
    for mode in MODES:
        n = 2 if q or mode == 'stdout' else 3
        add('seq-' + mode, [pick(i) for i in range(n)], mode, RV)
        add('chars-' + mode, ['foo(‹a:x›‹b:x›)\n', 'bar(‹p:|  |(›)\n'], mode, {})
        add('width-' + mode, ['foo(‹Z›)\n', 'bar(‹p:|  |(›‹Y›)\n'], mode, RV)
        add('ends-' + mode, ['foo()‹p1:|\n|\r\n|\n\n›', 'bar()‹p2:\n|\r\n|\r›'], mode,
            {'format.line_ending': ['unix', 'windows', 'auto']})
        add('enc-' + mode, ['‹p0:bar()|bar( "é")|foo(   )|# é›\n', 'bar(‹p1:é| é|é |€›)\n'],
            mode, {'encode.input_encoding': 'latin-1',
                   'encode.output_encoding': 'latin-1'})
    add('three', [pick(0), '‹p1:foo()\n|foo(  )\n|foo(\n›', '‹p2:foo()\n|foo( )\n|foo(\n|missing›'],
        'check', {'format.require_valid_layout': True})
    for mode in ('outfile', 'stdin', 'stdin-check', 'outfile-same'):
        add('disabled-' + mode, ['‹p0:disabled|foo(  )\n|foo(\n›'], mode, RV)
        add('one-' + mode, ['foo(‹Z›‹a:x›‹b:b›)\n'], mode, RV)
        add('end-' + mode, ['foo()‹p1:|\n|\r\n|\r|\n\n›#‹c:x›'], mode,
            {'format.line_ending': ['unix', 'windows', 'auto']})
        add('enc-' + mode, ['foo("é")‹b:b›# ‹p:é|中›\n'], mode,
            {'encode.input_encoding': 'latin-1',
             'encode.output_encoding': ['latin-1', 'utf-8', 'utf-16', 'ascii']})
    if not q:
        for mode in MODES + ['outfile', 'stdin', 'stdin-check']:
            add('any-' + mode, ['‹a:x3›foo(‹b:x2›)‹c:b›'] +
                (['bar(‹d:x›)'] if mode in MODES else []), mode, RV)
    return T


def inputs(S, p):
    return {'texts': [lib.build(S, f) for f in p['files']],
            'opts': corpus.make_opts(S, p['opts'])}


def warm():
    fs = vfs.VFS()
    fs.add('/v/a', 'foo( )\n')
    vfs.run_main(fmt_main.main, ['-i', '/v/a'], fs)


def run(p, inp):
    mode = p['mode']
    opts = inp['opts']
    argv = []
    rv = False
    inenc = 'utf-8'
    outenc = 'utf-8'
    for sec in opts.values():
        for k, v in sec.items():
            if k == 'require_valid_layout':
                rv = True if v else False
                v = 'true' if rv else 'false'
            if k == 'input_encoding':
                inenc = v
            if k == 'output_encoding':
                outenc = v
            argv += ['--' + k.replace('_', '-'), v]
    cfg = lib.config('', None, **{s: d for s, d in opts.items()})
    fs = vfs.VFS()
    names, want, texts = [], [], inp['texts']
    for i, t in enumerate(texts):
        n = '/v/d%d/f.cmake' % i
        names.append(n)
        if t == 'missing':
            want.append(None)
            fs.dirs.add('/v/d%d' % i)
            continue
        if t == 'disabled':
            fs.add(n, 'foo(  )\n')
            fs.add('/v/d%d/.cmake-format.json' % i, '{"format": {"disable": true}}')
            want.append('disabled')
            continue
        rt.assume(can_encode(t, inenc))
        fs.add(n, t, enc=inenc)
        r = lib.process(cfg, t)
        if r is None or (rv and not r[1]):
            want.append(None)
        else:
            want.append(r[0])
    if mode == 'check':
        argv += ['--check']
    elif mode == 'inplace':
        argv += ['-i']
    elif mode == 'outfile':
        argv += ['-o', '/v/out']
    elif mode == 'outfile-same':
        argv += ['-o', names[0]]
    elif mode.startswith('stdin'):
        fs.cwd = '/v/d0'
        fs.dirs.add('/v/d0')
        if texts[0] == 'disabled':
            texts = ['foo(  )\n']
        fs.stdin = vfs.File(texts[0], enc=inenc)
        fs.files.pop(names[0], None)
        names = ['-']
        if mode == 'stdin-check':
            argv += ['--check']
    before = fs.snapshot()
    status, exc = vfs.run_main(fmt_main.main, argv + names, fs)
    after = fs.snapshot()
    ok = True if status == 0 else False
    refused = None in want
    encodable = True
    if 'check' not in mode:
        encodable = all([can_encode(w, outenc) for w, t in zip(want, texts) if w is not None
                         and not (mode == 'inplace' and t is not None and
                                  not vfs.is_ascii(w) and w == t)])
    # exit status
    if refused or not encodable:
        rt.check(not ok, 'a file was refused or could not be written, yet the '
                 'exit status is 0')
    elif 'check' in mode:
        same = [True if w == 'disabled' else (w == t) for w, t in zip(want, texts)]
        c = rt.conj(same)
        if ok:
            rt.check(c, 'check passed though a file would change')
        else:
            rt.check(rt.neg(c), lambda: 'check failed though no file would change '
                     '(%r)' % exc)
    else:
        rt.check(ok, lambda: 'exit status %r (%s)' % (status, exc))
    out = list(fs.stdout)
    # effects
    if 'check' in mode:
        rt.check(not fs.log, lambda: 'check mode changed files: %r' % fs.log)
        rt.check(not out, 'check mode wrote output')
    elif mode == 'inplace':
        rt.check(not out, 'in-place formatting wrote to standard output')
        for n in before:
            if n not in names:
                rt.check(after.get(n) == before[n], lambda: n + ' changed')
        first = want.index(None) if refused else len(want)
        if encodable:
            for i, (n, w, t) in enumerate(zip(names, want, texts)):
                if n not in before:
                    continue
                f = fs.files[n]
                if w is None or w == 'disabled':
                    rt.check(f.text is before[n][0], lambda: n + ' changed')
                    continue
                if i > first:
                    rt.check(rt.disj([f.text == t, f.text == w]), 'wrong content')
                else:
                    rt.check(f.text == w, lambda: '%s holds %r' % (n, f.text))
                if n in [x for _, x in fs.log]:
                    rt.check(f.enc == outenc, 'wrong encoding')
            if first == len(want):
                extra = [n for n in after if n not in before]
                rt.check(not extra, lambda: 'left behind: %r' % extra)
    elif mode == 'outfile' or mode == 'outfile-same':
        for n in before:
            if n != names[0] or mode == 'outfile':
                rt.check(after.get(n) == before[n], lambda: n + ' changed')
        rt.check(not out, 'wrote to standard output')
        target = '/v/out' if mode == 'outfile' else names[0]
        if ok:
            f = fs.files.get(target)
            rt.check(f is not None and not f.torn, 'no output file')
            rt.check(f.text == ('foo(  )\n' if want[0] == 'disabled' else want[0]),
                     lambda: 'output %r' % f.text)
            rt.check(f.enc == outenc, 'wrong encoding')
    else:
        rt.check(not fs.log, lambda: 'files changed: %r' % fs.log)
        text = ''.join([t for t, _ in out])
        want = ['foo(  )\n' if w == 'disabled' else w for w in want]
        good = [w for w in want if w is not None]
        for _, e in out:
            rt.check(e == outenc, lambda: 'output encoded as ' + e)
        if encodable:
            first = want.index(None) if refused else len(want)
            alts = [''.join(good)]
            if refused:
                alts.append(''.join(want[:first]))
            rt.check(rt.disj([text == a for a in alts]), lambda: 'output %r' % text)
    return [status, exc, [t for t, _ in out]]


def can_encode(w, enc):
    if w == 'disabled' or enc.startswith('utf-') or vfs.is_ascii(w):
        return True
    try:
        rt.conc(w).encode(enc)
    except UnicodeError:
        return False
    return True
