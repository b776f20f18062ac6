"""C17: in-place formatting never loses or damages the file."""
from cmakelang.format import __main__ as fmt_main
from harness import lib, corpus, vfs
from harness.corpus import task
from symex import rt

FUNCTIONS = ['format.__main__.main', 'format.__main__.inner_main',
             'format.__main__.onefile_main', 'format.__main__.process_file']
BOUNDS = ('one or two files per run; at most one failing operation, at any '
          'position; the process may stop after any operation')
ASSUMPTIONS = ['rename is atomic; a file being written is incomplete until it is closed']
BUDGET = {'quick': 60.0, 'thorough': 600.0}


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, tpl, opts=None, **kw):
        T.append(task(name, tpl, opts or {}, **kw))
    RV = {'format.require_valid_layout': 'b'}
    for name, tpl in (
            ('plain', 'foo(‹Z›‹a:b2›)‹b:b›\n'),
            ('ends', 'foo()‹p1:|\n|\r\n|\n\n›'),
            ('refused', '‹a:x›foo(‹Z›‹b:x›\n)\n'),
            ('unicode', '# ‹a:s2›\nfoo("é‹b:S›" )\n'),
            ('toolong', 'foo(‹Z› ‹Y›)\n')):
        for fault in (False, True):
            add('%s-%s' % (name, 'fault' if fault else 'kill'), tpl, RV, hi=90,
                fault=fault)
    add('two-kill', 'foo(‹Z›‹a:b›)\n', {}, hi=4, fault=False, second='bar(‹p:|  |(›)\n')
    add('two-fault', 'foo(‹Z›‹a:b›)\n', {}, hi=4, fault=True, second='bar(‹p:|  |(›)\n')
    for fault in (False, True):
        add('encode-%s' % ('fault' if fault else 'kill'),
            'foo("‹p0:é|中|x›" ‹Z› )‹b:b›# ‹p1:é|x›\n',
            {'encode.output_encoding': ['utf-8', 'latin-1', 'ascii', 'utf-16']},
            hi=70, fault=fault)
        add('ending-%s' % ('fault' if fault else 'kill'),
            'foo( )‹p1:\n|\r\n|\r›bar()‹p2:|\n|\r\n|\n\n›',
            {'format.line_ending': ['unix', 'windows', 'auto']}, fault=fault)
    if not q:
        add('any-fault', '‹a:x3›foo(‹b:x2›)‹c:b›', RV, fault=True)
        add('any-kill', '‹a:x4›foo(‹b:x2›)‹c:b2›', RV, fault=False)
    return T


def inputs(S, p):
    d = {'src': lib.build(S, p['parts']), 'opts': corpus.make_opts(S, p['opts']),
         'mode': S.int('mode', 0, 0o777)}
    if p.get('fault'):
        d['fault'] = S.int('fault', 1, 40)
    if p.get('second'):
        d['second'] = lib.build(S, corpus.parts(p['second']))
        d['mode2'] = S.int('mode2', 0, 0o777)
    return d


def show(p, inp):
    return inp


def warm():
    fs = vfs.VFS()
    fs.add('/v/a', 'foo( )\n')
    vfs.run_main(fmt_main.main, ['-i', '/v/a'], fs)


def run(p, inp):
    rv = inp['opts'].get('format', {}).get('require_valid_layout', False)
    rv = True if rv else False
    outenc = inp['opts'].get('encode', {}).get('output_encoding', 'utf-8')
    eol = inp['opts'].get('format', {}).get('line_ending', 'unix')
    fs = vfs.VFS()
    names = ['/v/d/a.cmake']
    texts = [inp['src']]
    modes = [inp['mode']]
    if 'second' in inp:
        names.append('/v/d/b.cmake')
        texts.append(inp['second'])
        modes.append(inp['mode2'])
    want = []
    cfg = lib.config('', None, format={'line_ending': eol})
    for t in texts:
        r = lib.process(cfg, t)
        if r is None or (rv and not r[1]) or not can_encode(r[0], outenc):
            want.append(None)
        else:
            want.append(r[0])
    for n, t, m in zip(names, texts, modes):
        fs.add(n, t, mode=m)
    fs.add('/v/d/other.txt', 'other', mode=0o600)
    touched = set()

    def intact():
        for n, t, w in zip(names, texts, want):
            f = fs.files.get(n)
            rt.check(f is not None, lambda: '%s is gone after %r' % (n, fs.log))
            rt.check(not f.torn, lambda: '%s is incomplete after %r' % (n, fs.log))
            if f.text is t:
                continue
            rt.check(w is not None, lambda: '%s changed though it was refused' % n)
            rt.check(rt.disj([f.text == t, f.text == w]), lambda:
                     '%s holds %r' % (n, f.text))

    def hook(kind, path):
        if path in names:
            touched.add(path)
        intact()
    fs.hook = hook
    fs.fault = inp.get('fault')
    argv = ['-i', '--output-encoding', outenc, '--line-ending', eol] + (
        ['--require-valid-layout', 'true'] if rv else []) + names
    status, exc = vfs.run_main(fmt_main.main, argv, fs)
    fs.hook = None
    intact()
    for n, t, w, m in zip(names, texts, want, modes):
        f = fs.files[n]
        if w is None or w == t:
            # nothing to write, or nothing that can be written
            rt.check(n not in touched, lambda: '%s was written: %r' % (n, fs.log))
            rt.check(f.mode == m, 'mode bits changed')
        elif not fs.faulted:
            if f.text is not t:
                rt.check(f.text == w, lambda: '%s holds %r' % (n, f.text))
                rt.check(f.enc == outenc, 'wrong encoding')
                rt.check(f.mode == m, lambda: 'mode of %s is %r instead of %r' % (
                    n, f.mode, m))
            else:
                # not reached: an earlier file was refused
                rt.check(None in want[:names.index(n)], '%s was not formatted' % n)
    rt.check(fs.files['/v/d/other.txt'].text == 'other', 'another file changed')
    if fs.faulted:
        rt.check(status != 0, 'a failed operation, yet exit status 0')
    return [status, exc, [fs.files[n].text for n in names]]


def can_encode(w, enc):
    if enc.startswith('utf-') or rt.is_ascii(w):
        return True
    try:
        rt.conc(w).encode(enc)
    except UnicodeError:
        return False
    return True
