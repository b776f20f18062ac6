"""C13: a dumped configuration reloads to the same configuration."""
import json

from cmakelang import configuration
from cmakelang.format import __main__ as fmt_main
from cmakelang.lint import __main__ as lint_main
from harness import lib, vfs
from harness.c14 import OPTS, SKIP_CLI, ENCODINGS, Conf, capture, norm
from harness.c15 import same
from symex import rt

FUNCTIONS = ['config_util.ConfigObject.dump', 'config_util.ConfigObject._as_dict',
             'config_util.ConfigObject.has_override', 'config_util.serialize',
             'config_util.ExecGlobal', 'format.__main__.dump_config',
             'format.__main__.exec_pyconfig', 'format.__main__.load_yaml',
             'format.__main__.get_one_config_dict',
             'format.__main__.try_get_configdict', 'format.__main__.inner_main',
             'lint.__main__.inner_main', 'configuration.Configuration',
             'json.encoder', 'json.decoder', 'yaml', 'pprint', 'textwrap']
BOUNDS = ('every option, set in a configuration file or on the command line, to '
          'an unknown value (integers 0..300, any of 142 characters inside short '
          'and long texts, lists of up to three texts, nested tables); pairs of '
          'options; the three forms, with and without help and defaults, loaded '
          'under their own extension and without one')
ASSUMPTIONS = ['the dump is stored as UTF-8']
BUDGET = {'quick': 100.0, 'thorough': 900.0}

FORMS = [('python', 'py'), ('json', 'json'), ('yaml', 'yaml')]
LONG = 'lorem ipsum dolor sit amet consectetur adipiscing elit sed do eiusmod tempor'
WIDE = 'x' * 84
TABLES = {
    'additional_commands': [
        {'foo': {'pargs': 1}},
        {'foo': {'pargs': {'nargs': '*', 'flags': ['A'], 'tags': ['file-list']},
                 'kwargs': {'B': {'pargs': '2+', 'kwargs': {'C': '?'}}, 'D': 0}},
         'bar': {}},
        {'foo': {'spelling': 'FoO', 'pargs': [1, '*', {'nargs': 2}]},
         'FOO': {'pargs': 3, 'flags': ['Q']}},
        {'zed': {'flags': ['Z']}, 'alf': {'kwargs': {'Z': 1, 'Y': 2, 'X': 3}}},
        {}],
    'per_command': [
        {'foo': {'command_case': 'upper'}},
        {'externalproject_add': {'command_case': 'lower'}},
        {'FetchContent_Declare': {'spelling': 'fetchContent_Declare'}},
        {'foo': {'command_case': 'upper'}, 'FOO': {'command_case': 'lower'}},
        {'set': {'max_subgroups_hwrap': 3, 'dangle_parens': True}, 'x-y': {}},
        {}],
    'override_spec': [{'foo.always_wrap': True},
                      {'foo.max_subgroups_hwrap': 5, 'foo/HEADERS.max_subgroups_hwrap': 1,
                       'foo/SOURCES/parg[0].nargs': 3},
                      {}],
    'layout_passes': [{'X': [[0, True]]},
                      {'StatementNode': [[0, False], [3, True]], 'ArgGroupNode': []},
                      {}],
    'vartags': [[['A', ['x']]], [['A.*', ['x', 'y z']], ['B', []]], []],
    'proptags': [[['A', ['x']]], [['B"', ["y'"]], ['B', ['y']]], []]}


def tasks(tier):
    T = []

    def add(name, weight=1.0, **kw):
        T.append({'name': name, 'weight': weight, 'params': kw,
                  'bounds': '; '.join('%s %s' % kv for kv in sorted(kw.items()))})
    n = len(OPTS)
    thorough = tier != 'quick'
    for i, o in enumerate(OPTS):
        for f, (form, ext) in enumerate(FORMS):
            k = i + f
            if form == 'yaml' and not thorough and i not in (0, 4):
                k = 7
            for h, d in ([(True, True), (False, False), (True, False), (False, True)]
                         if thorough else [(k % 2 == 0, False)] +
                         ([(k % 3 == 0, True)] if k % 6 < 2 else [])):
                add('one-%s-%s-%d%d' % (o[1], form, h, d), kind='one', idx=[i],
                    form=f, help=h, default=d, tool=['fmt', 'lint'][(i + f + h) % 2],
                    via='file', load=ext if (i + 2 * f) % 5 else '')
        if o[1] not in SKIP_CLI:
            f = i % 3
            add('cli-%s' % o[1], kind='one', idx=[i], form=f, help=False,
                default=False, tool=['fmt', 'lint'][(i // 3) % 2], via='cli',
                load=FORMS[f][1])
    step = 1 if thorough else 7
    for i in range(0, n):
        for d in (1, 23) if not thorough else range(1, n, 5):
            j = (i + d) % n
            if thorough or (i + d) % 4 == 0:
                f = (i + d) % 3
                add('pair-%s-%s' % (OPTS[i][1], OPTS[j][1]), kind='pair', idx=[i, j],
                    form=f, help=(i % 2 == 0), default=False, tool='fmt', via='both',
                    load=FORMS[f][1])
    names = [o[1] for o in OPTS]
    for f, (form, ext) in enumerate(FORMS):
        for nm in ('bullet_char', 'literal_comment_pattern', 'always_wrap', 'vartags'):
            for style in ('one', 'long', 'wide', 'special'):
                add('text-%s-%s-%s' % (nm, form, style), 2.0, kind='text',
                    idx=[names.index(nm)], form=f, style=style, help=(nm[0] == 'b'),
                    default=False, tool='fmt', via='file',
                    load=ext if nm != 'always_wrap' else '')
        add('none-%s' % form, kind='none', idx=[], form=f, help=True, default=True,
            tool='fmt', via='file', load='')
        add('none-%s-no' % form, kind='none', idx=[], form=f, help=False, default=False,
            tool='lint', via='file', load='')
    return T


def value(S, name, o, level):
    s, n, d, c = o
    if n in TABLES:
        return S.pick(name, [json.dumps(v) for v in TABLES[n]])
    if c:
        return S.pick(name, list(c))
    if n.endswith('_encoding'):
        return S.pick(name, ENCODINGS)
    if isinstance(d, bool):
        return S.bool(name) if level != 'cli' else S.pick(
            name, ['true', 'false']) == 'true'
    if isinstance(d, int):
        return S.int(name, 0, 12) if level != 'full' else S.int(name, 0, 300)
    if isinstance(d, (list, tuple)):
        return [S.text(name, 1, 'aB_-é\'"')] * S.pick(name + 'n', [0, 1, 2]) \
            if level != 'cli' else [S.text(name, 1, 'aB_-é')]
    return S.text(name, 2, 'aB\\"\'#é: ' if level != 'cli' else 'aB_-.*é')


SPECIAL = ['', ' ', 'yes', 'null', '~', '1', '1.5', '0x1F', 'true', '2001-01-01', '=',
           '<<', '- a', '? a', 'a: b', 'a #b', '---', '...', '[a]', '{a}', '{}', '%d',
           '@a', '`a`', '&a', '*a', '!a', '|', '>', "'''", '"""', 'a\\', '\\x41',
           'a\nb', 'a\n', '\na', ' a', 'a ', 'a\n b\n', '\n\n', 'a' * 90 + ' b',
           'None', '_', '#', '@@0x', 'a\tb', 'a\r\nb', '\\', '\\\\n', 'é' * 50]


def inputs(S, p):
    if p['kind'] == 'none':
        return {}
    opts = [OPTS[i] for i in p['idx']]
    if p['kind'] == 'text':
        if p['style'] == 'one':
            t = S.char('c')
        elif p['style'] == 'special':
            t = S.pick('t', SPECIAL)
        else:
            base = {'long': LONG, 'wide': WIDE}[p['style']]
            t = base[:S.pick('cut', [4, 60, 70])] + S.char(
                'c', ' a\'"\\\n\té\u2028') + base[:S.pick('tail', [0, 10, 76])]
        if opts[0][1] == 'vartags':
            return {'v': [[['A', [t, 'x']], ['B', []]]], 'via': ['file']}
        if isinstance(opts[0][2], (list, tuple)):
            t = [t] * S.pick('k', [1, 3])
        return {'v': [t], 'via': ['file']}
    via = []
    for i, o in enumerate(opts):
        v = p['via']
        if v == 'both':
            v = ['file', 'cli'][i % 2]
        via.append('file' if o[1] in SKIP_CLI else v)
    return {'v': [value(S, 'v%d' % k, o, via[k] if len(opts) > 1 or via[k] == 'cli'
                        else 'full') for k, o in enumerate(opts)], 'via': via}


def real(o, v):
    return json.loads(v) if o[1] in TABLES and not isinstance(v, list) else v


def run(p, inp):
    opts = [OPTS[i] for i in p['idx']]
    vals = [real(o, v) for o, v in zip(opts, inp.get('v', []))]
    vias = inp.get('via', [])
    names = [o[1] for o in opts]
    if 'override_spec' in names and 'additional_commands' in names:
        rt.assume(vals[names.index('override_spec')] == {})
    form, ext = FORMS[p['form']]
    main = {'fmt': fmt_main, 'lint': lint_main}[p['tool']].main
    conf = Conf()
    fs = vfs.VFS(cwd='/v/w')
    fs.add('/v/w/f', 'foo()\n')
    argv = ['--dump-config', form]
    entries = [(o, 'section', json.dumps(v) if o[1] in TABLES and not p['kind'] ==
                'text' else v) for o, v, w in zip(opts, vals, vias) if w == 'file']
    if entries:
        if p['kind'] == 'text' and opts[0][1] == 'vartags':
            text = plain(conf, opts[0], vals[0])
        else:
            text = conf.text('py', entries)
        fs.add('/v/c/src.py', text)
        argv += ['-c', '/v/c/src.py']
    argv += conf.argv([(o, v) for o, v, w in zip(opts, vals, vias) if w == 'cli'])
    if not p['help']:
        argv.append('--no-help')
    if not p['default']:
        argv.append('--no-default')
    status, exc = vfs.run_main(main, argv, fs, conf.values)
    rt.check(exc is None and status == 0, lambda: 'dumping failed: %s %s' % (status, exc))
    dump = ''.join([t for t, _ in fs.stdout])
    fs2 = vfs.VFS(cwd='/v/w')
    fs2.add('/v/w/f', 'foo()\n')
    path = '/v/w/.cmake-format' + ('.' + p['load'] if p['load'] else '')
    fs2.add(path, dump)
    seen, (status, exc) = capture('fmt', ['f', '-o', '/v/out'], fs2, {})
    if any([o[1] == 'disable' for o in opts]) and not seen:
        # nothing is processed
        rt.check(exc is None and status == 0, lambda: 'loading failed')
        return [status, 'disabled']
    rt.check(exc is None and len(seen) == 1,
             lambda: 'the dump does not load: %s\n%s' % (exc, dump))
    got = seen[0]
    d = {}
    for o, v in zip(opts, vals):
        d.setdefault(o[0], {})[o[1]] = copyd(v)
    want = configuration.Configuration(**d)
    same(got, want, 'reloaded')
    if not p['default']:
        a, b = sets(got), sets(want)
        rt.check(a == b, lambda: 'the dump sets %r, of which were set %r' % (a, b))
    return [getattr(getattr(got, o[0]), o[1]) for o in opts]


def plain(conf, o, v):
    """vartags with an unknown text"""
    from harness import marks
    marks.VALUES['t'] = v
    return "from harness import marks as _m\nwith section('%s'):\n  %s = _m.V('t')\n" % (
        o[0], o[1])


def sets(cfg):
    out = []
    for sub in cfg._field_registry:
        sec = getattr(cfg, sub.name)
        for dsc in sec._field_registry:
            if dsc.has_override(sec):
                out.append('%s.%s' % (sub.name, dsc.name))
    return out


def copyd(d):
    if isinstance(d, dict):
        return {k: copyd(v) for k, v in d.items()}
    if isinstance(d, list):
        return [copyd(x) for x in d]
    return d


def warm():
    for i in range(3):
        run({'kind': 'none', 'idx': [], 'form': i, 'help': True, 'default': True,
             'tool': 'fmt', 'load': ''}, {})
