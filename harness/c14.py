"""C14: command line over later files over earlier files over defaults."""
import json

from cmakelang import configuration
from cmakelang.format import __main__ as fmt_main
from cmakelang.lint import __main__ as lint_main
from harness import vfs, marks
from symex import rt

FUNCTIONS = ['format.__main__.get_configdict', 'format.__main__.map_merge',
             'format.__main__.get_config', 'format.__main__.get_one_config_dict',
             'format.__main__.get_argdict', 'format.__main__.onefile_main',
             'format.__main__.inner_main', 'lint.__main__.inner_main',
             'config_util.ConfigObject', 'configuration.Configuration']
BOUNDS = ('every option of every section; two listed files (each leaving it '
          'unset, setting it in its section or at the top level) and the command '
          'line, with unknown values (integers 0..300, texts of two characters, '
          'all choices); pairs of options; up to three input files; includes '
          'nested twice')
ASSUMPTIONS = ['whether an included file or the file including it wins is left open']
BUDGET = {'quick': 80.0, 'thorough': 400.0}

SKIP_CLI = {'vartags', 'proptags', 'additional_commands', 'per_command',
            'override_spec', 'layout_passes'}
STRUCT = {
    'additional_commands': [{'foo': {'pargs': 1}}, {'foo': {'pargs': 2}}],
    'per_command': [{'foo': {'command_case': 'upper'}},
                    {'foo': {'command_case': 'lower'}}],
    'override_spec': [{}, {}],
    'layout_passes': [{'X': [[0, True]]}, {'X': [[1, False]]}],
    'vartags': [[['A', ['x']]], [['B', ['y']]]],
    'proptags': [[['A', ['x']]], [['B', ['y']]]]}
ENCODINGS = ['utf-8', 'latin-1', 'utf-16']


def options():
    out = []
    cfg = configuration.Configuration()
    for sub in cfg._field_registry:
        for d in getattr(cfg, sub.name)._field_registry:
            out.append((sub.name, d.name, d.default_value, d.choices))
    return out


#: the documented defaults
DOC = {'parse': {'additional_commands': {'foo': {'flags': ['BAR', 'BAZ'],
                                           'kwargs': {'HEADERS': '*',
                                                      'SOURCES': '*',
                                                      'DEPENDS': '*'}}},
           'override_spec': {},
           'vartags': [],
           'proptags': []},
 'format': {'disable': False,
            'line_width': 80,
            'tab_size': 2,
            'use_tabchars': False,
            'fractional_tab_policy': 'use-space',
            'max_subgroups_hwrap': 2,
            'max_pargs_hwrap': 6,
            'max_rows_cmdline': 2,
            'separate_ctrl_name_with_space': False,
            'separate_fn_name_with_space': False,
            'dangle_parens': False,
            'dangle_align': 'prefix',
            'min_prefix_chars': 4,
            'max_prefix_chars': 10,
            'max_lines_hwrap': 2,
            'line_ending': 'unix',
            'command_case': 'canonical',
            'keyword_case': 'unchanged',
            'always_wrap': [],
            'enable_sort': True,
            'autosort': False,
            'require_valid_layout': False,
            'layout_passes': {}},
 'markup': {'bullet_char': '*',
            'enum_char': '.',
            'first_comment_is_literal': False,
            'literal_comment_pattern': None,
            'fence_pattern': '^\\s*([`~]{3}[`~]*)(.*)$',
            'ruler_pattern': '^\\s*[^\\w\\s]{3}.*[^\\w\\s]{3}$',
            'explicit_trailing_pattern': '#<',
            'hashruler_min_length': 10,
            'canonicalize_hashrulers': True,
            'enable_markup': True},
 'lint': {'disabled_codes': [],
          'function_pattern': '[0-9a-z_]+',
          'macro_pattern': '[0-9A-Z_]+',
          'global_var_pattern': '[A-Z][0-9A-Z_]+',
          'internal_var_pattern': '_[A-Z][0-9A-Z_]+',
          'local_var_pattern': '[a-z][a-z0-9_]+',
          'private_var_pattern': '_[0-9a-z_]+',
          'public_var_pattern': '[A-Z][0-9A-Z_]+',
          'argument_var_pattern': '[a-z][a-z0-9_]+',
          'keyword_pattern': '[A-Z][0-9A-Z_]+',
          'max_conditionals_custom_parser': 2,
          'min_statement_spacing': 1,
          'max_statement_spacing': 2,
          'max_returns': 6,
          'max_branches': 12,
          'max_arguments': 5,
          'max_localvars': 15,
          'max_statements': 50},
 'encode': {'emit_byteorder_mark': False,
            'input_encoding': 'utf-8',
            'output_encoding': 'utf-8'},
 'misc': {'per_command': {}}}

OPTS = options()


def tasks(tier):
    T = []

    def add(name, **kw):
        T.append({'name': name, 'weight': 1.0, 'params': kw,
                  'bounds': '; '.join('%s %s' % kv for kv in sorted(kw.items()))})
    for i, (s, n, d, c) in enumerate(OPTS):
        add('one-%s.%s' % (s, n), kind='one', idx=[i], tool=['fmt', 'lint'][i % 2]
            if tier == 'quick' and n != 'disable' else 'fmt')
        if tier != 'quick':
            add('one-lint-%s.%s' % (s, n), kind='one', idx=[i], tool='lint')
    n = len(OPTS)
    step = 5 if tier == 'quick' else 1
    for i in range(0, n, step):
        j = (i + 1) % n
        add('pair-%s-%s' % (OPTS[i][1], OPTS[j][1]), kind='pair', idx=[i, j],
            tool='fmt')
    names = [o[1] for o in OPTS]
    A = names.index('line_width')
    for other in ['dangle_parens', 'bullet_char', 'disabled_codes', 'command_case']:
        B = names.index(other)
        for tool in ('fmt', 'lint'):
            add('multi-%s-%s' % (other, tool), kind='multi', idx=[A, B], tool=tool)
            add('include-%s-%s' % (other, tool), kind='include', idx=[B], tool=tool)
    add('include-line_width', kind='include', idx=[A], tool='fmt')
    return T


def value(S, name, o, level):
    s, n, d, c = o
    if n in STRUCT:
        return S.pick(name, [json.dumps(v) for v in STRUCT[n]])
    if c:
        return S.pick(name, list(c))
    if n.endswith('_encoding'):
        return S.pick(name, ENCODINGS)
    if isinstance(d, bool):
        return S.pick(name, ['true', 'false']) == 'true' if level == 'cli' else S.bool(name)
    if isinstance(d, int):
        return S.int(name, 0, 300)
    if isinstance(d, (list, tuple)):
        return [S.text(name, 1, 'aB_-é')]
    return S.text(name, 2, 'aB_-.*é')


def inputs(S, p):
    d = {}
    opts = [OPTS[i] for i in p['idx']]
    if p['kind'] == 'one':
        o = opts[0]
        for lev in ('f1', 'f2'):
            d[lev] = [S.pick(lev, ['', 'section', 'flat'])]
            d[lev + 'v'] = [value(S, lev + 'v', o, lev)] if d[lev][0] else [None]
        cli = S.pick('cli', ['', 'set']) if o[1] not in SKIP_CLI else ''
        d['cli'] = [cli]
        d['cliv'] = [value(S, 'cliv', o, 'cli')] if cli else [None]
    elif p['kind'] == 'pair':
        for lev in ('f1', 'f2', 'cli'):
            d[lev], d[lev + 'v'] = [], []
            for k, o in enumerate(opts):
                if lev == 'cli' and o[1] in SKIP_CLI:
                    st = ''
                else:
                    st = S.pick('%s%d' % (lev, k), ['', ['section', 'flat'][
                        (k + (lev == 'f2')) % 2]])
                d[lev].append(st)
                d[lev + 'v'].append(value(S, '%sv%d' % (lev, k), o, lev) if st else None)
    elif p['kind'] == 'multi':
        for lev in ('f0', 'f1', 'f2', 'cli'):
            d[lev], d[lev + 'v'] = [], []
            for k, o in enumerate(opts):
                st = S.pick('%s%d' % (lev, k), ['', ['section', 'flat'][k]])
                d[lev].append(st)
                d[lev + 'v'].append(value(S, '%sv%d' % (lev, k), o, lev) if st else None)
    else:
        for lev in ('a', 'i', 'j', 'c', 'cli'):
            st = S.pick(lev, ['', 'section'])
            d[lev] = [st]
            d[lev + 'v'] = [value(S, lev + 'v', opts[0], lev)] if st else [None]
    return d


class Conf(object):
    """builds configuration files whose values may be unknown"""

    def __init__(self):
        self.values = {}
        marks.VALUES.clear()

    def mark(self, v):
        if isinstance(v, list):
            return [self.mark(x) for x in v]
        k = '@@%d' % len(self.values)
        self.values[k] = v
        return k

    def text(self, kind, entries, include=None):
        """entries: [(option, style, value)]"""
        if kind == 'py':
            lines = ['from harness import marks as _m']
            if include:
                lines.append('include = %r' % include)
            for (s, n, d, c), style, v in entries:
                k = 'v%d' % len(marks.VALUES)
                marks.VALUES[k] = json.loads(v) if n in STRUCT else v
                if style == 'flat':
                    lines.append('%s = _m.V(%r)' % (n, k))
                else:
                    lines.append('with section(%r):\n  %s = _m.V(%r)' % (s, n, k))
            return '\n'.join(lines) + '\n'
        top = {}
        if include:
            top['include'] = include
        for (s, n, d, c), style, v in entries:
            v = json.loads(v) if n in STRUCT else self.mark(v)
            if style == 'flat':
                top[n] = v
            else:
                top.setdefault(s, {})[n] = v
        return json.dumps(top) + '\n'

    def argv(self, entries):
        out = []
        for (s, n, d, c), v in entries:
            opt = '--' + n.replace('_', '-')
            if isinstance(d, bool):
                out += [opt, 'true' if v else 'false']
            elif c or n.endswith('_encoding'):
                out += [opt, v]
            elif isinstance(d, int):
                k = 987000 + len(self.values)
                self.values[k] = v
                out += [opt, str(k)]
            elif isinstance(v, list):
                out += [opt] + self.mark(v)
            else:
                out += [opt, self.mark(v)]
        return out


def capture(tool, argv, fs, values):
    """run the program, return the configuration used for each file"""
    seen = []
    if tool == 'fmt':
        real = fmt_main.process_file

        def process_file(cfg, *a, **k):
            seen.append(cfg)
            return 'x\n', True
        fmt_main.process_file = process_file
        try:
            res = vfs.run_main(fmt_main.main, argv, fs, values)
        finally:
            fmt_main.process_file = real
    else:
        real = lint_main.process_file

        def process_file(cfg, *a, **k):
            seen.append(cfg)
        lint_main.process_file = process_file
        try:
            res = vfs.run_main(lint_main.main, argv, fs, values)
        finally:
            lint_main.process_file = real
    return seen, res


def warm():
    fs = vfs.VFS()
    fs.add('/v/a', 'foo()\n')
    capture('fmt', ['/v/a'], fs, {})
    capture('lint', ['/v/a'], fs, {})


def expected(o, v):
    if o[1] in STRUCT and v is not None:
        return json.loads(v)
    return v


def default(o):
    return DOC.get(o[0], {}).get(o[1], o[2])


def norm(v):
    if isinstance(v, tuple):
        v = list(v)
    if isinstance(v, list):
        return [norm(x) for x in v]
    return v


def compare(cfg, o, want, what):
    """the option o of cfg has one of the values"""
    have = norm(getattr(getattr(cfg, o[0]), o[1]))
    want = [norm(w) for w in want]
    same = []
    for w in want:
        if w is None or have is None:
            same.append(w is None and have is None)
        elif isinstance(w, list) != isinstance(have, list):
            same.append(False)
        elif isinstance(w, list):
            same.append(rt.conj([len(w) == len(have)] + [
                a == b for a, b in zip(w, have)]))
        else:
            same.append(have == w)
    rt.check(rt.disj(same), lambda: '%s: %s.%s is %r instead of %r' % (
        what, o[0], o[1], have, want))


def run(p, inp):
    opts = [OPTS[i] for i in p['idx']]
    conf = Conf()
    fs = vfs.VFS(cwd='/v/w')
    kind, tool = p['kind'], p['tool']
    n = len(opts)

    def entries(lev):
        return [(o, st, v) for o, st, v in zip(opts, inp[lev], inp[lev + 'v']) if st]
    cli = conf.argv([(o, v) for o, st, v in entries('cli')])
    if tool == 'lint':
        cli = ['-o', '/v/out'] + cli
    else:
        cli = ['-i'] + cli
    wants = []
    if kind in ('one', 'pair'):
        fs.add('/v/w/f', 'foo()\n')
        fs.add('/v/c/one.json', conf.text('json', entries('f1')))
        second = '/v/c/two.' + ('py' if p['idx'][0] % 2 else 'json')
        fs.add(second, conf.text(second.rsplit('.', 1)[1], entries('f2')))
        argv = ['f', '-c', '../c/one.json', second] + cli
        w = []
        for k, o in enumerate(opts):
            v = [default(o)]
            for lev in ('f1', 'f2', 'cli'):
                if inp[lev][k]:
                    v = [expected(o, inp[lev + 'v'][k])]
            w.append(v)
        wants.append(w)
        files = ['/v/w/f']
    elif kind == 'multi':
        files = []
        for i, ext in enumerate(('json', 'py', 'yaml')):
            fs.add('/v/d%d/f' % i, 'foo()\n')
            files.append('/v/d%d/f' % i)
            lev = 'f%d' % i
            es = entries(lev)
            if es:
                fs.add('/v/d%d/.cmake-format.%s' % (i, ext), conf.text(ext, es))
            w = []
            for k, o in enumerate(opts):
                v = [default(o)]
                for l in (lev, 'cli'):
                    if inp[l][k]:
                        v = [inp[l + 'v'][k]]
                w.append(v)
            wants.append(w)
        argv = files + cli
    else:
        fs.add('/v/w/f', 'foo()\n')
        files = ['/v/w/f']
        fs.add('/v/c/a.json', conf.text('json', entries('a'), ['sub/i.yaml']))
        fs.add('/v/c/sub/i.yaml', conf.text('yaml', entries('i'), ['../j.py']))
        fs.add('/v/c/j.py', conf.text('py', entries('j')))
        fs.add('/v/c/c.json', conf.text('json', entries('c')))
        argv = ['f', '-c', '../c/a.json', '/v/c/c.json'] + cli
        o = opts[0]
        if inp['cli'][0]:
            v = [inp['cliv'][0]]
        elif inp['c'][0]:
            v = [inp['cv'][0]]
        else:
            v = [inp[l + 'v'][0] for l in ('a', 'i', 'j') if inp[l][0]] or [default(o)]
        wants.append([v])
    seen, (status, exc) = capture(tool, argv, fs, conf.values)
    rt.check(exc is None, lambda: '%s raised' % exc)
    if any([o[1] == 'disable' for o in opts]) and not seen:
        i = [o[1] for o in opts].index('disable')
        rt.check(rt.disj([v for v in wants[0][i]]), 'format.disable is on')
        return [status, 'disabled']
    rt.check(len(seen) == len(files), lambda: '%d files processed' % len(seen))
    for f, cfg, w in zip(files, seen, wants):
        for o, v in zip(opts, w):
            compare(cfg, o, v, f)
        for o in OPTS:
            if not any([o is x for x in opts]):
                compare(cfg, o, [default(o)], f)
    return [status, [[getattr(getattr(c, o[0]), o[1]) for o in opts] for c in seen]]
