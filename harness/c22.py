"""C22: arguments of declared commands are assigned as declared."""
from cmakelang import configuration, lex, parse
from cmakelang.parse.common import NodeType
from harness import lib, ref, corpus
from harness.corpus import task
from symex import rt

FUNCTIONS = ['configuration.ParseConfig', 'parse.util.CommandSpec', 'parse.util.PositionalSpec',
             'parse.util.parse_pspec', 'parse.util.apply_overrides',
             'parse.util.pargs_are_full', 'parse.util.get_normalized_kwarg',
             'parse.funs.get_funtree', 'parse.argument_nodes.StandardArgTree.parse2',
             'parse.argument_nodes.PositionalGroupNode.parse2',
             'parse.argument_nodes.KeywordGroupNode.parse', 'format.__main__.process_file']
BOUNDS = ('up to eight words per command, any of them unknown or in unknown case; counts '
          '0..3 and the open forms; two levels of keywords')
ASSUMPTIONS = ['the keyword COMMAND (a shell command line) and names of flow control '
               'commands are outside',
               'a group of exactly n arguments takes the next n words whatever they are; comments before a keyword that '
               'is such a word are outside',
               'where the words beyond a keyword\'s count are put (a further group of the '
               'keyword or of the command) is left open']
BUDGET = {'quick': 60.0, 'thorough': 600.0}
ANY = [0, 1, 2, '?', '*', '+', '2', '2+']


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, decl, tpl, opts=None, override=None, same=None, **kw):
        d = task(name, tpl, opts or {}, **kw)
        d['params'].update(decl=decl, override=override, same=same)
        d['bounds'] += '; declaration %r' % (decl,)
        if override:
            d['bounds'] += '; override %r' % (override,)
        T.append(d)
    W = '‹%s:g›'

    def words(n, first='a'):
        return ' '.join('‹%s:%s›' % (chr(ord(first) + i), 'K') for i in range(n))
    N = ['$int', 'n', 0, 3]
    P = ['$pick', 'p', ANY]
    # counts of positional groups, in every notation
    add('scalar', {'foo': {'pargs': P, 'flags': ['F'], 'kwargs': {'K': '*'}}},
        'foo(' + words(3 if q else 5) + ')\n')
    add('number', {'foo': {'pargs': N, 'flags': ['F'], 'kwargs': {'K': ['$int', 'm', 0, 3]}}},
        'foo(' + words(4) + ')\n')
    add('dict', {'foo': {'pargs': {'nargs': P, 'flags': ['F']}, 'kwargs': {'K': N}}},
        'foo(' + words(3) + ')\n')
    add('list', {'foo': {'pargs': [P, {'nargs': '*', 'flags': ['F']}], 'kwargs': {'K': '1'}}},
        'foo(' + words(3) + ')\n')
    add('list2', {'foo': {'pargs': [N, {'nargs': ['$pick', 'r', ANY]}, '+'],
                          'kwargs': {'K': {'pargs': 1}}}},
        'foo(' + words(3) + ')\n')
    add('list3', {'foo': {'pargs': ['*', '*', {'nargs': '*', 'flags': ['F', 'g']}]}}, 'foo(' + words(3) + ')\n')
    add('list4', {'foo': {'pargs': [{'nargs': P, 'flags': ['A']}, {'nargs': '*', 'flags': ['F']},
                                    {'nargs': '+', 'flags': ['H', 'F']}, '*'],
                          'kwargs': {'K': {'pargs': ['*', {'flags': ['H']}, {'nargs': 1, 'flags': ['A']}]}}}},
        'foo(' + words(4) + ')\n')
    add('nargsless', {'foo': {'pargs': {'flags': ['F', 'G']}, 'kwargs': {'K': {}}}},
        'foo(' + words(3) + ' f)\n')
    add('none', {'foo': {}}, 'foo(' + words(2) + ' K F)\n')
    add('flags', {'foo': {'pargs': 2, 'flags': ['F', 'g'], 'kwargs': {'K': '*', 'H': '+'}}},
        'foo(a ' + words(3) + ' K x ' + W % 'z' + ' y)\n')
    # keywords
    for c in ANY + [3]:
        add('count-%s' % c, {'foo': {'kwargs': {'K': c, 'h': '*'}, 'flags': ['F']}},
            'foo(K ' + words(4 if q else 5) + ')\n')
    add('keywords', {'foo': {'pargs': 1, 'kwargs': {'K': '*', 'H': '2', 'J': '?'}}},
        'foo(' + words(5) + ')\n')
    add('nested', {'foo': {'pargs': '*', 'flags': ['F'], 'kwargs': {
        'K': {'pargs': N, 'flags': ['G'], 'kwargs': {'X': ['$int', 'm', 0, 2], 'Y': '*'}},
        'H': '*'}}}, 'foo(K ‹a:X› ‹b:X› ‹c:X›' + ('' if q else ' ‹d:X›') + ')\n')
    add('nested2', {'foo': {'kwargs': {
        'K': {'pargs': '+', 'kwargs': {'K': 1, 'H': '*'}}, 'H': {'pargs': 2, 'kwargs': {'K': '*'}}}}},
        'foo(' + words(5 if q else 6) + ')\n')
    add('nested3', {'foo': {'kwargs': {
        'K': {'kwargs': {'X': {'kwargs': {'Y': '?', 'G': 0}, 'flags': ['F']}}}, 'H': 1}}},
        'foo(K X ‹a:X› ‹b:X› ‹c:X›)\n')
    # spelling of commands and keywords
    for n, key in (('u', 'HEADERS'), ('l', 'headers'), ('m', 'Headers')):
        add('case-' + n, {'foo': {'kwargs': {key: 1}, 'flags': ['FL1', 'fl2']}},
            'foo(a ‹k1~HEADERS› x ‹k2~FL1› y ‹k3~FL2›)\n',
            {'format.keyword_case': ['upper', 'lower', 'unchanged']})
    add('odd', {'foo': {'kwargs': {'A-B': 1, 'C.D': '*', '-x': 1, 'E_1': '*'},
                        'flags': ['-Flag', 'G/H']}},
        'foo(a ‹p1:A-B|a-b|C.d|-X|-x|-flag|g/H|e_1|E_2|A|"A-B"|${A-B}|A-B-|x› b c ‹p2:A-b|c.D|-x|-Flag|'
        'E_1|G/h|b›)\n')
    add('quoted', {'foo': {'kwargs': {'K': 1, 'KK': '*'}, 'flags': ['F']}},
        'foo(a ‹p1:K|"K"|[[K]]|${K}|K1|\\K|$K|k|KK|kK|K;K|K=1|"F"|f|f;› b c d)\n')
    add('upto', {'foo': {'kwargs': {'KEY': '+'}, 'flags': ['FLAG']}},
        'foo(‹a:n3› ‹b:n› KE‹c:n› x y)\n')
    for n in ('foo', 'FOO', 'fOo'):
        add('name-' + n, {n: {'pargs': 1, 'kwargs': {'K': '*'}}},
            '‹k1~FOO›(a ' + W % 'b' + ' c)\nfoo‹c:w›(a K c)\n')
    # replaces a built-in command
    for i, n in enumerate(('set', 'add_library', 'set_property', 'install', 'message', 'find_package',
              'list', 'file', 'add_custom_command', 'break', 'set_target_properties',
              'externalproject_add', 'target_link_libraries', 'gtest_add_tests')):
        add('own-' + n, {n.upper() if i % 2 else n: {
            'pargs': 1, 'flags': ['F'], 'kwargs': {'K': 1, 'H': '*'}}},
            n + '(PUBLIC ‹b:g› TARGETS ‹c:g›)\n')
    # layout and comments play no role
    add('layout', {'foo': {'pargs': '*', 'flags': ['F'], 'kwargs': {'K': '?', 'H': '*'}}},
        'foo(‹a:b2›a # x\n‹b:g›‹c:b2›c ‹d:g› #[[y]]\n# z\n‹e:g› ‹f:b2›)\n')
    add('comments', {'foo': {'pargs': ['?', {'flags': ['F']}], 'kwargs': {'K': '+', 'H': '*'}}},
        'foo(\n # ‹Z›\n ‹a:g› # K\n\n # H\n ‹b:g› # F\n ‹c:g›#\n)\n')
    # no other command
    add('other', {'foo': {'kwargs': {'K': 1, 'PUBLIC': 0, 'A': 2}, 'flags': ['F', 'STATIC']},
                  'bar': {'pargs': 3, 'kwargs': {'H': 1}}},
        '‹p1:add_library|qux|set|set_target_properties|target_link_libraries|foo_|'
        'add_executable›(‹b:g› ‹c:g› PUBLIC a STATIC K F)\n', same='plain')
    add('other2', {'foo': {'kwargs': {'K': 1, 'PUBLIC': 0, 'A': 2}, 'flags': ['F', 'STATIC']},
                  'bar': {'pargs': 3, 'kwargs': {'H': 1}}},
        'bar(‹b:g› ‹c:g› K PUBLIC a STATIC K F)\n')
    # overrides: the same as declaring it so
    BASE = {'foo': {'pargs': [1, {'nargs': '*', 'flags': ['F']}], 'kwargs': {
        'K': 1, 'H': {'pargs': [1, '*'], 'kwargs': {'X': '*', 'K': 2}}}},
        'bar': {'pargs': [1, '*'], 'kwargs': {'K': 1}}}

    def over(name, path, value, where, val=None, tpl=None):
        """where: [keys..., field] in BASE written out in full"""
        d = full(BASE)
        x = d
        for k in where[:-1]:
            x = x[k]
        x[where[-1]] = value if val is None else val
        add('over-' + name, BASE, tpl or 'foo(‹a:X› ‹b:X› ‹c:X› ‹d:X›)\n', override={path: value},
            same=d)
    over('nargs', 'foo/parg[0].nargs', 2, ['foo', 'pargs', 0, 'nargs'])
    over('nargs1', 'Foo/parg1.nargs', '?', ['foo', 'pargs', 1, 'nargs'])
    over('open', 'foo/parg[1].nargs', 1, ['foo', 'pargs', 1, 'nargs'])
    over('flags', 'foo/parg[1].flags', ['g'], ['foo', 'pargs', 1, 'flags'])
    over('kw', 'foo/k/parg[0].nargs', '+', ['foo', 'kwargs', 'K', 'pargs', 0, 'nargs'])
    over('kw2', 'foo/H/parg[1].nargs', 1, ['foo', 'kwargs', 'H', 'pargs', 1, 'nargs'])
    over('deep', 'FOO/h/x/parg[0].nargs', 1, ['foo', 'kwargs', 'H', 'kwargs', 'X', 'pargs', 0, 'nargs'])
    over('deep2', 'foo/H/K/parg[0].nargs', 1, ['foo', 'kwargs', 'H', 'kwargs', 'K', 'pargs', 0, 'nargs'])
    over('pargs', 'foo.pargs', [2, '*'], ['foo', 'pargs'])
    over('kwargs', 'foo/H.kwargs', {'y': 1}, ['foo', 'kwargs', 'H', 'kwargs'])
    over('sort', 'foo/parg[1].sortable', True, ['foo', 'pargs', 1, 'sortable'])
    over('tags', 'foo/H/parg[0].tags', ['cmdline'], ['foo', 'kwargs', 'H', 'pargs', 0, 'tags'])
    over('wrap', 'foo/parg[1].always_wrap', True, ['foo', 'pargs', 1, 'always_wrap'])
    over('wrap2', 'foo/H.max_subgroups_hwrap', 1, ['foo', 'kwargs', 'H', 'max_subgroups_hwrap'])
    over('wrap3', 'foo.always_wrap', True, ['foo', 'always_wrap'])
    over('hwrap', 'bar/parg[1].max_pargs_hwrap', 1, ['bar', 'pargs', 1, 'max_pargs_hwrap'],
         tpl='bar(‹a:X› ‹b:X› ‹c:X› ‹d:X›)\n')
    if not q:
        add('long', {'foo': {'pargs': N, 'flags': ['F'], 'kwargs': {'K': ['$int', 'm', 0, 3], 'H': '*'}}},
            'foo(' + words(6) + ')\n')
        add('long2', {'foo': {'pargs': [1, P, {'nargs': '*', 'flags': ['F']}],
                              'kwargs': {'K': {'pargs': [1, ['$pick', 'r', ANY]]}, 'H': N}}},
            'foo(' + words(5) + ')\n')
    return T


def full(decl):
    """the declaration with every shorthand written out"""
    def pargs(p, flags=None):
        if p is None:
            p = '*'
        if isinstance(p, dict):
            p = [p]
        if not isinstance(p, list):
            raise ValueError('scalar')
        out = []
        for x in p:
            out.append(dict(x) if isinstance(x, dict) else {'nargs': x})
            out[-1].setdefault('nargs', '*')
        return out

    def spec(s):
        if not isinstance(s, dict):
            s = {'pargs': s}
        s = dict(s)
        if isinstance(s.get('pargs', '*'), (str, int)):
            # a scalar declares a group that repeats when its count is open
            n = s.get('pargs', '*')
            s['pargs'] = [{'nargs': n, 'flags': s.pop('flags', []), 'legacy': True}]
        else:
            s['pargs'] = pargs(s['pargs'])
        s['kwargs'] = {k: spec(v) for k, v in s.get('kwargs', {}).items()}
        return s
    return {k: spec(v) for k, v in decl.items()}


def fill(S, decl):
    cache = {}

    def leaf(x):
        if isinstance(x, dict):
            return {leaf(k): leaf(v) for k, v in x.items()}
        if isinstance(x, list) and not (x and x[0] in ('$int', '$pick')):
            return [leaf(v) for v in x]
        if isinstance(x, list):
            if x[1] not in cache:
                cache[x[1]] = S.int(x[1], x[2], x[3]) if x[0] == '$int' else S.pick(x[1], x[2])
            return cache[x[1]]
        return x
    return leaf(decl)


def inputs(S, p):
    return {'decl': fill(S, p['decl']), 'src': lib.build(S, p['parts']),
            'opts': corpus.make_opts(S, p['opts'])}


class Spec(object):
    """a declaration, read as the documentation describes it"""

    def __init__(self, d):
        if not isinstance(d, dict):
            d = {'pargs': d}
        self.kw = {k.upper(): Spec(v) for k, v in d.get('kwargs', {}).items()}
        pargs = d.get('pargs', '*')
        top = [f.upper() for f in d.get('flags', [])]
        self.rest = None
        if isinstance(pargs, dict):
            pargs = [pargs]
        if isinstance(pargs, list):
            self.groups = []
            for g in pargs:
                if not isinstance(g, dict):
                    g = {'nargs': g}
                self.groups.append((count(g.get('nargs', '*')),
                                    [f.upper() for f in g.get('flags', [])]))
        else:
            self.groups = [(count(pargs), top)]
        self.flags = [f for _, fl in self.groups for f in fl]
        self.repeat = not isinstance(pargs, list) and isinstance(self.groups[0][0], str)
        # an exact count of zero declares no group
        self.groups = [g for g in self.groups if isinstance(g[0], str) or g[0] != 0]


def count(n):
    """int: exact; '?': at most one; '*': any"""
    if isinstance(n, str):
        if n == '?':
            return n
        if n.isdigit():
            return int(n)
        return '*'
    return n


def word(w):
    """the word as it would have to be declared, None when it cannot be"""
    for c in '"[$(\\;=':
        if c in w:
            return None
    return w.upper()


def member(w, names):
    if w is None:
        return False
    for n in names:
        if w == n:
            return True
    return False


def assign(words, spec, out, i=0, stops=(), path=(), nested=False):
    """words[i:] -> out: (keyword path, group number or 'K' or None, is a flag)"""
    stops = list(stops)
    own = list(spec.kw)
    groups = list(spec.groups)
    if spec.repeat:
        rest = groups.pop()
        more = 0
    else:
        rest = ('*', spec.flags)
        more = None
    ordinal = 0
    while i < len(words):
        w = word(words[i])
        if member(w, stops):
            g = groups[0] if groups else rest
            if isinstance(g[0], str):
                break
        if member(w, own):
            w = rt.conc(w)
            out.append((path, 'K', False))
            i = assign(words, spec.kw[w], out, i + 1, stops + own + spec.flags,
                       path + (i,), True)
            continue
        declared = bool(groups) or more is not None
        n, flags = groups.pop(0) if groups else rest
        ends = stops + own + [f for g in groups for f in g[1] if f not in flags]
        taken = 0
        while i < len(words):
            if isinstance(n, str):
                if n == '?' and taken:
                    break
                if member(word(words[i]), ends):
                    break
            elif taken >= n:
                break
            out.append((path, ordinal if declared else None,
                        member(word(words[i]), flags)))
            taken += 1
            i += 1
        if taken:
            ordinal += 1
    return i


def actual(stmt):
    """words of the statement with their place in the syntax tree"""
    out = []

    def visit(node, path, group):
        n = 0
        for c in getattr(node, 'children', []):
            t = getattr(c, 'node_type', None)
            if t is None:
                continue
            if t is NodeType.KWARGGROUP:
                i = len(out)
                visit(c, path + (i,), None)
            elif t is NodeType.KEYWORD:
                out.append((c.get_tokens()[0].spelling, path[:-1], 'K', False))
            elif t is NodeType.PARGGROUP:
                groups[path] = groups.get(path, -1) + 1
                visit(c, path, groups[path])
            elif t in (NodeType.ARGUMENT, NodeType.FLAG):
                out.append((c.get_semantic_tokens()[0].spelling, path, group,
                            t is NodeType.FLAG))
            elif t in (NodeType.COMMENT, NodeType.ONOFFSWITCH, NodeType.FUNNAME):
                pass
            else:
                visit(c, path, group)
    groups = {}
    visit(stmt, (), None)
    return out


def statement(node):
    for c in getattr(node, 'children', []):
        if getattr(c, 'node_type', None) is NodeType.STATEMENT:
            return c
        s = statement(c)
        if s is not None:
            return s
    return None


_DB = {}


def tree(cfg, src):
    if not _DB:
        _DB.update(parse.funs.get_parse_db())
    db = dict(_DB)
    db.update(parse.funs.get_funtree(cfg.parse.fn_spec))
    return parse.parse(lex.tokenize(src), parse.ParseContext(db, config=cfg))


def warm():
    cfg = configuration.Configuration(additional_commands={'foo': {'pargs': 1}})
    tree(cfg, 'foo()\nadd_library(x)\nset(x)\n')


def flat(items):
    return [(a, b, c) for _, a, b, c in items]


def run(p, inp):
    src = inp['src']
    items = ref.read(src)
    if items is None:
        raise rt.Skip()
    decl = inp['decl']
    extra = {}
    if p['override']:
        extra['override_spec'] = p['override']
    cfg = configuration.Configuration(additional_commands=decl, **extra)
    for sec, d in inp['opts'].items():
        for k, v in d.items():
            setattr(getattr(cfg, sec), k, v)
    got = actual(statement(tree(cfg, src)))
    if p['same'] is not None:
        alt = {} if p['same'] == 'plain' else p['same']
        cfg2 = configuration.Configuration(additional_commands=alt)
        want = actual(statement(tree(cfg2, src)))
        rt.check(flat(got) == flat(want), lambda: 'assigned %r, expected %r' % (got, want))
        r, r2 = lib.process(cfg, src), lib.process(cfg2, src)
        rt.check(r is not None and r2 is not None and r[0] == r2[0],
                 lambda: 'formatted %r, expected %r' % (r, r2))
        return [flat(got), r[0]]
    first = [x[1] for x in items[:_close(items)] if x[0] == 'arg']
    name = rt.conc(items[0][1]).lower()
    spec = [v for k, v in decl.items() if k.lower() == name]
    if not spec:
        raise rt.Skip()
    want = []
    n = assign(first, Spec(spec[0]), want)
    rt.check(len(got) == len(first), lambda: 'words %r in the tree %r' % (first, got))
    rt.check(rt.conj([g[0] == w for g, w in zip(got, first)]), 'words out of order')
    surplus = {w[0] for w in want if w[1] is None}
    top = {(w[0], w[1]) for w in want if w[1] is not None}
    for i, (g, w) in enumerate(zip(got, want)):
        def msg():
            return 'word %d of %r is in %r, expected %r' % (i, first, g[1:], w)
        if w[1] is None:
            # beyond the declared counts
            rt.check(g[2] != 'K' and (g[1], g[2]) not in top and
                     g[1] == w[0][:len(g[1])], msg)
            if not w[0]:
                rt.check(g[3] == w[2], msg)
        else:
            rt.check(g[1] == w[0] and g[2] == w[1] and bool(g[3]) == w[2], msg)
    case = inp['opts'].get('format', {}).get('keyword_case')
    if case is not None:
        r = lib.process(cfg, src)
        rt.check(r is not None, 'refused')
        out = [x[1] for x in ref.read(r[0]) if x[0] == 'arg']
        exp = []
        for t, w in zip(first, want):
            if w[1] == 'K' or w[2]:
                t = {'upper': t.upper, 'lower': t.lower, 'unchanged': lambda: t}[case]()
            exp.append(t)
        rt.check(len(out) == len(exp) and rt.conj([a == b for a, b in zip(out, exp)]),
                 lambda: 'formatted %r, expected %r' % (out, exp))
    return flat(got)


def _close(items):
    depth = 0
    for i, x in enumerate(items):
        if x[0] == '(':
            depth += 1
        if x[0] == ')':
            depth -= 1
            if depth == 0:
                return i
    return len(items)
