# -*- coding: utf-8 -*-
"""C25: the layout options mean what they say."""
from cmakelang import configuration
from harness import lib, ref, corpus
from harness.c22 import fill
from harness.corpus import task
from symex import rt

FUNCTIONS = ['format.__main__.process_file', 'format.formatter.StatementNode',
             'format.formatter.KwargGroupNode', 'format.formatter.PargGroupNode',
             'format.formatter.ArgGroupNode', 'format.formatter.LayoutNode.reflow',
             'format.formatter.need_paren_space', 'format.formatter.get_pathstr',
             'format.formatter.BodyNode', 'format.formatter.FlowControlNode']
BOUNDS = ''
ASSUMPTIONS = ['only layouts reported as valid; a rejected layout is the last attempt',
               'how many lines a word-wrapped group may take is documented as max_lines_hwrap and '
               'implemented as one more, which is accepted; so is max_prefix_chars counted with or '
               'without the tab width',
               'always_wrap entries are lower-case paths as documented in the change log']
BUDGET = {'quick': 150.0, 'thorough': 840.0}
CTRL = ('if', 'elseif', 'else', 'endif', 'while', 'endwhile', 'foreach', 'endforeach',
        'function', 'endfunction', 'macro', 'endmacro')
OPEN = ('if', 'while', 'foreach', 'function', 'macro')
MID = ('elseif', 'else')
W = ('i', 12, 50)
DECL = {'bar': {'pargs': '*', 'flags': ['FL'], 'kwargs': {
    'HEADERS': '*', 'SRC': '*', 'OF': {'pargs': '*', 'kwargs': {'IN': '*'}},
    'COMMAND': {'pargs': [{'nargs': '*', 'tags': ['cmdline']}]}}}}
COMMON = {'format.line_width': W, 'format.dangle_parens': 'b',
          'format.dangle_align': ['prefix', 'prefix-indent', 'child', 'off'],
          'format.tab_size': ('i', 1, 8)}


def o(**kw):
    return {'format.' + k: v for k, v in kw.items()}


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, tpl, opts=None, decl=None, **kw):
        d = task('L.' + name, tpl, opts or {}, **kw)
        d['params']['decl'] = decl or DECL
        d['params']['vartags'] = kw.get('vartags', [])
        T.append(d)
    A4 = ' '.join('‹%s›' % c for c in 'ZJQK')
    H = 20 if q else 40
    # the blank before the parenthesis
    SP = o(separate_ctrl_name_with_space='b', separate_fn_name_with_space='b')
    add('space', '‹k1~IF›(a)\nfoo(b)\n‹k2~ELSEIF›(c)\nbar()\n‹k3~ELSE›()\n‹p1:foo|set|message|include|iff|'
        'endiff|else_|return|project|add_library›(b)\n‹k4~ENDIF›()\n', SP)
    add('space2', '‹p1:while|foreach|function|macro|‹›'.replace('|‹›', '›') +
        '(a)\n‹p2:foo|Foo|SET|break|ExternalProject_Add|cmake_minimum_required›(VERSION 3)\n'
        'end‹p1:while|foreach|function|macro›( )\n', SP)
    add('spacew', 'if(a)\n‹p1:foo|bar›(' + A4 + ')\nendif()\n',
        dict(SP, **o(line_width=W, dangle_parens='b', dangle_align=['prefix', 'child'])), hi=14)
    # the closing parenthesis
    add('dangle', 'foo(' + A4 + ')\n', COMMON, hi=H)
    add('dangle2', 'if(a)\nfoo(‹Z› ‹J›)\nwhile(‹Q› ‹K›)\nbar(x)\nendwhile()\nendif()\n',
        dict(COMMON, **o(tab_size=[2, 4])), hi=H)
    add('dangle3', 'bar(‹Z› HEADERS ‹J› ‹K› SRC ‹Q›)\n', dict(COMMON, **o(tab_size=[2, 3])), hi=H)
    add('danglec', 'foo(‹Z› ‹J› # c\n)\nfoo(‹Q› # d\n b)\n', dict(COMMON, **o(tab_size=[2, 4])), hi=H)
    add('danglet', 'foo(‹Z› ‹J›) # c\nfoo(‹Q›) # d\n', dict(COMMON, **o(tab_size=2)), hi=H)
    # how many arguments are wrapped
    for n in (2, 3, 5, 7, 8):
        ws = ' '.join(['‹Z›', '‹J›'] + ['b%d' % i for i in range(n - 2)])
        add('pargs%d' % n, 'foo(' + ws + ')\n', o(
            line_width=W, max_pargs_hwrap=('i', 0, 9), max_lines_hwrap=('i', 0, 4),
            dangle_parens='b'), hi=14)
    add('pargs', 'if(a)\nfoo(‹p1:|a b|a b c d›‹p2:| a|# c\n› ‹Z›‹p3:| c c| c c c c›)\nendif()\n',
        o(line_width=('i', 10, 30), max_pargs_hwrap=('i', 0, 9)), hi=14)
    add('pargsc', 'foo(‹p1:|# c\n›a ‹p2:b|b # c\n|b # c\n# d\n|b #[[c]]› ‹Z› ‹p3:|# c c c\n|\n#< d\n›c ‹J›‹p4:| # e›\n)\n',
        o(line_width=('i', 10, 30), max_pargs_hwrap=('i', 0, 7), max_lines_hwrap=('i', 0, 3)), hi=12)
    add('groupsc', 'bar(a ‹p1:|# c\n|#[[c]] ›HEADERS ‹Z› ‹p2:|# c\n›b OF ‹J› # c\n IN d‹p3:| # e› SRC e\n)\n',
        o(line_width=('i', 14, 40), max_subgroups_hwrap=('i', 0, 5)), hi=12)
    add('cmdlinec', 'bar(a COMMAND ‹Z› ‹p1:|# c\n›b ‹J› # d\nb # e\n b)\n',
        o(line_width=W, max_rows_cmdline=('i', 0, 6), max_pargs_hwrap=('i', 1, 8)), hi=12)
    add('pargskw', 'bar(‹p1:a|a b|a b c› ‹Z› HEADERS ‹p2:|a|a b|a b c› ‹J›‹p3:| FL| SRC a b›)\n',
        o(line_width=('i', 14, 40), max_pargs_hwrap=('i', 1, 5)), hi=14)
    add('pargsdecl', 'bar(a ‹Z› b HEADERS c ‹J› d)\n',
        o(line_width=('i', 14, 40), max_pargs_hwrap=('i', 1, 5)), hi=14,
        decl={'bar': {'pargs': {'nargs': '*', 'max_pargs_hwrap': ['$int', 'n', 0, 4]}, 'kwargs': {
            'HEADERS': {'pargs': {'nargs': '*', 'max_pargs_hwrap': ['$int', 'm', 0, 4]}}}}})
    # how many groups are wrapped
    add('groups', 'bar(‹p1:|a› ‹p2:|HEADERS b|OF c IN d› ‹p3:SRC ‹›|HEADERS c|COMMAND a b› ‹Z› '
        '‹p4:|SRC e|FL HEADERS f›)\n'.replace(' ‹›', ''),
        o(line_width=('i', 14, 40), max_subgroups_hwrap=('i', 0, 5)), hi=14)
    add('groupsdecl', 'bar(a HEADERS ‹Z› OF c ‹J› IN d)\n',
        o(line_width=('i', 14, 40), max_subgroups_hwrap=('i', 0, 4)), hi=14,
        decl={'bar': {'pargs': '*', 'max_subgroups_hwrap': ['$int', 'n', 0, 4], 'kwargs': {
            'HEADERS': '*', 'OF': {'pargs': '*', 'max_subgroups_hwrap': ['$int', 'm', 0, 3],
                                   'kwargs': {'IN': '*'}}}}})
    add('groupsin', 'if(a)\nelse()\nbar(‹Z› OF c ‹J› IN d SRC ‹p1:|e›)\nendif()\n',
        o(line_width=('i', 14, 40), max_subgroups_hwrap=('i', 0, 4)), hi=14)
    # word wrapping
    add('lines', 'foo(' + A4 + ' a ‹Y›)\n', o(line_width=W, max_lines_hwrap=('i', 0, 5)), hi=H)
    add('lines2', 'bar(‹Z› ‹J› ‹K› HEADERS ‹Q› ‹Y› ‹V›)\n',
        o(line_width=W, max_lines_hwrap=('i', 0, 5)), hi=12 if q else 24)
    add('cmdline', 'bar(a COMMAND ‹Z› ‹J› ‹K› b b b ‹Q› b)\n',
        o(line_width=W, max_rows_cmdline=('i', 0, 5), max_pargs_hwrap=('i', 1, 8)), hi=14)
    add('cmdline2', 'add_custom_target(a COMMAND ‹Z› ‹J› ‹K› b b b ‹Q› b)\n',
        o(line_width=('i', 24, 60), max_rows_cmdline=('i', 0, 5), max_pargs_hwrap=('i', 1, 8)), hi=14)
    # variables tagged as command lines
    for n, vt in (('', None), ('2', [['.*_FLAGS', ['cmdline']], ['x[0-9]+', ['other', 'cmdline']],
                                     ['Y.*', ['other']]])):
        add('vartags' + n, 'set(‹p1:A_COMMAND|_COMMAND|COMMAND|A_CMD|B_FLAGS|x1|x|Y1› '
            '‹Z› ‹J› ‹p2:|b|b b b› ‹K› b‹p3:| PARENT_SCOPE›)\n',
            o(line_width=W, max_rows_cmdline=('i', 0, 5), max_pargs_hwrap=('i', 1, 8)), hi=14,
            **({'vartags': vt} if vt else {}))
    # nesting
    PRE = '‹p1:f|fo|foo|fooba|foobar_foobar|foobar_foobar_foobar_foobar›'
    add('prefix', PRE + '(‹Z› ‹J› ‹K›)\n', o(
        line_width=W, min_prefix_chars=('i', 0, 24), max_prefix_chars=('i', 0, 30),
        separate_fn_name_with_space='b'), hi=H)
    add('prefixin', 'while(a)\n' + PRE + '(‹Z› ‹J› ‹K›)\nendwhile()\n', o(
        line_width=W, min_prefix_chars=('i', 0, 12), max_prefix_chars=('i', 0, 20),
        tab_size=('i', 1, 6)), hi=H)
    add('prefixkw', 'bar(‹p1:OF|SRC|HEADERS› ‹Z› ‹J› ‹K›)\n', o(
        line_width=W, min_prefix_chars=('i', 0, 10), max_prefix_chars=('i', 0, 12),
        tab_size=('i', 1, 6)), hi=H)
    add('prefixctrl', '‹p1:if|while›(‹Z› ‹p2:AND|OR|STREQUAL› ‹J›)\nfoo()\nend‹p1:if|while›()\n', o(
        line_width=W, min_prefix_chars=('i', 0, 10), separate_ctrl_name_with_space='b'), hi=H)
    # forced wrapping
    AW = [[[]], [['bar']], [['bar/HEADERS/PargGroupNode[0]']], [['bar/PargGroupNode[0]', 'foo']],
          [['bar/OF']], [['bar/OF/IN/PargGroupNode[0]', 'bar/SRC']], [['Bar', 'HEADERS', 'bar/']],
          [['foo/PargGroupNode[0]']]]
    for n, pre, post in (('', '', ''), ('if', 'if(a)\n', 'endif()\n'),
                         ('else', 'if(a)\nelse()\n', 'endif()\n'),
                         ('deep', 'function(f)\nforeach(x a)\nif(b)\nelseif(c)\n',
                          'endif()\nendforeach()\nendfunction()\n')):
        add('wrap' + n, pre + '‹p1:bar|foo›(a b ‹p2:|HEADERS c|headers c d|OF c SRC d|Of c d In e f›'
            '‹p3:| SRC e›‹p4:| FL›)\n' + post, o(always_wrap=[x[0] for x in AW]))
    add('wrapw', 'bar(‹Z› b HEADERS ‹J› d)\n', o(always_wrap=[x[0] for x in AW], line_width=W), hi=14)
    # the passes
    PS = [{}, {'StatementNode': [[0, True]]}, {'PargGroupNode': [[0, True]]},
          {'ArgGroupNode': [[0, True]]}, {'KwargGroupNode': [[0, True]]},
          {'StatementNode': [[0, False]], 'PargGroupNode': [[0, False], [1, True]]},
          {'StatementNode': [[0, True]], 'PargGroupNode': [[0, True]]},
          {'StatementNode': [[0, False], [5, False]]}]
    add('passes', '‹p1:bar|foo›(‹Z› b ‹p2:|HEADERS c|SRC c d› ‹J›)\n', o(
        layout_passes=PS, line_width=W), hi=14)
    # shape of the rest
    add('indent', 'if(a)\nfoo()\nforeach(x ‹Z›)\n# c\nfoo(‹J›)\nelse()\n'.replace('else()\n', '') +
        'endforeach()\nelseif(b)\n# d\n\n\n\nfoo()\nelse()\nfunction(g)\nmacro(h)\n\nfoo()\nendmacro()\n'
        'endfunction()\nendif()\nfoo()\n', o(tab_size=('i', 0, 9), line_width=('i', 40, 90)), hi=12)
    add('blank', 'foo()‹p1:\n|\n\n|\n \n\t\n|\n\n\n\n›if(a)‹p2:\n|\n\n|\n\n\n›# c‹p3:\n|\n\n|\n\n\n›foo(b‹p4: |\n|\n\n›c)'
        '‹p5:\n|\n\n\n›endif()‹p6:|\n|\n\n\n›')
    add('blank2', '‹p1:|\n|\n\n›# c‹p2:\n|\n\n\n›# d‹p3:\n|\n\n›foo()‹p4:\n|\n\n\n›#[[e]]‹p5:\n|\n\n›foo()')
    if not q:
        add('all', 'if(a)\nbar(‹Z› ‹J› HEADERS ‹Q› ‹K›‹p1:| b b| SRC a›)\nendif()\n', dict(
            COMMON, **o(max_pargs_hwrap=('i', 1, 4), max_subgroups_hwrap=('i', 0, 3),
                        max_lines_hwrap=('i', 0, 3), min_prefix_chars=('i', 0, 6),
                        max_prefix_chars=('i', 0, 12), tab_size=[2, 4])), hi=24)
        add('long', 'foo(' + ' '.join('‹%s›' % c for c in 'ZJQKYVX') + ')\n', dict(
            COMMON, **o(max_pargs_hwrap=('i', 5, 8), max_lines_hwrap=('i', 0, 5))), hi=24)
        add('two', 'bar(‹Z› HEADERS ‹J› ‹K› OF ‹Q› IN ‹Y› a SRC b)\n', dict(
            COMMON, **o(max_subgroups_hwrap=('i', 0, 4), max_lines_hwrap=('i', 0, 4))), hi=24)
    return T


def inputs(S, p):
    return {'decl': fill(S, p['decl']), 'src': lib.build(S, p['parts']),
            'opts': corpus.make_opts(S, p['opts'])}


def show(p, inp):
    return [inp['src'], inp['opts'], inp['decl']]


class Tok(object):
    def __init__(self, kind, text, row, col):
        self.kind, self.text, self.row, self.col = kind, text, row, col
        self.end = col + len(text)


class Stmt(object):
    def __init__(self, name):
        self.name = name
        self.lp = self.rp = None
        self.toks = []      # between the parentheses
        self.tail = []      # comments behind
        self.depth = 0


def scan(out):
    """-> (statements, lines)"""
    lines = out.split('\n')
    stmts = []
    cur = None
    depth = 0
    level = 0
    for row, line in enumerate(lines):
        col = 0
        for k, t in ref.lex(line):
            if k == 'bad':
                return None, lines
            if k != 'ws':
                tok = Tok(k, t, row, col)
                if depth == 0:
                    if k == 'un':
                        cur = Stmt(tok)
                        stmts.append(cur)
                        low = rt.conc(t.lower())
                        cur.low = low
                        if low in MID or low[:3] == 'end' and low[3:] in OPEN:
                            level -= 1
                        cur.depth = level
                        if low in MID or low in OPEN:
                            level += 1
                    elif k == 'lp':
                        cur.lp = tok
                        depth = 1
                    elif cur is not None and cur.rp is not None and cur.rp.row == row:
                        cur.tail.append(tok)
                else:
                    if k == 'lp':
                        depth += 1
                    if k == 'rp':
                        depth -= 1
                    if depth == 0:
                        cur.rp = tok
                    else:
                        cur.toks.append(tok)
            col = col + len(t)
    return stmts, lines


class Group(object):
    """a keyword (or none) and what follows it"""

    def __init__(self, kw, spec, path):
        self.kw, self.spec, self.path = kw, spec, path
        self.subs = []      # Group without keyword / with keyword
        self.args = []      # of a positional group


def pargs_spec(spec):
    p = spec.get('pargs', '*') if isinstance(spec, dict) else spec
    if isinstance(p, list):
        p = p[0]
    return p if isinstance(p, dict) else {'nargs': p}


def kwargs_of(spec):
    return spec.get('kwargs', {}) if isinstance(spec, dict) else {}


def flags_of(spec):
    return spec.get('flags', []) if isinstance(spec, dict) else []


def grouped(toks, spec, path):
    """tree of groups; every declared count is open"""
    top = Group(None, spec, path)
    stack = [top]
    pos = None
    for t in toks:
        up = None
        for s in range(len(stack) - 1, -1, -1):
            for k in kwargs_of(stack[s].spec):
                if t.text.upper() == k:
                    up = (s, k)
                    break
            if up:
                break
        if up:
            del stack[up[0] + 1:]
            g = Group(t, kwargs_of(stack[-1].spec)[up[1]], stack[-1].path + '/' + up[1])
            stack[-1].subs.append(g)
            stack.append(g)
            pos = None
            continue
        for d in range(len(stack) - 1):
            # a flag of the command ends the arguments of a keyword
            if t.text.upper() in flags_of(stack[d].spec):
                del stack[d + 1:]
                pos = None
                break
        if pos is None:
            n = len([x for x in stack[-1].subs if x.kw is None])
            pos = Group(None, pargs_spec(stack[-1].spec), stack[-1].path + '/PargGroupNode[%d]' % n)
            stack[-1].subs.append(pos)
        pos.args.append(t)
    return top


def tagged(var, vartags):
    """whether the values of a variable are a command line"""
    low = rt.conc(var)
    if low[-8:] == '_COMMAND':
        return True
    for pattern, tags in vartags:
        if 'cmdline' in tags:
            if pattern[:2] == '.*' and low[-len(pattern) + 2:] == pattern[2:]:
                return True
            if pattern == 'x[0-9]+' and low == 'x1':
                return True
    return False


def settree(toks, vartags):
    """set(<variable> <value>... [PARENT_SCOPE])"""
    top = Group(None, {}, 'set')
    parts = [[toks[0]], toks[1:], []]
    if toks[-1].text == 'PARENT_SCOPE':
        parts = [parts[0], toks[1:-1], [toks[-1]]]
    for i in range(3):
        if parts[i]:
            g = Group(None, {}, 'set/PargGroupNode[%d]' % i)
            if i == 1 and tagged(toks[0].text, vartags):
                g.spec = {'tags': ['cmdline']}
            g.args = parts[i]
            top.subs.append(g)
    return top


def first(g):
    if g.kw is not None:
        return g.kw
    if g.args:
        return g.args[0]
    return first(g.subs[0])


def leaves(g):
    out = [g.kw] if g.kw is not None else []
    out.extend(g.args)
    for s in g.subs:
        out.extend(leaves(s))
    return out


def run(p, inp):
    src = inp['src']
    decl = inp['decl']
    if ref.read(src) is None:
        raise rt.Skip()
    opts = inp['opts']
    if p['vartags']:
        cfg = lib.config('c25' + p['vartags'][0][0], lambda: configuration.Configuration(
            vartags=[tuple(x) for x in p['vartags']]), **opts)
    elif decl == DECL:
        cfg = lib.config('c25', lambda: configuration.Configuration(
            additional_commands=dict(DECL, foo=configuration.ADDITIONAL_COMMANDS_DEMO['foo'])), **opts)
    else:
        cfg = configuration.Configuration(additional_commands=decl)
        for sec, d in opts.items():
            for k, v in d.items():
                setattr(getattr(cfg, sec), k, v)
    f = cfg.format
    try:
        from cmakelang.format import __main__ as fmt_main
        r = fmt_main.process_file(cfg, src)
    except Exception as ex:     # pylint: disable=broad-except
        if isinstance(ex, (rt.Skip, rt.Bad)):
            raise
        rt.check(False, lambda: 'formatting fails: %s %s' % (type(ex).__name__, ex))
        return None
    out, valid = r
    if not valid:
        return [out, False]
    w = f.line_width
    tab = f.tab_size

    def fail(s, what):
        return lambda: '%s: line %d of %r (options %r)' % (what, s.name.row + 1, out, opts)
    stmts, lines = scan(out)
    rt.check(stmts is not None, lambda: 'output cannot be read: %r' % out)
    for s in stmts:
        name = s.low
        rt.check(s.name.col == s.depth * tab, fail(s, 'statement not at its indentation'))
        sep = f.separate_ctrl_name_with_space if name in CTRL else f.separate_fn_name_with_space
        sep = 1 if sep else 0
        rt.check(rt.conj([s.lp.row == s.name.row, s.lp.col == s.name.end + sep]),
                 fail(s, 'blank before the parenthesis'))
        pre = len(s.name.text) + sep + 1
        start = s.name.col
        toks = s.toks
        if not toks:
            rt.check(rt.conj([s.rp.row == s.name.row, s.rp.col == s.lp.end]),
                     fail(s, 'empty statement not closed at once'))
            continue
        kinds = [t.kind for t in toks]
        comments = 'lc' in kinds or 'bc' in kinds
        parens = 'lp' in kinds
        nested = toks[0].row > s.name.row
        if nested:
            rt.check(rt.conj([toks[0].row == s.name.row + 1, toks[0].col == start + tab]),
                     fail(s, 'nested arguments not one level in'))
            rt.check(pre > f.min_prefix_chars, fail(s, 'nested below a short name'))
        else:
            rt.check(toks[0].col == s.lp.end, fail(s, 'blank behind the parenthesis'))
        argcol = toks[0].col
        last = toks[-1]
        # closing parenthesis
        if not s.tail:
            if last.row > s.name.row and f.dangle_parens or last.kind == 'lc':
                where = {'prefix': start, 'prefix-indent': start + tab, 'child': argcol}
                rt.check(s.rp.row == last.row + 1, fail(s, 'parenthesis not on its own line'))
                if f.dangle_align in where:
                    rt.check(s.rp.col == where[f.dangle_align],
                             fail(s, 'dangling parenthesis misaligned'))
            else:
                rt.check(rt.disj([rt.conj([s.rp.row == last.row, s.rp.col == last.end]),
                                  rt.conj([s.rp.row == last.row + 1, last.end >= w])]),
                         fail(s, 'parenthesis does not follow the last argument'))
        ends = s.tail[-1].row if s.tail else s.rp.row
        if not nested and s.rp.row - s.name.row > 1:
            rt.check(pre <= tab + f.max_prefix_chars, fail(s, 'not nested below a long name'))
        if parens:
            continue
        toks = [t for t in toks if t.kind not in ('lc', 'bc')]
        if not toks:
            continue
        spec = decl.get(name)
        if name == 'foo':
            spec = configuration.ADDITIONAL_COMMANDS_DEMO['foo']
        aw = f.always_wrap
        passes = f.layout_passes
        if name == 'set':
            tree = settree(toks, p['vartags'])
        elif spec is None:
            if name not in ('if', 'while', 'foreach', 'function', 'macro', 'elseif') \
                    and name[:3] != 'foo':
                continue
            if name in CTRL and [t for t in toks if t.text in ('AND', 'OR')]:
                continue
            spec = {}
        if name != 'set':
            tree = grouped(toks, spec or {}, name)
        cx = [s, f, w, fail, last, [] if comments else aw, passes, comments]
        needs = limits(cx, tree)
        # one line when it fits
        total = start + pre + sum([len(t.text) for t in toks]) + len(toks) - 1 + 1
        if not needs and not passes and not s.tail and not comments:
            # the statement's own text has to fit and nothing forces a wrap
            if total <= w:
                rt.check(s.rp.row == s.name.row, fail(s, 'wrapped without need'))
        if 'StatementNode' in passes and passes['StatementNode'][-1][1] is True:
            rt.check(nested or pre <= f.min_prefix_chars, fail(s, 'passes of StatementNode'))
        if 'StatementNode' in passes and not [x for x in passes['StatementNode'] if x[1]]:
            rt.check(not nested, fail(s, 'passes of StatementNode'))
    # blank lines
    n = 0
    for line in lines[:-1]:
        n = n + 1 if len(line) == 0 else 0
        rt.check(n < 2, lambda: 'two blank lines: %r' % out)
    return [out, True]


def limits(cx, g):
    """check the groups of g; True when something forces a wrap"""
    s, f, w, fail, last, aw, passes, comments = cx
    needs = False
    subs = g.subs
    limit = f.max_subgroups_hwrap
    if isinstance(g.spec, dict) and g.spec.get('max_subgroups_hwrap') is not None:
        limit = g.spec['max_subgroups_hwrap']
    forced = rt.disj([len(subs) > limit, g.path in aw]) if len(subs) else False
    if 'ArgGroupNode' in passes and passes['ArgGroupNode'][0][1] is True:
        forced = True
    if forced:
        needs = True
        row = -1
        for x in subs:
            rt.check(first(x).row > row, fail(s, 'groups share a line'))
            rt.check(first(x).col == first(subs[0]).col, fail(s, 'groups not aligned'))
            row = max([t.row for t in leaves(x)])
    for x in subs:
        if x.kw is not None:
            if x.subs:
                a = first(x)
                b = first(x.subs[0])
                nested = b.row > a.row
                if comments:
                    pass
                elif nested:
                    rt.check(rt.conj([b.row == a.row + 1, b.col == a.col + f.tab_size]),
                             fail(s, 'keyword arguments not one level in'))
                    rt.check(len(a.text) > f.min_prefix_chars,
                             fail(s, 'nested below a short keyword'))
                else:
                    rt.check(b.col == a.end + 1, fail(s, 'keyword arguments apart'))
                    rows = max([t.row for t in leaves(x)]) - a.row
                    if rows > 1:
                        rt.check(len(a.text) <= f.max_prefix_chars + f.tab_size,
                                 fail(s, 'not nested below a long keyword'))
                if 'KwargGroupNode' in passes and passes['KwargGroupNode'][-1][1] is True:
                    rt.check(nested or len(a.text) <= f.min_prefix_chars, fail(s, 'passes of KwargGroupNode'))
            if limits(cx, x):
                needs = True
            continue
        args = x.args
        n = len(args)
        limit = f.max_pargs_hwrap
        if x.spec.get('max_pargs_hwrap') is not None:
            limit = x.spec['max_pargs_hwrap']
        rows = [t.row for t in args]
        cmdline = 'cmdline' in x.spec.get('tags', [])
        if cmdline:
            rt.check(rows[-1] - rows[0] + 1 <= f.max_rows_cmdline,
                     fail(s, 'command line takes too many lines'))
        forced = n > limit or x.path in aw or \
            'PargGroupNode' in passes and passes['PargGroupNode'][0][1] is True
        if forced and not cmdline:
            needs = True
            for i in range(1, n):
                rt.check(rt.conj([rows[i] > rows[i - 1] if comments else rows[i] == rows[i - 1] + 1,
                                  args[i].col == args[0].col]),
                         fail(s, 'arguments share a line'))
        shared = [i for i in range(1, n) if rows[i] == rows[i - 1]]
        if shared or cmdline:
            if not cmdline:
                rt.check(rows[-1] - rows[0] <= f.max_lines_hwrap,
                         fail(s, 'word wrap takes too many lines'))
            for i in range(1, n):
                if rows[i] == rows[i - 1]:
                    gap = args[i].col - args[i - 1].end
                    rt.check(gap == 1 or comments and gap == len(' #[[c]] '),
                             fail(s, 'arguments apart'))
                    continue
                if comments:
                    rt.check(args[i].col == args[0].col, fail(s, 'arguments not aligned'))
                    continue
                rt.check(rt.conj([rows[i] == rows[i - 1] + 1, args[i].col == args[0].col]),
                         fail(s, 'arguments not aligned'))
                room = args[i - 1].end + 1 + len(args[i].text)
                if args[i] is last:
                    room = room + 1
                rt.check(room > w, fail(s, 'line broken without need'))
    return needs


def warm():
    cfg = configuration.Configuration(additional_commands=DECL)
    lib.process(cfg, 'if(a)\nbar(a HEADERS b)\nfoo(c)\nendif()\n')
