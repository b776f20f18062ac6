# -*- coding: utf-8 -*-
"""C26: formatted text passes the layout checks of the linter."""
from cmakelang.lint import __main__ as lint_main
from cmakelang.lint import lint_util
from harness import lib, ref, corpus, fmtbase, templates, c25
from harness.corpus import task
from harness.fmtbase import inputs, show
from symex import rt

FUNCTIONS = ['format.__main__.process_file', 'lint.__main__.process_file', 'format.formatter.*',
             'lint.basic_checker.LintChecker.check_basics',
             'lint.basic_checker.LintChecker.check_body', 'lint.basic_checker.LintChecker.check_token',
             'lint.basic_checker.shares_line_with_statement', 'lex.*', 'parse.*', 'markup.*']
BOUNDS = ''
ASSUMPTIONS = ['layouts reported as valid (an invalid one may be too wide)',
               'continuation lines of multi-line arguments and bracket comments, literal comments '
               'and switched-off regions are the author\'s: line-level findings are then not considered',
               'two statements never stand on one line of the input (malformed for CMake)']
BUDGET = {'quick': 150.0, 'thorough': 840.0}
CODES = ('C0301', 'C0303', 'C0304', 'C0305', 'C0306', 'C0307', 'C0321', 'C0327')
LINES = ('C0301', 'C0303', 'C0306')
TABS = {'format.use_tabchars': 'b', 'format.tab_size': ('i', 1, 8)}
ROUND = {'format.fractional_tab_policy': ['use-space', 'round-up']}
LE = {'format.line_ending': ['unix', 'windows', 'auto']}


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, tpl, opts=None, **kw):
        T.append(task('P.' + name, tpl, opts or {}, **kw))
    B = '‹p%d: |  |\t|\n|\n\n\n|\n   \n\t\n›'
    NL = '‹p%d:\n|\n\n|\n\n\n\n|\n  \n|\r\n\r\n\r\n› '
    D = {'format.line_width': ('i', 20, 60), 'format.dangle_parens': 'b',
         'format.dangle_align': ['prefix', 'prefix-indent', 'child', 'off'],
         'format.tab_size': ('i', 1, 8)}
    add('spacing', 'foo(a)' + NL % 1 + 'bar(b)' + NL % 2 + 'if(a)' + NL % 3 + 'foo()' + NL % 4 +
        'endif()\n', LE)
    add('spacing2', '‹p1:|\n|\n\n\n›# c' + NL % 2 + 'foo()' + NL % 3 + '# d' + NL % 4 + '#[[e]]' + NL % 5 +
        'bar()')
    add('spacing3', 'while(a)' + NL % 1 + '# c' + NL % 2 + 'bar()' + NL % 3 + '# d' + NL % 4 + 'endwhile()'
        + '‹p5:|\n|\n\n\n›', LE)
    add('ends', 'foo(a)‹p1:| |\n|\r\n|# c| # c|\n\n\n|\n# c|\n  ›', LE)
    add('indent', B % 1 + 'if(a)‹p2:\n|\n   |\n\t\t›foo(b' + B % 3 + 'c)‹p4:\n|\n        |\n\t›# d‹p5:\n|\n ›'
        'endif()\n', dict(TABS, **ROUND))
    add('nested', 'if(‹Z›)\nforeach(x ‹J›)\nfunction(f)\nbar(‹Q› HEADERS ‹K› b # c\n)\n# d\nendfunction()\n'
        'endforeach()\nelseif(b)\nelse()\nfoo()\nendif()\n', dict(TABS, **{'format.line_width': 44}), hi=14)
    add('wrap', 'if(a)\nfoo(‹Z› ‹J› b # ‹Y›\n c)\nendif()\n', dict(TABS, **{'format.line_width': ('i', 20, 60)}),
        hi=20)
    add('roundup', 'if(a)\nfoo(‹Z› ‹J› b\n# ‹Y› k\n c (‹K› d))\nendif()\n',
        dict(TABS, **dict(ROUND, **{'format.line_width': 30})), hi=20)
    T.append(task('K.roundup', 'while(a)\nfoo(‹Z› ‹J› # ‹Y› k\n)\nendwhile()\n', dict(
        templates.TAB, **{'format.fractional_tab_policy': 'round-up'}), hi=20))
    add('dangle', 'while(‹Q›)\nfoo(‹Z› ‹J›)\nendwhile()\n', D, hi=24)
    add('align', 'if(a)\nfoo(b ‹Z›) # e e\nbar(c # d\n)\nendif()\n', dict(TABS, **{
            'format.line_width': 12, 'format.dangle_parens': 'b', 'format.tab_size': [1, 2, 4],
            'format.dangle_align': ['prefix', 'prefix-indent', 'child', 'off']}), hi=8)
    add('danglek', 'if(a)\nif(b)\nfoo(‹Z› HEADERS ‹J› ‹Q›)\nendif()\nendif()\n', D, hi=20)
    add('danglep', 'if(a)\nfoo(‹Z› (‹J› b) ‹Q›)\nif((‹Z› AND ‹J›) OR ‹Q›)\nendif()\nendif()\n',
        {'format.line_width': ('i', 20, 50), 'format.dangle_parens': 'b'}, hi=20)
    add('deep', 'if(a)\nif(a)\nif(a)\nif(a)\nfoo(‹Z› ‹J›)\n# ‹Y› k\nendif()\nendif()\nendif()\nendif()\n',
        {'format.line_width': 40, 'format.tab_size': ('i', 1, 8)}, hi=24)
    add('comments', 'if(a)\n#‹a:c3›\nfoo()‹b:b›#‹c:c2›\n#\n# * ‹Y› k\nendif()\n',
        dict(TABS, **{'format.line_width': 30}), hi=20)
    add('empty', '‹p1:|\n|\n\n| |# c|#|# |\r\n|\t\n›', LE)
    add('text', 'foo(‹a:n2› # ‹b:c2›\n‹c:b2›d)\n‹d:b2›bar()\n', TABS)
    for t in templates.layout('quick') + ([] if q else templates.deep() + templates.chars('quick')):
        if t['name'].startswith('L.misal') or t['name'] == 'C.free':
            continue
        o = dict(t['params']['opts'])
        if 'format.tab_size' not in o:
            o['format.use_tabchars'] = 'b'
        T.append({'name': t['name'], 'weight': 0.3, 'params': dict(t['params'], opts=o),
                  'bounds': t['bounds']})
    if not q:
        for t in c25.tasks('quick'):
            if t['params']['decl'] is c25.DECL:
                T.append(dict(t, params=dict(t['params'], decl25=True)))
    return T


def run(p, inp):
    src = inp['src']
    toks = ref.lex(src)
    if ref.read(src) is None:
        raise rt.Skip()
    if p.get('decl25'):
        cfg = lib.config('c25', lambda: c25.configuration.Configuration(
            additional_commands=dict(c25.DECL, foo=c25.configuration.ADDITIONAL_COMMANDS_DEMO['foo'])),
            **inp['opts'])
    else:
        cfg = fmtbase.cfg(inp)
    multi = False
    for k, t in toks:
        if k in ('q', 'br', 'bc', 'un') and '\n' in t:
            multi = True
        if k == 'lc' and ('cmake-format: o' in t or 'cmf: o' in t):
            raise rt.Skip()
    r = lib.process(cfg, src)
    if r is None:
        raise rt.Skip()
    out, valid = r
    if '\r' in out.replace('\r\n', '\n') or '\ufeff' in out:
        raise rt.Skip()
    ctx = lint_util.GlobalContext(None).get_file_ctx('CMakeLists.txt', cfg)
    lint_main.process_file(cfg, ctx, out)
    found = []
    for x in ctx.get_lint():
        code = x.spec.idstr
        if code not in CODES:
            continue
        found.append(code)
        if code == 'C0301' and not valid or code in LINES and multi:
            continue
        rt.check(False, lambda: 'formatted text has %s at %r: %r, from %r' % (
            code, x.location, out, src))
    rt.check(True, 'passes')
    return [out, valid, found]


def warm():
    lib.process(lib.config(), 'if(a)\nfoo()\nendif()\n')
