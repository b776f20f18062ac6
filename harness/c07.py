"""C07: tab indentation changes leading whitespace only, at the same columns."""
from harness import lib, ref, corpus, fmtbase, templates
from harness.corpus import task
from harness.fmtbase import inputs, show, FUNCTIONS
from symex import rt

BOUNDS = ''
ASSUMPTIONS = []
BUDGET = {'quick': 120.0, 'thorough': 840.0}
TABS = {'format.tab_size': ('i', 1, 8),
        'format.fractional_tab_policy': ['use-space', 'round-up']}


def tasks(tier):
    T = []

    def add(name, tpl, opts=None, **kw):
        o = dict(TABS)
        o.update(opts or {'format.line_width': 40})
        T.append(task('T.' + name, tpl, o, **kw))
    add('body', 'if(a)\nfoo(‹Z›)\n# ‹Y›\nwhile(b)\n  # c\nbar()\nendwhile()\nendif()\n', hi=20)
    add('wrap', 'foo(‹Z› ‹J› b # ‹Y›\n c)\n')
    add('wrapw', 'foo(‹Z› ‹J› b)\n', {'format.line_width': ('i', 20, 60)}, hi=40)
    add('nest', 'if(a)\nfoo(z (‹J› b) c)\nendif()\n')
    add('string', 'if(a)\nfoo("x\n ‹a:b›‹b:b›  y" ‹Z›)\nendif()\n')
    add('bracket', 'if(a)\nfoo(b [[\n  ‹a:b›x\n‹b:b› ]])\nendif()\n')
    add('bcomment', 'if(a)\n#[[\n   ‹a:b›x\n   ]]\nfoo()\nendif()\n')
    add('comment', 'if(a)\n# * b\n#   * ‹Y› ‹Q›\n# ```\n#    x\n# ```\nendif()\n', hi=30)
    add('frac', 'foo(a\n\n    # ‹Y› ‹Q› b\n  c)\n', {'format.line_width': 40}, hi=30)
    add('frac2', 'fooba(\n # ‹Y› ‹Q› b b b b b b b b\n c)\n', {'format.line_width': 40}, hi=30)
    add('fracend', 'foo(a # ‹Y› ‹Q› b b b\n  c)\n', {'format.line_width': 40}, hi=30)
    add('literal', 'if(a)\n#    ‹c:c›\n   #‹b:b› ‹a:c›\nendif()\n', {'markup.enable_markup': 'b'})
    add('off', 'if(a)\n# cmake-format: off\n   ‹a:b›foo(  b)\n\t ‹b:b› \n# cmake-format: on\nendif()\n')
    add('kwargs', 'add_custom_target(‹Z› ALL COMMAND b DEPENDS c # ‹Y›\n)\n',
        {'format.line_width': 30}, hi=24)
    add('set', 'function(a)\nset(b ‹Z› ‹J› CACHE STRING "x")\nendfunction()\n',
        {'format.line_width': 30, 'format.dangle_parens': 'b'})
    add('crlf', 'if(a)\r\nfoo("b\r\n  ‹a:b›c")\r\nendif()\r\n',
        {'format.line_ending': ['unix', 'windows']})
    if tier != 'quick':
        for t in templates.layout('quick'):
            p = t['params']
            o = dict(TABS)
            o.update({'format.line_width': ('i', 20, 60)})
            T.append({'name': 'T' + t['name'], 'params': {'parts': p['parts'], 'opts': o},
                      'bounds': t['bounds'] + '; tab size 1..8'})
    return T


def literal(src):
    """number of lines that are not the formatter's to indent: continuation
    lines of multi-line tokens, as a set of output line numbers"""
    out = []
    n = 0
    for k, t in ref.lex(src):
        c = t.count('\n')
        if c and k != 'nl':
            out.extend(range(n + 1, n + 1 + c))
        n += c
    return out


def region(src):
    """line numbers inside format-off regions, except the marker lines' own
    indentation for 'off'"""
    out = []
    off = False
    for n, line in enumerate(src.split('\n')):
        if off:
            out.append(n)
        s = line.strip()
        if s == '# cmake-format: off':
            off = True
        elif s == '# cmake-format: on':
            off = False
    return out


def run(p, inp):
    src = inp['src']
    opts = dict(inp['opts'])
    fmt = dict(opts['format'])
    opts['format'] = dict(fmt, use_tabchars=False)
    a = lib.process(lib.config(**opts), src)
    if a is None or ref.read(src) is None:
        raise rt.Skip()
    opts['format'] = dict(fmt, use_tabchars=True)
    b = lib.process(lib.config(**opts), src)
    rt.check(b is not None, 'refused with tabs')
    space, tabbed = a[0].split('\n'), b[0].split('\n')
    rt.check(len(space) == len(tabbed),
             lambda: 'number of lines differs: %r %r' % (a[0], b[0]))
    keep = literal(a[0])
    if 'cmake-format: off' in src:
        keep = keep + region(a[0])
    size = fmt['tab_size']
    for n in range(len(space)):
        s, t = space[n], tabbed[n]
        if n in keep:
            rt.check(s == t, lambda: 'verbatim line changed: %r, %r' % (s, t))
            continue
        rest = s.lstrip(' ')
        ind = len(s) - len(rest)
        rt.check(t.lstrip(' \t') == rest.lstrip('\t'), lambda: 'text changed: %r, %r' % (s, t))
        lead = t[:len(t) - len(rest)]
        full = ind // size
        frac = ind - full * size
        if fmt['fractional_tab_policy'] == 'use-space':
            exp = '\t' * full + ' ' * frac
        else:
            exp = '\t' * full
            if frac > 0:
                exp = exp + '\t'
        rt.check(lead == exp, lambda: 'indent of %r is %r, expected %r' % (s, lead, exp))
    return b[0]
