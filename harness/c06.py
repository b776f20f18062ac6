"""C06: line endings follow the configuration everywhere."""
from harness import lib, ref, corpus, fmtbase, templates
from harness.corpus import task
from harness.fmtbase import inputs, show, FUNCTIONS
from symex import rt

BOUNDS = ''
ASSUMPTIONS = ['format-off regions are verbatim (C04) and excluded here']
BUDGET = {'quick': 120.0, 'thorough': 840.0}
LE = {'format.line_ending': ['unix', 'windows', 'auto']}
E = ':\n|\r\n›'


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, tpl, opts=None, **kw):
        o = dict(LE)
        o.update(opts or {})
        T.append(task('E.' + name, tpl, o, **kw))
    add('lines', 'foo(a)‹p1' + E + '# b‹p2' + E + 'bar(c)‹p3' + E)
    add('count', '‹p1' + E + '‹p2' + E + 'foo(‹p3' + E + 'a)‹p4' + E + 'b()')
    add('string', 'foo("a‹p1: |\n|\r\n›‹p2: |\n|\r\n›b" c)‹p3:\n|\r\n|›')
    add('lonecr', 'foo("a‹p1:|\r|\r\r|\n|\r\n›b"‹p2: |\n|\r\n|\r›[[‹p3:c|\r|\r\n›]])‹p4:\r|\n|\r\n|›#[[‹p5:|\r›]]‹p6:\n|\r\n›')
    add('strings', 'foo("‹p1:a|\n|\r\n›\\\n" c "d‹p2: |\n|\r\n›")‹p3' + E)
    add('bracket', 'foo([=[‹p1:a|\n|\r\n› ‹p2:x|\n|\r\n›]=] # x‹p3' + E + ')‹p4' + E)
    add('bcomment', '#[[ ‹p1:a|\n|\r\n› ‹p2:x|\n|\r\n›]]‹p3' + E + 'foo(a #[[‹p4:a|\n|\r\n›]] b)')
    add('comment', '# a ‹p1' + E + '#‹b:c›‹p2' + E + 'foo(# ‹c:c›‹p3' + E + 'b)‹p4' + E)
    add('fence', '# ```‹p1' + E + '#  x ‹p2' + E + '# ```‹p3' + E)
    add('literal', '# a  b ‹p1' + E + '#   c ‹p2' + E + 'foo()',
        {'markup.enable_markup': 'b'})
    add('first', '# a  b ‹p1' + E + '#   c ‹p2' + E + 'foo()‹p3' + E,
        {'markup.first_comment_is_literal': 'b'})
    add('nested', 'if(a)‹p1' + E + '  # ‹Y›‹p2' + E + '  foo(‹Z› b)‹p3' + E + 'endif()‹p4' + E,
        {'format.line_width': ('i', 20, 60)}, hi=30)
    add('wrap', 'foo(‹Z› "a‹p1' + E + ' b" ‹J› # ‹Y›‹p2' + E + ')‹p3' + E,
        {'format.line_width': 40}, hi=40)
    add('set', 'set(‹Z›‹p1' + E + ' ‹J› CACHE STRING "a‹p2' + E + 'b")‹p3' + E,
        {'format.line_width': 40, 'format.dangle_parens': 'b'}, hi=40)
    add('blank', 'foo()‹p1' + E + '‹b:B›‹p2' + E + '‹c:B›‹p3' + E + '#‹p4' + E)
    add('free', '‹a:x3›‹p1' + E + 'foo()‹b:b2›')
    if not q:
        add('string2', 'foo("a‹p1: |\n|\r\n›‹p2: |\n|\r\n›b" "‹p3:\n|\r\n|a›\\‹p5:\n|\r\n|a›" c)‹p4:\n|\r\n|›')
        add('free4', '‹a:x4›‹p1' + E + 'foo(b‹p2' + E + ')‹b:b2›')
        for t in templates.layout('quick'):
            p = dict(t['params'])
            parts = []
            n = 0
            for x in p['parts']:
                if not isinstance(x, str):
                    parts.append(x)
                    continue
                segs = x.split('\n')
                for i, s in enumerate(segs):
                    if i:
                        n += 1
                        if n <= 3:
                            parts.append(('p', 'q%d' % n, ['\n', '\r\n']))
                        else:
                            parts.append('\r\n')
                    if s:
                        parts.append(s)
            o = {'format.line_width': 40}
            o.update(LE)
            T.append({'name': 'E' + t['name'], 'params': {'parts': parts, 'opts': o},
                      'bounds': t['bounds'] + '; each line ending either kind'})
    return T


def run(p, inp):
    src = inp['src']
    opts = dict(inp['opts'])
    fmt = dict(opts.get('format', {}))
    le = fmt.pop('line_ending')
    a = ref.read(src)
    if a is None:
        raise rt.Skip()
    opts['format'] = dict(fmt, line_ending=le)
    r = lib.process(lib.config(**opts), src)
    if r is None:
        raise rt.Skip()
    out = r[0]
    if le == 'auto':
        win = src.count('\r\n')
        uni = src.count('\n') - win
        le = 'windows' if win > uni else 'unix'
    end = '\r\n' if le == 'windows' else '\n'
    rt.check(out[-len(end):] == end, lambda: 'no final line ending: %r' % out)
    if len(a):
        rt.check(out[:-len(end)].rstrip('\r\n') == out[:-len(end)],
                 lambda: 'several final line endings: %r' % out)
    n = out.count('\n')
    want = n if le == 'windows' else 0
    rt.check(rt.conj([out.count('\r') == want, out.count('\r\n') == want]),
             lambda: 'wrong line ending in %r' % out)
    # blanks before a line ending only inside arguments and bracket comments
    k0 = ''
    t0 = ''
    for k, t in ref.lex(out):
        if k == 'nl' and k0 == 'ws':
            rt.check(False, lambda: 'trailing blank in %r' % out)
        if k == 'lc':
            s = t[:-1] if t[-1:] == '\r' else t
            rt.check(s.rstrip(' \t') == s, lambda: 'trailing blank in %r' % out)
        k0, t0 = k, t
    opts['format'] = dict(fmt, line_ending='unix')
    u = lib.process(lib.config(**opts), src)
    rt.check(u is not None, 'refused with another line ending')
    rt.check(out.replace('\r\n', '\n') == u[0],
             lambda: 'the line ending changes other text: %r, %r' % (out, u[0]))
    return out
