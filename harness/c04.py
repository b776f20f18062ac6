"""C04: text between format-off and format-on markers is copied verbatim."""
import re
from harness import lib, ref, corpus, fmtbase, templates
from harness.corpus import task
from harness.fmtbase import inputs, show, FUNCTIONS
from symex import rt

BOUNDS = ''
ASSUMPTIONS = ['accepted inputs: the text inside a region is still parsed, so a '
               'region that is not a valid listfile fragment is refused']
BUDGET = {'quick': 120.0, 'thorough': 840.0}
MARK = re.compile(r'#[ \t]*(cmake-format|cmf): (off|on)(?!\S)')
OFF = '# cmake-format: off'
ON = '# cmake-format: on'


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, tpl, opts=None, **kw):
        T.append(task('O.' + name, tpl.replace('OFF', OFF).replace('ON!', ON),
                      opts or {'format.line_width': 40}, **kw))
    W = {'format.line_width': 40}
    TAB = dict(W, **{'format.use_tabchars': 'b', 'format.tab_size': [2, 4]})
    LE = dict(W, **{'format.line_ending': ['unix', 'windows', 'auto']})
    add('text', 'bar( a )\nOFF‹a:b2›\nfoo(  ‹c:n›‹b:b2›x )‹d:b2›\nON!\nbar( b )\n', TAB, opaque=True)
    add('free', 'OFF\n‹a:x%d›\nON!\nbar( b )\n' % (3 if q else 4))
    add('string', 'OFF\nfoo("‹a:S%d›"  b)\nON!\nbar( b )\n' % (2 if q else 3), opaque=True)
    add('bracket', 'OFF\nfoo([[‹a:S%d›]]  b)\nON!\nbar( b )\n' % (2 if q else 3), TAB, opaque=True)
    add('comment', 'OFF\n  #‹a:c%d›\n#  b\nfoo(  b)\nON!\nbar( b )\n' % (2 if q else 3), opaque=True)
    add('before', '# ‹a:c2›\nfoo( "‹b:S›é\n" é )\nOFF\n foo(  ‹c:n›)\n ON!\nbar( b )\n', opaque=True)
    add('before2', 'bar([[é\n‹a:S›]] ‹Z›)‹b:b›\nOFF\n foo(  ‹Y›)\n ON!\nbar( ‹J› )\n',
        {'format.line_width': ('i', 20, 60)}, hi=30, opaque=True)
    add('bom', '\ufeff# ‹a:c›\nOFF\n foo(  中‹c:n›)\n ON!\nbar( b )\n',
        dict(W, **{'encode.emit_byteorder_mark': 'b'}), opaque=True)
    add('crlf', 'bar( a )‹p1:\n|\r\n›OFF‹p2:\n|\r\n› foo(  a‹p3:\n|\r\n›)  ‹p4:\n|\r\n›ON!‹p5:\n|\r\n›bar( b )', LE)
    add('nested', 'if(a)\n  OFF\n‹a:b› foo(  ‹b:n›)\n ‹c:b›ON!\n bar( ‹Z› ‹J› )\nendif()\n',
        TAB, hi=30, opaque=True)
    add('block', 'OFF\nif(a)\n   foo(  ‹b:n›)\n  endif(  )\n ‹c:b›ON!\nbar( ‹Z› ‹J› )\n',
        TAB, hi=30, opaque=True)
    add('long', 'OFF\n foo(  ‹Z› ‹J›  a  )\nON!\nbar( ‹Y› ‹Q› )\n',
        {'format.line_width': ('i', 20, 60)}, hi=40, opaque=True)
    add('two', 'OFF\n foo(  ‹a:n›)\nON!\nbar( b )\nOFF\n foo(  ‹b:n›)‹c:b›\nON!\nbar( b )\n', opaque=True)
    add('open', 'bar( b )\nOFF\n foo(  ‹a:n›)\nbar( ‹b:n› )‹c:b2›‹d:b›', LE)
    add('open2', 'bar( é )\nOFF‹a:b2›‹p1:|foo( b )|foo( b )\r\n›', LE)
    add('again', 'bar( b )\nOFF\n foo(  ‹a:n›)\n‹b:b›OFF\n bar(  b)\nON!\nbar( ‹b:n› )\n', opaque=True)
    add('unmatched', 'bar( b )\nON!\nfoo(  ‹a:n›)\n', keep='foo(')
    add('args', 'foo(a\n  OFF\n  b   ‹a:n›\n  c‹b:b›\n  ON!\n d  e)\nbar( a )\n')
    add('args2', 'foo(a\n  OFF\n  b   "‹a:S›"\n (c  d)\n  ON!\n d  e)\nbar( a )\n')
    add('args3', 'foo(a\n  OFF\n  b‹a:b2›)‹b:b›\nON!\nbar( a )\n')
    add('args4', 'foo(a (b  \nOFF\n  b‹a:b2›c  d\nON!\n e) f)\nbar( a )\n')
    add('kwargs', 'add_custom_command(OUTPUT a\n OFF\n COMMAND  b   ‹a:n›\n  ON!\n DEPENDS  c)\nbar( a )\n')
    add('kwargs2', 'set_target_properties(t PROPERTIES\n OFF\n  a   ‹a:n›\n ON!\n b  c)\nbar( a )\n')
    add('kwargs3', 'add_library(x STATIC\n OFF\n  a   ‹a:n›\n ON!\n b  c)\nbar( a )\n')
    add('fnargs', 'foo(BAR HEADERS\n OFF\n a   ‹a:n›\n ON!\n SOURCES b  c)\nbar( a )\n')
    # what is a marker
    add('mark1', '#‹a:b›cmake-format:‹b:b›off‹c:c›\nfoo(  b)\n# cmake-format: on\nbar( b )\n', keep='foo(  b)')
    add('mark2', '# ‹p1:cmake-format|cmf|CMF|cmake_format›: off‹c:c2›\nfoo(  b)\n# ‹p2:cmake-format|cmf|xcmf›: on‹d:c›\nbar(  b )\n', keep='foo(  b)')
    add('mark3', '#‹a:c2›cmf: off\nfoo(  b)\n# cmf: on‹d:c›\nbar(  b )\n', keep='foo(  b)')
    add('mark4', 'bar( "\n# cmf: off\n" "‹a:S›")\nfoo(  b)\n# cmf: on\nbar(  b )\n', keep='foo(  b)')
    add('mark5', '#[[\n# cmf: off\n]]‹a:b›\nfoo(  b)\n#[[ cmf: off‹b:S›]]\n', keep='foo(  b)')
    add('mark6', 'bar( b ) # cmf: off‹c:c›\nfoo(  b)\n# cmf: on\nbar(  b )\n', keep='foo(  b)')
    add('mark7', 'OFF\nbar( "# cmf: on‹c:b›"  b)\nfoo(  b)\n#[[# cmf: on]]\n# cmf: on\nbar(  b )\n', opaque=True)
    if not q:
        add('inner', 'OFF\nfoo(a‹a:x3›b  c)\nON!\nbar( b )\n')
        add('text4', 'bar( a )‹e:b›\nOFF‹a:b›‹f:c2›\nfoo(  ‹c:a2›‹b:b2›x )‹d:b2›\nON!‹g:b›‹h:c›\nbar( b )\n', TAB)
        add('args5', 'foo(‹Z›\n  OFF\n  b   ‹Y›‹a:n›\n  c‹b:b›\n  ON!\n ‹J›  e)\nbar( a )\n',
            {'format.line_width': ('i', 20, 60)}, hi=40)
    return T


def regions(text):
    """-> (text pieces between the end of an off marker and the start of the
    next on marker, piece after an off marker that is never closed or None,
    text outside the regions) or None when the text cannot be lexed"""
    out = []
    rest = []
    pos = 0
    if text[:1] == '\ufeff':
        pos = 1
    start = None
    last = 0
    for k, t in ref.lex(text):
        if k == 'bad':
            return None
        if k == 'lc':
            m = MARK.match(t)
            if m:
                if m.group(2) == 'off' and start is None:
                    s = t[:-1] if t[-1:] == '\r' else t
                    start = pos + len(s)
                    rest.append(text[last:start])
                elif m.group(2) == 'on' and start is not None:
                    out.append(text[start:pos])
                    last = pos
                    start = None
        pos = pos + len(t)
    if start is not None:
        return out, text[start:], rest
    rest.append(text[last:])
    return out, None, rest


def run(p, inp):
    src = inp['src']
    cfg = fmtbase.cfg(inp)
    r = lib.process(cfg, src)
    if r is None:
        raise rt.Skip()
    a = regions(src)
    if a is None:
        raise rt.Skip()
    out = r[0]
    b = regions(out)
    rt.check(b is not None, lambda: 'output cannot be read: %r' % out)
    if not a[0] and a[1] is None:
        # no region; a comment such as '##cmf: off' may be rewritten to look
        # like a marker, which is not one in this run
        b = a
    rt.check(len(a[0]) == len(b[0]) and (a[1] is None) == (b[1] is None),
             lambda: 'different number of regions: %r' % out)
    rt.check(rt.conj([x == y for x, y in zip(a[0], b[0])]),
             lambda: 'region changed: %r' % out)
    if a[1] is not None:
        t = a[1]
        endl = cfg.format.endl
        if cfg.format.line_ending == 'auto':
            win = src.count('\r\n')
            endl = '\r\n' if win > src.count('\n') - win else '\n'
        if t[-2:] == '\r\n':
            t = t[:-2]
        elif t[-1:] == '\n':
            t = t[:-1]
        rt.check(rt.disj([b[1] == a[1], b[1] == t + endl]),
                 lambda: 'open region changed: %r' % out)
    if 'keep' in p and not a[0] and a[1] is None:
        rt.check('foo(b)' in out or p['keep'] == 'foo(' and 'foo(  ' not in out,
                 lambda: 'text outside of a region not formatted: %r' % out)
    if 'keep' in p and a[0]:
        rt.check('bar(b)' in out, lambda: 'text after the region not formatted: %r' % out)
    if p.get('opaque') and a[1] is None and len(a[2]) > 1:
        # the rest is formatted as if the regions were something else
        block = '\nx()\n'
        s2 = block.join(a[2])
        r2 = lib.process(fmtbase.cfg(inp), s2)
        rt.check(r2 is not None, lambda: 'refused with another region: %r' % s2)
        b2 = regions(r2[0])
        rt.check(len(b2[2]) == len(b[2]) and rt.conj(
            [x == y for x, y in zip(b[2], b2[2])]),
            lambda: 'the content of a region changes the text around it: %r, %r'
            % (out, r2[0]))
    return out
