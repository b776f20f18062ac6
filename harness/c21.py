"""C21: annotated HTML shows exactly the source text."""
import io
import re
from cmakelang import annotate
from harness import lib, ref, corpus, fmtbase, templates
from harness.corpus import task
from harness.fmtbase import inputs, show
from symex import rt

FUNCTIONS = ['annotate.annotate_file', 'render.get_html', 'render.dump_html',
             'lex.*', 'parse.*', 'xml.sax.saxutils.escape']
BOUNDS = ''
ASSUMPTIONS = ['stub format; the page templates around it (jinja2) are outside',
               'line endings are compared as an HTML reader sees them']
BUDGET = {'quick': 120.0, 'thorough': 840.0}
TAG = re.compile(r'<(/?)([a-z]+)((?: [a-z]+="[^"<>&]*")*)>')
ENT = re.compile(r'&(amp|lt|gt|quot|#39|#x27);')
ENTS = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', '#39': "'", '#x27': "'"}


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, tpl, **kw):
        T.append(task('H.' + name, tpl, {}, **kw))
    add('free', '‹a:x%d›' % (4 if q else 5))
    add('args', 'foo(‹a:a2›<‹b:n›>&‹c:a›)\n')
    add('entity', 'foo("‹a:S›&lt;‹b:S›&amp;#60;‹c:S›")\n')
    add('tag', 'foo("</‹a:S›span>‹b:S›<script>‹c:S›")\n')
    add('bracket', 'foo([=[<‹a:S2›]]]=]‹b:b›)\n')
    add('comment', '# <!-- ‹a:c2›\nfoo() #‹b:c› -->‹c:b›\n')
    add('bcomment', '#[[ ]]‹b:b›\nfoo(a #[[&‹a:S2›]] b)\n')
    add('blanks', '‹a:b2›if(a)‹b:b›\n‹c:b›foo(\tb‹d:b›)\nendif()‹e:b›')
    add('bom', '\ufefffoo(<‹a:a2›)\n')
    add('off', '# cmake-format: off ‹a:c›\nfoo(  <‹b:a›)\n# cmake-format: on\n')
    add('crlf', 'foo(a‹p1: |\n|\r\n› "<‹p2: |\n|\r\n›")‹p3:\n|\r\n|›')
    for t in templates.chars('quick'):
        if t['params'].get('group') or not q:
            t['name'] = 'H' + t['name']
            t['params'] = dict(t['params'], opts={})
            T.append(t)
    for t in templates.layout('quick'):
        p = t['params']
        T.append({'name': 'H' + t['name'], 'params': {'parts': p['parts'], 'opts': {}},
                  'bounds': t['bounds']})
    return T


def run(p, inp):
    src = inp['src']
    cfg = fmtbase.cfg(inp)
    out = io.StringIO()
    try:
        annotate.annotate_file(cfg, io.StringIO(src, newline=''), out, 'stub')
    except lib.REFUSED:
        raise rt.Skip()
    html = out.getvalue()
    # read the HTML
    text = ''
    stack = []
    chunks = html.split('<')
    first = chunks[0]
    rest = chunks[1:]
    text = text + first
    for c in rest:
        i = c.find('>')
        rt.check(i >= 0, lambda: 'unclosed tag in %r' % html)
        m = TAG.match('<' + c[:i + 1])
        rt.check(m is not None and m.end() == i + 2,
                 lambda: 'malformed tag <%r' % c[:i + 1])
        if m.group(1):
            rt.check(len(stack) > 0 and stack[-1] == m.group(2),
                     lambda: 'tags do not nest: %r' % html)
            stack.pop()
        else:
            rt.check(m.group(2) == 'span', lambda: 'element %r' % m.group(2))
            stack.append(m.group(2))
        text = text + c[i + 1:]
    rt.check(not stack, lambda: 'tags not closed: %r' % html)
    # resolve character references
    chunks = text.split('&')
    plain = chunks[0]
    for c in chunks[1:]:
        i = c.find(';')
        rt.check(i >= 0 and c[:i] in ENTS, lambda: 'bare ampersand in %r' % html)
        plain = plain + ENTS[c[:i]] + c[i + 1:]
    if src[:1] == '\ufeff' and plain[:1] != '\ufeff':
        plain = '\ufeff' + plain
    rt.check(plain.replace('\r\n', '\n') == src.replace('\r\n', '\n'),
             lambda: 'text content %r, source %r' % (plain, src))
    return html
