# -*- coding: utf-8 -*-
"""C12: comment reflow keeps every word, respects the width and keeps literal
blocks intact."""
import re

from harness import lib, ref, corpus, fmtbase
from harness.corpus import task, ALPHA
from harness.fmtbase import inputs, show, FUNCTIONS
from symex import rt

BOUNDS = ''
ASSUMPTIONS = ['a line of a fenced block is what follows the leading hashes and '
               'one blank; a text behind an opening fence is its first line',
               'fences are not nested (every line that matches the fence pattern '
               'opens or closes a block)',
               'the available width is never less than ten characters',
               'the default fence and ruler patterns']
BUDGET = {'quick': 120.0, 'thorough': 840.0}
ALPHA['m'] = ' *-1.:)#a~`\t'
ALPHA['l'] = ' *-1.:a'
ALPHA['f'] = ' ~`a#'
LW = {'format.line_width': ('i', 1, 60)}
W20 = {'format.line_width': 20}
SMALL = {'format.line_width': ('i', 1, 24)}


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, tpl, opts=LW, **kw):
        T.append(task(name, tpl, opts, **kw))
    # words of unknown length under an unknown width
    add('P.para', '# ‹Z› ‹J›  ‹Q›\n# ‹K›\n')
    add('P.para2', '# a ‹Z›\n#\n#\n# ‹J› ‹Q›\n#\n')
    add('P.bullet', '# * ‹Z› ‹J›\n#   k\n# * ‹Q›\n')
    add('P.dash', '# - ‹Z› ‹J›\n# - ‹Q›\n#\n# ‹K› k\n')
    add('P.enum', '# 1. ‹Z› ‹J›\n# 2. ‹Q›\n')
    add('P.enum1', '# 7: ‹Z› ‹J› ‹Q›\n')
    add('P.enum10', ''.join('# %d. %s\n' % (i, '‹Z› ‹J›' if i in (1, 10) else 'k') for i in range(1, 11)), over=2)
    add('K.enum', '# 1. ‹Z› ‹J›\n# 2. ‹Q›\n', over=0)
    add('P.nest', '# * ‹Z›\n#\n#   * ‹J› ‹Q›\n#\n#     1. ‹K› k\n', hi=24)
    add('P.deep', '#\n'.join('#%s* %s\n' % (' ' * (1 + 2 * i), 'a' if i % 2 else '‹Z›') for i in range(7)), hi=24)
    add('P.deepenum', '#\n'.join('#%s1. %s\n' % (' ' * (1 + 3 * i), 'a' if i % 2 else 'b ‹J›') for i in range(6)), hi=24)
    add('P.note', '# ‹Z›\n# TODO(k): ‹J› ‹Q›\n# NOTE(‹K›): k\n')
    add('P.seps', '# ‹p1:TODO(k): ‹›|* k|1. k|k|----------|- k›\n#\n# ‹Z› k\n#‹p2:|\n#|\n# k\n#›\n# ‹p3:NOTE(k):|*|-|› ‹J›\n'.replace(
        ' ‹›', ' a'))
    add('K.ruler', '# ---- ‹Z› ‹J› ----\n# ‹Q›\n')
    add('K.lone', '# ‹p1:*|-|1.›\n# ‹Z›\n')
    add('P.ruler', '# ---- ‹Z› ----\n# ‹Q›\n# =========\n# ‹K› k\n', {'format.line_width': ('i', 18, 60)}, hi=6)
    add('P.hash', '##########\n# ‹Z› ‹J›\n############\n## ‹Q›\n', dict(LW, **{
        'markup.canonicalize_hashrulers': 'b', 'markup.hashruler_min_length': [3, 10, 14], 'format.line_width': [12, 30]}))
    add('P.char', '# * ‹Z› ‹J›\n#\n# 1. ‹Q› k\n', dict(LW, **{
        'markup.bullet_char': ['*', '-'], 'markup.enum_char': ['.', ':']}))
    add('P.fence', '# ‹Z› ‹J›\n# ~~~‹p1:|cmake| k v›\n# ‹Q›   k\n#\n#     * ‹K›\n# ~~~\n# ‹Y›\n')
    add('P.open', '# ‹Z›\n# ```\n# ‹Q›   ‹J›\n#   k\n')
    add('P.fences', '# ```\n# ‹Q›   k\n# ```\n#\n# ~~~~\n#‹Z›\n# ~~~~ ‹J› ‹K›\n')
    add('P.trail', 'foo(a) # ‹Z› ‹J›\n       # ‹Q›\n')
    add('P.arg', 'foo(a # ‹Z› ‹J›\n # * ‹Q›\n b)\n')
    add('P.inner', 'if(a)\nforeach(b c)\nfoo(c)\n# * ‹Z› ‹J›\n#\n# 1. ‹Q› k\nendforeach()\nendif()\n',
        dict(SMALL, **{'format.tab_size': [2, 4]}), hi=8)
    add('P.etrail', 'foo(a #< ‹Z› ‹J›\n #< ‹Q›\n b)\n')
    # blanks between words change the layout of every pass
    add('P.cascade', '# ' + '  '.join(['‹Z›', 'aa'] * 6) + '\n', W20, hi=12)
    add('P.cascade2', '# ' + '  '.join('aaa bbb aa a aaaa aaa aa aaaa aaaaa a aaa aaaa aa aaa a aa'.split()) + '\n', SMALL)
    # unknown characters
    add('C.start', '#‹a:m4›zz k\n', W20)
    add('C.start2', '# zz\n#‹a:m3›k k\n', W20)
    add('C.list2', '# * zz\n# ‹a:l%d›jj k\n' % (3 if q else 4), W20)
    add('C.list3', '# 1. zz\n# ‹a:l%d›jj k\n# ‹b:l›' % (3 if q else 4) + 'k\n', W20)
    add('C.list4', '# ‹p1:-|1:|2.|*› zz\n#\n# ‹a:l3› k\n', W20)
    add('C.digits', '# 1. zz\n# 1‹a:l2› jj\n', W20)
    add('C.fence', '# zz\n# ‹a:f3›~ k\n#  j\n# ~~~\n', W20)
    add('C.infence', '# ~~~\n#‹a:m2›  k ‹b:m›\n# ~~‹c:f›\n# v  v\n', W20)
    add('C.emptyfence', '# ~~~\n#‹a:m›‹p1:| x›\n#‹p2:|\n#›‹b:m›\n# ~~~\nfoo()\n', W20)
    add('C.openfence', '# ~~~\n# a\n#‹p1:|\n#›\n#‹a:m›\n#‹p2:| x|\n#›\nfoo()\n', W20)
    add('C.fencepara', '# k\n#‹p1:|\n#›\n# ~~~\n#‹p2:|\n#|\n#  x›\n# ~~~\n#‹p3:|\n#›\n# ~~~\n#\n# ~~~‹b:m›\n', W20)
    add('C.ruler', '# zz\n# ---‹a:r›-‹b:r›--\n# k\n', W20)
    add('C.hashes', '#‹a:r2›###########‹b:r2›\n# k\n', W20)
    add('C.words', '# zz ‹a:c› ‹b:m2› kk jj\n', SMALL)
    add('C.blank', '#‹a:m2›\n#‹b:b2›\n#\n', W20)
    add('C.note', '# zz\n# TODO‹a:m›(k)‹b:m› jj\n', W20)
    # literal comments
    LIT = {'markup.first_comment_is_literal': True, 'format.line_width': 20}
    for nm, o in [('first', LIT), ('off', {'markup.enable_markup': False, 'format.line_width': 20}),
                  ('pat', {'markup.literal_comment_pattern': '#? *kk', 'format.line_width': 20})]:
        h = ' kk' if nm == 'pat' else ''
        add('V.%s' % nm, '#%s‹a:m3›  ‹Z› ‹J›   \n#‹b:m2›k  v\n' % h, o, literal=2, hi=24)
        add('V.%shash' % nm, '#%s‹p1:#|##|###########|# #| #|!› ‹Z›\n#‹p2:#|##########|» » » » » »|~~~|* v›k  v\n' % h,
            o, literal=2, hi=24)
        add('V.%slist' % nm, '#%s‹p1:| *| 1.| ~~~| ----› ‹Z›  ‹J›\n#    * k\n#\n# ‹Q›\n' % h, o, literal=4, hi=24)
    add('V.shebang', '#!‹a:m2›  ‹Z› ‹J›\n# * k  v\n', W20, literal=2, hi=24)
    add('V.second', '# kk  ‹Z›\n\n# ‹J›  ‹Q› k\n', LIT, literal=1, hi=24)
    add('V.off2', 'foo(a # kk  ‹Z›\n b)\nfoo() # ‹J›  ‹Q›\n', {'markup.enable_markup': False, 'format.line_width': 20},
        inline=1, hi=24)
    # a fence in the middle of a paragraph
    add('K.midfence', '# ‹Z› ~~~ k\n# v\n', W20)
    if not q:
        add('D.para', '# ‹Z› ‹J›  ‹Q› ‹K›\n# ‹Y›   ‹V›\n')
        add('D.bullet', '# * ‹Z› ‹J›  ‹V›\n#   ‹K›\n# * ‹Q› ‹Y›\n')
        add('D.enum', '# 1. ‹Z› ‹J›\n#    ‹V›\n# 2. ‹Q›\n# 3. ‹K›\n')
        add('D.nest', '# * ‹Z› ‹V›\n#\n#   - ‹J› ‹Q›\n#\n#     1. ‹K› ‹Y›\n#\n# * k\n')
        add('D.start', '#‹a:m5›zz k\n', W20)
        add('D.start2', '#‹a:m2›zz\n#‹b:m3›k k\n', W20)
        add('D.start3', '#‹a:m2›zz\n#‹b:m2›k k\n#‹c:m2›\n', W20)
        add('D.infence', '# ~~~\n#‹a:m3›  k ‹b:m2›\n#‹c:f4›\n# v  v\n', W20)
        add('D.chars', '# ‹a:c3›zz ‹b:c2›\n', W20)
        add('D.cascade', '# ' + '  '.join(['‹Z›', 'aa', 'a', '‹J›'] * 5) + '\n', W20, hi=8)
    return T


FENCE = re.compile(r'\s*[`~]{3}[`~]*')
MARK = re.compile(r'(?:[-*]|\d+[.:])\Z')


def comment_lines(text):
    """[(column of the hash, text behind the first hash)] of the line comments"""
    out = []
    for line in text.split('\n'):
        k = line.find('#')
        if k < 0:
            continue
        out.append((k, line[k + 1:].rstrip()))
    return out


def segments(lines):
    """words of ordinary text and lines of fenced blocks, in order"""
    out = []
    inside = False
    gap = True          # nothing, or an empty line, in front
    for _, t in lines:
        hashes = t[:1] == '#'
        t = t.lstrip('#')
        if t[:1] == '<' and not hashes:
            t = t[1:]
        m = FENCE.match(t)
        initial = True
        if m:
            inside = not inside
            out.append(['fence'])
            gap = False
            t = t[m.end():].strip()
            if not t:
                continue
            initial = not inside
        if inside:
            if t[:1] == ' ' and not m:
                t = t[1:]
            out.append(['line', t.rstrip()])
            continue
        ws = t.split()
        if not ws or hashes:
            # a ruler is no empty line
            gap = not hashes
        for i, w in enumerate(ws):
            if i == 0 and w[:9] == '#########':
                # a ruler of hashes may get a blank behind the first one
                w = w.lstrip('#')
                if not w:
                    gap = False
                    continue
            mark = False
            if i == 0 and initial and len(ws) > 1 and MARK.match(w):
                mark = True
            out.append(['word', w, mark, gap and i == 0])
            gap = False
    return out


def same(a, b):
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == 'fence':
            continue
        if x[0] == 'word' and x[3] and not y[3]:
            # an empty line in front of it got lost
            return False
        if x[0] == 'word' and x[2] and x[3] and not y[2]:
            # no longer an item of a list
            return False
        if x[0] == 'word' and x[2] and y[2]:
            continue
        conds.append(x[1] == y[1])
    return rt.conj(conds)


def run(p, inp):
    src = inp['src']
    if ref.read(src) is None:
        raise rt.Skip()
    cfg = fmtbase.cfg(inp)
    r = lib.fmt_main.process_file(cfg, src)
    text = r[0]
    old = comment_lines(src)
    new = comment_lines(text)
    if p.get('literal') or p.get('inline'):
        n = p.get('literal') or len(old)
        for i, (_, t) in enumerate(old[:n]):
            rt.check(len(new) > i, lambda: 'lines lost: %r' % text)
            rt.check(new[i][1] == t, lambda: 'literal line changed: %r' % text)
        return text
    rt.check(same(segments(old), segments(new)), lambda: 'words changed: %r' % text)
    # width
    limit = inp['opts']['format']['line_width']
    inside = False
    over = 0
    for col, t in new:
        body = t.lstrip('#')
        if t[:1] == '<':
            body = t[1:]
        if FENCE.match(body):
            inside = not inside
            continue
        if inside:
            continue
        ws = body.split()
        if not ws:
            over = 0
        elif MARK.match(ws[0]):
            # K03: enumerated items are known to be too wide
            over = 0
            if ws[0][:1] not in '-*':
                over = p.get('over', 1)
            ws = ws[1:]
        if len(ws) <= 1 and (ws or t[:1] != '#'):
            continue
        size = col + 1 + len(t) - over
        rt.check(rt.disj([size <= limit, size <= col + 12 + (t[:1] == '<')]),
                 lambda: 'line too long: %r' % text)
    # stable (in the same place)
    again = lib.fmt_main.process_file(cfg, text)
    rt.check(comment_lines(again[0]) == new, lambda: 'not stable: %r -> %r' % (text, again[0]))
    return text
