# -*- coding: utf-8 -*-
"""Templates shared by the formatting properties.

A template is written in a small language inside a string:
  ‹Z›        a word of z's of symbolic length 1..hi   (letters ZJQKYVX)
  ‹a1:n›     one unknown character of alphabet n, named a1; ‹a:n3› three
  ‹p:x|y|z›  one of the literals x, y, z
  ‹k1~SET›   the word SET, every letter in upper or lower case
Options: {'format.line_width': ('i', lo, hi), 'format.dangle_parens': 'b',
'format.dangle_align': ['prefix', 'child'], 'format.tab_size': 4 (fixed)}
"""
import re
import string

_LET = string.ascii_letters + string.digits
ALPHA = {
    # characters of one unquoted argument without special meaning
    'n': _LET + '_-./+:=<>,!%&|~@é中',
    # word characters where case or classes matter little (cheap)
    'w': 'aB1_é',
    # printable text inside quotes / brackets / comments
    's': _LET + ' \t_-./+:=<>,!%&|~@é中\U0001f600#()[]{}$;*?^`\\"',
    # the same with line breaks
    'S': _LET + ' \t\n_-./+:=<>,!%&|~@é中\U0001f600#()[]{}$;*?^`\\"',
    # names
    'v': 'aAbB_1-',
    # rulers
    'r': '-#=+a ',
    # comment text
    'c': _LET + ' \t_-./+:=<>,!%&|~@é中\U0001f600#()[]{}$;*?^`\\"\'',
    # blanks and line breaks
    'b': ' \t\n',
    'B': ' \n',
    # one-letter keywords, flags and others (C22)
    'K': 'kKhFfa',
    'g': 'KfHa',
    'X': 'KxHFgya',
    # structure
    'x': ' \nab()#"[]$\\;=',
    # anything but the characters whose meaning differs between tools
    'a': _LET + ' \t\n_-./+:=<>,!%&|~@é中\U0001f600#()[]{}$;*?^`\\"',
}

_HOLE = re.compile('‹([^›]*)›')


def parts(tpl, hi=40):
    out = []
    pos = 0
    for m in _HOLE.finditer(tpl):
        if m.start() > pos:
            out.append(tpl[pos:m.start()])
        pos = m.end()
        h = m.group(1)
        m = re.match(r'([a-z]\d*)~(.+)', h)
        if m:
            out.append(('k', m.group(1), m.group(2)))
            continue
        if len(h) == 1:
            out.append(('w', 'len_' + h, h.lower(), 1, hi))
            continue
        name, spec = h.split(':', 1)
        if name.startswith('p'):
            out.append(('p', name, spec.split('|')))
            continue
        al = ALPHA[spec[0]]
        cnt = int(spec[1:]) if len(spec) > 1 else 1
        if cnt == 1:
            out.append(('c', name, al))
        else:
            out.append(('t', name, cnt, al))
    if pos < len(tpl):
        out.append(tpl[pos:])
    return out


def make_opts(S, opts):
    """-> {section: {field: value}}"""
    res = {}
    for key, spec in opts.items():
        sec, fld = key.split('.')
        if spec == 'b':
            v = S.bool(fld)
        elif isinstance(spec, (tuple, list)) and len(spec) == 3 and spec[0] == 'i':
            v = S.int(fld, spec[1], spec[2])
        elif isinstance(spec, list):
            v = S.pick(fld, spec)
        else:
            v = spec
        res.setdefault(sec, {})[fld] = v
    return res


def task(name, tpl, opts=None, hi=40, weight=1.0, **kw):
    p = parts(tpl, hi)
    d = {'name': name, 'weight': weight,
         'params': dict(kw, parts=p, opts=opts or {}),
         'bounds': '%s; %d unknown characters, %d words of length 1..%d; '
         'options %s' % (
             tpl.replace('\n', '\\n')[:160],
             sum(x[2] if x[0] == 't' else 1 for x in p
                 if not isinstance(x, str) and x[0] in ('c', 't')),
             sum(not isinstance(x, str) and x[0] == 'w' for x in p), hi, sorted(opts or {}))}
    return d
