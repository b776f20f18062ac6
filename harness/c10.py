"""C10: lossless tokenizing, exact positions."""
from cmakelang import lex
from cmakelang import common
from harness import lib
from symex import rt

FUNCTIONS = ['lex.tokenize', 'lex.Token', 'lex.SourceLocation', 'lex scanner '
             'regular expressions']
BOUNDS = ('every text matching one of the templates: k unknown characters from '
          'the 140 character alphabet (ASCII plus representatives of every '
          'other class the lexer and str methods distinguish), inside fixed '
          'context; longer unknown stretches are outside')
ASSUMPTIONS = ['re.Scanner semantics as modelled by symex/regex.py, validated '
               'per path sample against the real code']

# text that can never be part of a token of a wrong kind
SP = ' \t\n\r'


def tasks(tier):
    T = []

    def add(name, *parts):
        T.append({'name': name, 'params': {'parts': list(parts)},
                  'bounds': '%d unknown characters' % sum(
                      p[2] if p[0] == 't' else 1 for p in parts
                      if not isinstance(p, str))})
    deep = tier != 'quick'
    k = 4 if deep else 3
    add('free', ('t', 'a', k + (0 if not deep else 1)))
    add('bom', '\ufeff', ('t', 'a', k - 1), 'x\n', ('t', 'b', 1))
    add('call', 'f(', ('t', 'a', k), ')')
    add('unicode', 'f(\u00e9\u4e2d ', ('t', 'a', 2), '\U0001f600', ('t', 'b', 1),
        ')\n')
    add('quoted', 'f("', ('t', 'a', k), '")\n')
    add('quoted2', '"a\n\u4e2d', ('t', 'a', 2), '\r\n" ', ('t', 'b', 2))
    add('bracketarg', '[', ('t', 'a', 2, '=[]a\n'), '[x', ('t', 'b', 3, '=[]\na'),
        ']=]=]')
    add('bracketcomment', '#[', ('t', 'a', 2, '=[]a\n'), 'x\n\u00e9',
        ('t', 'b', 3, '=[]\na'), ']]')
    add('comment', '#', ('t', 'a', 2), '\u00e9', ('t', 'b', 1), '\nf')
    add('onoff', '# cmake-format: o', ('t', 'a', k), '\n', ('t', 'b', 1))
    add('onoff2', '#', ('t', 'z', 1), 'cmf: off', ('t', 'a', 1), '\nset( x', ('t', 'b', 2),
        '\n# cmf: on', ('t', 'c', 1))
    add('deref', '${', ('t', 'a', k), '}')
    add('escape', 'a\\', ('t', 'a', 2), '${b}', ('t', 'b', 1), '\\;')
    add('crlf', 'f(a)\r', ('t', 'a', 2), '\n\r', ('t', 'b', 1), '\u2028',
        ('t', 'c', 1))
    add('number', ('t', 'a', 1), '12', ('t', 'b', 2), '3')
    if deep:
        add('words', 'ab', ('t', 'a', 3), 'cd', ('t', 'b', 2))
        add('lines', ('t', 'a', 2), '\n', ('t', 'b', 2), '\n', ('t', 'c', 1))
    return T


def inputs(S, p):
    return {'src': lib.build(S, p['parts'])}


def show(p, inp):
    return inp['src']


def run(p, inp):
    src = inp['src']
    try:
        toks = lex.tokenize(src)
    except lib.REFUSED:
        # refusing is allowed by the property; silence is not
        rt.check(True)
        return 'refused'
    bom = 0
    body = src
    if src[:1] == '\ufeff':
        bom = 3
        body = src[1:]
    text = ''
    n = 0
    for t in toks:
        if n == 0 and bom and t.type == lex.TokenType.BYTEORDER_MARK:
            n = 1
            continue
        text = text + t.spelling
        n += 1
    rt.check(text == body, 'the tokens do not reproduce the input')
    line, col, off = 1, 0, bom
    n = 0
    for t in toks:
        n += 1
        if t.type == lex.TokenType.BYTEORDER_MARK and n == 1:
            continue
        rt.check(rt.conj([t.begin.line == line, t.begin.col == col,
                          t.begin.offset == off]),
                 lambda: 'wrong start position of %r' % (t,))
        parts = t.spelling.split('\n')
        line += len(parts) - 1
        off += len(t.spelling.encode('utf-8'))
        if len(parts) > 1:
            col = len(parts[-1])
        else:
            col = col + len(parts[-1])
        rt.check(rt.conj([t.end.line == line, t.end.col == col,
                          t.end.offset == off]),
                 lambda: 'wrong end position of %r' % (t,))
    return [t.spelling for t in toks]
