"""Reference reader of listfiles, written from the CMake language manual
(cmake-language(7)), independent of the code under test.

lex(text) -> list of [kind, text]
  kinds: '(' ')' 'arg' (unquoted/quoted/bracket), 'line' comment, 'bracket'
  comment, 'nl', 'ws', 'bad'
"""
import re

TOK = re.compile(
    r'(?P<ws>[ \t]+)'
    r'|(?P<nl>\r?\n)'
    r'|(?P<bc>#\[(?P<e1>=*)\[.*?\](?P=e1)\])'
    r'|(?P<lc>#[^\n]*)'
    r'|(?P<lp>\()'
    r'|(?P<rp>\))'
    r'|(?P<br>\[(?P<e2>=*)\[.*?\](?P=e2)\])'
    r'|(?P<q>"(?:[^"\\]|\\.)*")'
    r'|(?P<un>(?:\$\([^\s()"#\\]*\)|[^\s()#"\\]|\\[^\r\n])'
    r'(?:\$\([^\s()"#\\]*\)|"(?:[^"\\]|\\.)*"|[^\s()#"\\]|\\[^\r\n])*)'
    r'|(?P<bad>.)', re.DOTALL)
IDENT = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z')


def lex(text):
    if text[:1] == '\ufeff':
        text = text[1:]
    out = []
    pos = 0
    n = len(text)
    while pos < n:
        m = TOK.match(text, pos)
        if m is None:
            out.append(['bad', text[pos:]])
            break
        k = m.lastgroup
        if k == 'e1':
            k = 'bc'
        if k == 'e2':
            k = 'br'
        out.append([k, m.group(0)])
        pos = m.end()
    return out


def nlnorm(s):
    return s.replace('\r\n', '\n')


def read(text, lower=True):
    """-> list of items, or None when the text is not a valid listfile.

    items: ['cmd', name] ['('] [')'] ['arg', text] ['lc', text] ['bc', text]
    comments appear between the code items where they stand; 'lc' text
    excludes the line ending."""
    toks = lex(text)
    items = []
    depth = 0
    prev = 'nl'      # what precedes on this line at file level
    i = 0
    n = len(toks)
    while i < n:
        k, t = toks[i]
        i += 1
        if k == 'bad':
            return None
        if k == 'ws':
            if depth:
                prev = 'ws'
            continue
        if k == 'nl':
            prev = 'nl'
            continue
        if k == 'lc':
            if t[-1:] == '\r':
                t = t[:-1]
            items.append(['lc', t])
            prev = 'lc'
            continue
        if k == 'bc':
            items.append(['bc', nlnorm(t)])
            if depth == 0:
                prev = 'bc'
            else:
                prev = 'ws'
            continue
        if depth == 0:
            if k != 'un' or prev == 'cmd' or not IDENT.match(t):
                return None
            while i < n and toks[i][0] == 'ws':
                i += 1
            if i >= n or toks[i][0] != 'lp':
                return None
            i += 1
            items.append(['cmd', t.lower() if lower else t])
            items.append(['('])
            depth = 1
            prev = 'lp'
            continue
        if k == 'lp':
            items.append(['('])
            depth += 1
            prev = 'lp'
        elif k == 'rp':
            items.append([')'])
            depth -= 1
            prev = 'cmd' if depth == 0 else 'rp'
        else:
            # a bracket argument has to be separated from its neighbours
            if prev == 'br' or (k == 'br' and prev == 'arg'):
                return None
            items.append(['arg', nlnorm(t)])
            prev = 'br' if k == 'br' else 'arg'
    if depth:
        return None
    return items


BULLET = re.compile(r'[-*]\Z')
ENUM = re.compile(r'\d+[.)]\Z')
FENCE = re.compile(r'[`~]{3}')
HASHES = re.compile(r'#{6,}\Z')


def comment_words(t):
    """words of a line comment, ignoring what reflow may normalise: the number
    of leading hashes, the bullet character and the numbering of lists"""
    out = []
    for w in t.lstrip('#').lstrip('< \t').split():
        if HASHES.match(w):
            continue
        if not out and w[:6] == '######':
            # a ruler of hashes may get a blank behind the first one
            w = w.lstrip('#')
        if FENCE.match(w):
            out.append('~~~')
            w = w.lstrip('`~')
            if not w:
                continue
        if BULLET.match(w):
            w = '*'
        elif ENUM.match(w):
            w = '1.'
        out.append(w)
    return out


def code(items):
    """commands, parentheses and arguments only"""
    return [x for x in items if x[0] not in ('lc', 'bc')]


def with_comments(items):
    """arguments, commands and comments (by words), without parentheses"""
    out = []
    for x in items:
        k = x[0]
        if k == 'lc':
            for w in comment_words(x[1]):
                out.append(['w', w])
        elif k in ('bc', 'cmd', 'arg'):
            out.append(x)
    return out


def same(a, b):
    """formula: equal item lists"""
    from symex import rt
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if x[0] != y[0] or len(x) != len(y):
            return False
        if len(x) > 1:
            conds.append(x[1] == y[1])
    return rt.conj(conds)
