# -*- coding: utf-8 -*-
"""Validation of the engine: every function below is executed symbolically, the
result on a sample of the paths is compared with that of plain Python
(python3-vt check.py selftest).  They are written the way refactored code may
be: all of Python's ways of taking texts and numbers apart."""
import bisect
import collections
import contextlib
import functools
import io
import itertools
import operator
import re
import string
import textwrap

from harness import lib, corpus
from symex import rt

BUDGET = {'quick': 120.0, 'thorough': 600.0}
SAMPLES = 60
FUNCTIONS = []
BOUNDS = ''
T3 = '‹a:x3›'
C2 = 'k‹a:S2›Z'
WORDS = '‹p1:foo|Foo|bar| baz›‹a:b2›‹b:K›'
ANY = None
CASES = []


def case(tpl, hi=6):
    def deco(fn):
        CASES.append((fn.__name__, tpl, hi, fn))
        return fn
    return deco


# -- strings
@case(T3)
def strips(s):
    return [s.strip(), s.lstrip('a '), s.rstrip('\n)'), s.strip('\n ()ab')]


@case(T3)
def splits(s):
    return [s.split(), s.split(' '), s.split('\n', 1), s.rsplit(None, 1), s.splitlines(), s.splitlines(True)]


@case(T3)
def parts(s):
    a, b, c = s.partition('(')
    return [a, b, c, s.rpartition(' '), s.find('a'), s.rfind('\n'), s.count(' ')]


@case(T3)
def cmps(s):
    return [s < 'a', s <= 'b(', s == 'ab#', s != '   ', s > '', 'a' in s, s in 'ab  ()', s not in ('a', 'b')]


@case("‹a:S2›")
def cases(s):
    return [s.lower(), s.upper(), s.title(), s.capitalize(), s.swapcase(), s.casefold() == s.lower()]


@case('‹a:S2›')
def classes(s):
    return [s.isspace(), s.isalnum(), s.isalpha(), s.isdigit(), s.isupper(), s.islower(), s.isidentifier(),
            s.isdecimal(), s.isprintable(), s.isascii(), s.isnumeric()]


@case(T3)
def trans(s):
    return [s.translate({ord('a'): 'X', ord(' '): None}), s.translate(str.maketrans('ab', 'BA')),
            s.replace('a', 'bb'), s.replace('  ', ' '), s.replace('(', '')]


@case('‹a:x2›‹Z›')
def pads(s):
    return [s.ljust(6), s.rjust(5, '.'), s.center(7), '%-5s|%5s' % (s, s), '{:<6}{:>4}'.format(s, s),
            f'{s:^9}', f'{s!r}', '{0}{0!s}'.format(s), len(s), s.zfill(4), s.expandtabs(4)]


@case(T3)
def prefixes(s):
    return [s.startswith('a'), s.endswith(('\n', ')')), s.startswith(('ab', ' '), 1), s.removeprefix('a'),
            s.removesuffix('\n'), s[1:], s[:-1], s[::-1], s[0], s[-1], s[::2]]


@case(T3)
def loops(s):
    out = []
    for i, c in enumerate(s, 1):
        if c in ' \t\n':
            continue
        elif c == '#':
            break
        out.append((i, c))
    else:
        out.append('end')
    i = 0
    while i < len(s) and s[i].isspace():
        i += 1
    return [out, i, [c for c in s if c not in '()'], {c: s.count(c) for c in s}, list(reversed(s))]


@case(T3)
def fiters(s):
    return [list(itertools.takewhile(str.isspace, s)), list(itertools.dropwhile(lambda c: c == 'a', s)),
            [(k, len(list(g))) for k, g in itertools.groupby(s)],
            [(bool(k), ''.join(g)) for k, g in itertools.groupby(s, key=str.isalnum)],
            list(map(str.upper, s)), list(filter(str.strip, s)), list(map(ord, s)),
            list(itertools.chain(s, s[:1])), list(itertools.islice(s, 1, None)),
            list(zip(s, s[1:])), ''.join(map(str.lower, s)), functools.reduce(operator.add, s, '')]


@case(T3)
def aggregates(s):
    return [sum(1 for c in s if c == 'a'), any(c == ' ' for c in s), all(map(str.isspace, s)), max(s), min(s),
            sorted(s), sorted(s, reverse=True), max(s.split(' '), key=len), next((c for c in s if c != 'a'), None),
            sum(map(len, s.split())), len({c for c in s}), len(set(s)), sorted(set(s)),
            max(map(len, s.split('\n'))), min((len(x) for x in s.split()), default=-1)]


@case(T3)
def colls(s):
    d = collections.defaultdict(list)
    for i, c in enumerate(s):
        d[c].append(i)
    cnt = collections.Counter(s)
    dq = collections.deque(s, maxlen=2)
    od = collections.OrderedDict((c, None) for c in s)
    return [dict(d), cnt['a'], cnt.most_common(1)[0][1], list(dq), list(od), list(dict.fromkeys(s)),
            {'a': 1, 'b': 2}.get(s[0], 0), s[0] in {'a', 'b'}, s[1] in frozenset('() '), dict(zip(s, 'xyz'))]


@case(T3)
def sets(s):
    a, b = set(s[:2]), set(s[1:])
    return [sorted(a & b), sorted(a | b), sorted(a - b), sorted(a ^ b), a <= b, a.isdisjoint(b),
            a.intersection('ab') == set(), sorted(a.union(b)), sorted(a.difference(['a']))]


@case(T3)
def lists(s):
    xs = list(s)
    r = [xs.index(s[2]), xs.count('a'), ' ' in xs]
    xs.sort(key=str.lower)
    r.append(list(xs))
    xs.insert(0, s)
    xs.extend(s[:1])
    xs.remove(s[0])
    r.append([xs, xs[-1:], xs * 2, xs == list(s), sorted(xs, key=len), sorted(xs, key=lambda x: (len(x), x))])
    del xs[0]
    a, *b = xs
    return r + [a, b]


@case(T3)
def files(s):
    f = io.StringIO()
    f.write(s)
    print(s, 'x', sep='-', file=f)
    g = io.StringIO(s)
    return [f.getvalue(), g.readline(), g.read(), list(io.StringIO(s)), io.StringIO(s).readlines()]


@case(T3)
def encodings(s):
    b = s.encode('utf-8')
    return [len(b), b.decode('utf-8'), len(('é' + s).encode('utf8')), s.encode('ascii', 'replace') == b]


@case('é‹a:S2›')
def encodings2(s):
    return [len(s.encode('utf-8')), s.encode('utf-8').decode('utf-8') == s, len(s.encode('utf-16-le'))]


# -- regular expressions
@case(T3)
def regex(s):
    m = re.match(r'\s*([ab]+)?(.*)', s)
    return [m.group(1), m.groups(), m.span(), m.end(1), re.sub(r'\s+', ' ', s), re.split(r'[ \n]', s),
            re.findall(r'[ab]', s), [x.start() for x in re.finditer(r'\S+', s)],
            bool(re.search(r'\)$', s)), bool(re.fullmatch(r'[ab]*', s))]


@case(T3)
def regex2(s):
    m = re.compile(r'(?P<name>\w+)|(?P<blank>\s)').search(s)
    return [m and m.lastgroup, m and m.groupdict(), m and m.group('name'), m and m[0],
            re.sub('[ab]', lambda m: m.group().upper(), s), re.sub(r'(a)(b)?', r'<\1>', s),
            re.subn('a', 'b', s), re.split(r'(\s)', s), re.split(r'\b', s), re.sub('^', '> ', s, flags=re.M),
            re.findall(r'(a)|(b)', s), re.sub(r'(?<=a)b', '', s), re.sub(r'a(?!b)', 'q', s)]


@case('‹a:x2›zzz‹Z› ‹J›', 9)
def regexrep(s):
    return [re.sub(r'z+', 'y', s), re.findall(r'\w+', s), re.split(r'\s+', s), bool(re.match(r'.{0,8}$', s)),
            len(re.match(r'[^ ]*', s).group()), re.sub('^ *', '', s), s.split()]


@case('‹Z› ‹J›', 30)
def wrap(s):
    return [textwrap.wrap(s, 20), textwrap.fill(s, 25, subsequent_indent='  '), textwrap.indent(s, '  '),
            textwrap.dedent('  ' + s), textwrap.shorten(s, 40)]


# -- numbers and lengths
@case('‹Z› ‹J›', 12)
def lengths(s):
    a, b = (len(x) for x in s.split())
    r = [a + b, a - b, a * 2, a // 3, a % 4, -a, abs(a - b), max(a, b, 5), min(a, b), divmod(a, 4), a == b,
         a < b <= 10, a if a > b else b, bool(a - b), (a + 3) // 4 * 4, -a % 8, -(-a // 8), not a, a & 1, a ** 2]
    return r


@case('‹Z› ‹J›', 7)
def lengths2(s):
    a, b = map(len, s.split())
    return [' ' * a + 'x' * b, list(range(a)), [0] * b, s[a:], s[:b], s[a - 1:a + 1], s[-b:],
            'abcdefghij'[a], list(range(10))[a:b], bisect.bisect([2, 4, 6], a), round(a / 2), a / 4, float(a),
            {1: 'x', 5: 'y'}.get(a), a in (2, 3), a in [b], str(a), '%d' % a, '%3d' % b, '{:02d}'.format(a), f'{a}',
            sum([a, b]), sum(range(a)), any([a == 3, b == 3]), sorted([a, b, 4]), [a, b] < [b, a], (a, 1) <= (b, 0)]


@case('‹Z› ‹J›', 7)
def lengths3(s):
    w = [len(x) for x in s.split()]
    t = 0
    while t + w[0] <= 20:
        t += w[0]
    k = 0
    for i in range(w[1]):
        k += i
    return [t, k, list(itertools.accumulate(w)), functools.reduce(lambda a, b: a * b, w), w.index(max(w)),
            list(zip(w, 'ab')), tuple(w) > (3, 3), max(enumerate(w), key=operator.itemgetter(1))[0],
            operator.add(*w), operator.lt(w[0], w[1]), bool(w[0] == w[1]) + 1, min(w, key=lambda x: -x)]


# -- control flow
class Node(object):
    __slots__ = ('kind', 'text')

    def __init__(self, kind, text=''):
        self.kind, self.text = kind, text

    def __eq__(self, other):
        return (self.kind, self.text) == (other.kind, other.text)

    def __hash__(self):
        return hash((self.kind, self.text))

    @property
    def width(self):
        return len(self.text)

    def __repr__(self):
        return 'Node({!r}, {!r})'.format(self.kind, self.text)


Pair = collections.namedtuple('Pair', 'key value')


def gen(s):
    word = ''
    for c in s:
        if c.isspace():
            if word:
                yield word
            word = ''
        else:
            word += c
    if word:
        yield word


def nested(s):
    yield from gen(s)
    yield from (c for c in s if c == 'a')


@contextlib.contextmanager
def swallow(log):
    try:
        yield log
    except ValueError as ex:
        log.append(type(ex).__name__)
    finally:
        log.append('done')


@case(T3)
def flow(s):
    log = []
    with swallow(log) as l:
        l.append(s.index('a'))
        if s[0] == '(':
            raise ValueError(s)
    try:
        n = int(s)
    except ValueError:
        n = None
    else:
        log.append('int')
    return [list(gen(s)), list(nested(s)), log, n]


@case(T3)
def objects(s):
    ns = [Node('w' if c.isalnum() else 'o', c) for c in s]
    p = Pair(s[0], s)
    table = {'a': lambda: 1, 'b': lambda: 2}
    return [[n.width for n in ns], ns[0] == ns[1], len(set(ns)), repr(ns[0]), p.key, p._replace(key='x'), p == (s[0], s),
            table.get(s[0], lambda: 0)(), [n for n in ns if n in ns[1:]] == [], sorted(p for p in [p, Pair('a', 'b')]),
            list(map(operator.attrgetter('text'), ns)), getattr(p, 'key'), isinstance(s, str), type(s) is str,
            callable(s), s is None, bool(s), id(s) == id(s), isinstance(s, (int, str)), str(s), repr(s)]


@case('‹a:x2›')
def matches(s):
    match s:
        case 'ab':
            r = 1
        case '((' | '))':
            r = 2
        case _ if s.startswith('a'):
            r = 3
        case _:
            r = 0
    match list(s):
        case ['a', x]:
            r2 = x
        case [x, *y] if x == ' ':
            r2 = y
        case _:
            r2 = None
    if (n := s.count('a')) > 1:
        r += 10 * n
    f = [i for i, c in enumerate(s) if (up := c.upper()) == 'B' and up]
    return [r, r2, f]


@case('‹a:x2›')
def scopes(s):
    count = 0

    def inner(c, seen=[]):
        nonlocal count
        count += c == 'a'
        return len(s)
    r = [inner(c) for c in s]
    fns = [functools.partial(str.replace, s, 'a'), lambda x, y=s: x + y]
    cond = 'x' if s[0] == 'a' else ('y' if s[1] in 'ab' else 'z')
    a = s and s[0] or 'q'
    chain = 'a' <= s[0] <= 'b' != s[1]
    return [r, count, fns[0]('Q'), fns[1]('k'), cond, a, chain, not s.strip(), [*s, 'x'], {**{s[0]: 1}}, (lambda *t: t)(*s)]


@case('‹p1:foo|FOO|bar›‹a:K›')
def keyed(s):
    d = {'foof': 1, 'bark': 2, 'fook': 3}
    e = dict(d)
    e[s] = 9
    x = e.pop(s.lower(), None)
    e.setdefault(s.upper(), []).append(1) if s.upper() not in d else None
    return [d.get(s), s in d, s.lower() in d.keys(), sorted(e), x, [k for k in d if k == s], d.get(s.lower(), 0),
            [v for k, v in d.items() if k.startswith(s[:3])], {k.upper(): v for k, v in d.items()}.get(s)]


@case('‹a:x2›')
def formats(s):
    return ['%s-%s' % (s, 1), '%r' % s, '%(a)s' % {'a': s}, '{a}{b}'.format(a=s, b=2), '{0[0]}'.format(s),
            '{:>{w}}'.format(s, w=5), string.Template('x$a').substitute(a=s), f'{s + "x":5}|', f'{len(s):>3}', '%s' % [s],
            str([s]), repr((s, 1)), ', '.join(repr(c) for c in s), '%c' % s[0], '%%%s' % s, ''.join(['a', s] * 2),
            f'{s=}', '{}'.format({s: 1})]


@case('‹a:x2›')
def numbers(s):
    return [ord(s[0]), chr(ord(s[0]) + 1), s[0] * 3, 2 * s, (s + 'x')[1:3], s < s[::-1], hash(s) == hash(s[:]),
            [ord(c) & 1 for c in s], s.encode('utf-8')[0], list(s.encode('utf-8')), bytearray(s, 'utf-8').decode('utf-8')]


@case('1‹a:d2›')
def ints(s):
    m = re.match(r'\d+', s)
    return [int(m.group()), int(m.group()) + 1, s.isdigit(), str(int(m.group()) * 2), '%03d' % int(m.group())]


def tasks(tier):
    corpus.ALPHA['d'] = '079a.'
    return [corpus.task(n, t, {}, hi=hi) for n, t, hi, _ in CASES]


def inputs(S, p):
    return {'s': lib.build(S, p['parts'])}


def run(p, inp):
    fn = [c[3] for c in CASES if c[0] == p['name']][0]
    rt.check(True, '')
    try:
        return fn(inp['s'])
    except (ValueError, IndexError, TypeError, AttributeError, KeyError) as ex:
        import os, traceback
        if os.environ.get('SELFTRACE'):
            open('/tmp/selftrace','a').write(traceback.format_exc())
        return repr(type(ex).__name__)


@case(T3)
def l1(s):
    return {c: s.count(c) for c in s}


@case(T3)
def l2(s):
    return list(reversed(s))


@case(T3)
def l3(s):
    i = 0
    while i < len(s) and s[i].isspace():
        i += 1
    return i


@case(T3)
def l4(s):
    return [(k, s.count(k)) for k in s]


@case(T3)
def l5(s):
    d = {}
    for c in s:
        d[c] = 1
    return list(d)
