"""C29: calls of CMake's own commands are read as documented."""
import re

from cmakelang import configuration
from cmakelang.lint import __main__ as lint_main
from cmakelang.lint import lint_util
from harness import c22, lib, ref, usage
from symex import rt

FUNCTIONS = ['parse.funs.*', 'parse.argument_nodes.*', 'parse.additional_nodes.*', 'parse.util.*',
             'lint.__main__.process_file', 'format.__main__.process_file']
BOUNDS = ''
ASSUMPTIONS = ['the usages are those of CMake 3.14, written down in harness/usage.py; at most two neighbouring '
               'optional parts at once; flow control, modules, string(REGEX/COMPARE/RANDOM/UUID) and paths given to the find commands without NAMES are outside']
BUDGET = {'quick': 120.0, 'thorough': 500.0}
ERRORS = ('E1120', 'E1121', 'E1122', 'E1125', 'E1126', 'C0114')
SHAPES = ['w%d{}', '"w%d {}"', '${w%d{}}', '$<w%d:{}>']


def parse(toks, end=''):
    """-> [item]: ('word', lo, hi) ('key', name, [item]|None) ('opt', [item]) ('one', [[item]])"""
    out = []
    while toks and toks[0] not in (end, '|') if end == '>' else toks and toks[0] != end:
        t = toks.pop(0)
        if t == '[':
            out.append(('opt', parse(toks, ']')))
            toks.pop(0)
        elif t == '<':
            alts = []
            while True:
                alts.append(parse(toks, '>'))
                if toks.pop(0) == '>':
                    break
            if toks and toks[0] == '(':
                # <A|B>(...): what follows belongs to each
                toks.pop(0)
                sub = parse(toks, ')')
                toks.pop(0)
                alts = [[('key', a[0][1], sub)] for a in alts]
            out.append(('one', alts))
        elif t == '/':
            out.append(('bar',))
        elif t.upper() == t:
            sub = None
            if toks and toks[0] == '(':
                toks.pop(0)
                sub = parse(toks, ')')
                toks.pop(0)
            out.append(('key', t, sub))
        else:
            out.append(('word', 0 if t[-1] == '*' else 1, {'+': 3, '*': 2}.get(t[-1], 1)))
    return out


def lines():
    res = []
    for line in usage.USAGE.strip().split('\n'):
        name, rest = line.split(': ', 1) if ': ' in line else (line.rstrip(':'), '')
        res.append((name, parse(re.findall(r'[][()<>|/]|[^][()<>|/\s]+', rest)), line))
    return res


def tasks(tier):
    T = []
    n = {}
    for name, form, line in lines():
        n[name] = n.get(name, 0) + 1
        T.append({'name': '%s-%d' % (name, n[name]), 'weight': 1.0 + line.count('['),
                  'params': {'command': name, 'form': form, 'pairs': 2 if tier == 'quick' else 3},
                  'bounds': '%s; each optional part present or not, at most %d of a row at once, in '
                            'any order' % (line, 2 if tier == 'quick' else 3)})
    return T


class Gen(object):
    """makes a call; the choices are unknown"""

    def __init__(self, S, pairs):
        self.S = S
        self.n = 0
        self.pairs = pairs
        self.words = 0
        self.shape = S.pick('shape', SHAPES)
        self.char = S.char('c', 'aQz_-.')
        self.more = int(S.pick('more', ['0', '1', '2']))
        self.out = []

    def fresh(self):
        self.n += 1
        return 'o%d' % self.n

    def row(self, opts, path):
        left = list(range(len(opts)))
        n = self.pairs if self.shape == SHAPES[0] and not path else 1
        for _ in range(min(n, len(opts))):
            i = self.S.pick(self.fresh(), ['-'] + [str(x) for x in left])
            if i == '-':
                break
            left.remove(int(i))
            self.seq(opts[int(i)][1], path)

    def seq(self, form, path):
        row = []
        for x in form:
            if x[0] == 'opt':
                row.append(x)
                continue
            if row:
                self.row(row, path)
                row = []
            if x[0] != 'bar':
                self.item(x, path)
        if row:
            self.row(row, path)

    def item(self, x, path):
        if x[0] == 'word':
            for _ in range(min(x[1] + self.more, x[2])):
                self.words += 1
                t = self.shape.replace('%d', str(self.words % 10))
                a, b = t.split('{}')
                self.out.append((a + self.char + b, path, 'A'))
        elif x[0] == 'one':
            i = self.S.pick(self.fresh(), [str(k) for k in range(len(x[1]))])
            self.seq(x[1][int(i)], path)
        else:
            self.out.append((x[1], path, 'K'))
            if x[2]:
                self.seq(x[2], path + (len(self.out) - 1,))


def inputs(S, p):
    g = Gen(S, p['pairs'])
    g.seq(p['form'], ())
    return {'words': g.out}


def source(p, inp):
    return p['command'] + '(' + ' '.join([w[0] for w in inp['words']]) + ')\n'


def show(p, inp):
    return source(p, inp)


def warm():
    cfg = configuration.Configuration()
    c22.tree(cfg, 'foo()\nadd_library(x)\nset(x)\n')
    lib.process(cfg, 'foo()\n')


BLOCKS = {'foreach': 'endforeach()\n', 'function': 'endfunction()\n', 'macro': 'endmacro()\n'}


def run(p, inp):
    src = source(p, inp) + BLOCKS.get(p['command'], '')
    cfg = configuration.Configuration(keyword_case='lower', enable_markup=False)
    ctx = lint_util.GlobalContext(None).get_file_ctx('CMakeLists.txt', cfg)
    lint_main.process_file(cfg, ctx, src)
    for x in ctx.get_lint():
        rt.check(x.spec.idstr not in ERRORS, lambda: '%s reported for %r' % (x.spec.idstr, src))
    want = inp['words']
    got = c22.actual(c22.statement(c22.tree(cfg, src)))
    rt.check(len(got) == len(want), lambda: 'words of %r' % src)
    for g, w in zip(got, want):
        rt.check(g[0] == w[0], 'words out of order')
        rt.check((g[2] == 'K' or bool(g[3])) == (w[2] == 'K'), lambda: '%r is %s in %r' % (
            w[0], 'an argument' if w[2] == 'K' else 'a keyword', src))
        rt.check(g[1] == w[1], lambda: '%r belongs to %r in %r' % (
            w[0], [got[i][0] for i in g[1]], src))
    r = lib.process(cfg, src)
    rt.check(r is not None, 'refused')
    items = ref.read(r[0])
    out = [x[1] for x in items[:c22._close(items)] if x[0] == 'arg']
    rt.check(len(out) == len(want), lambda: 'formatted %r' % r[0])
    for o, w in zip(out, want):
        rt.check(o == (w[0].lower() if w[2] == 'K' else w[0]), lambda: '%r written as %r' % (w[0], o))
    return [c22.flat(got), r[0]]
