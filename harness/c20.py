"""C20: line-level lint reports exactly the offending lines."""
from cmakelang.lint import __main__ as lint_main
from cmakelang.lint import lint_util
from harness import lib, ref, corpus, fmtbase
from harness.corpus import task
from harness.fmtbase import inputs, show
from symex import rt

FUNCTIONS = ['lint.__main__.process_file', 'lint.basic_checker.LintChecker.check_basics',
             'lint.lint_util.FileContext']
BOUNDS = ''
ASSUMPTIONS = ['a carriage return in the middle of a line, form feed and other exotic blanks are outside']
BUDGET = {'quick': 120.0, 'thorough': 840.0}
CODES = ('C0301', 'C0303', 'C0304', 'C0306', 'C0327')
LE = {'format.line_ending': ['unix', 'windows', 'auto']}
W = {'format.line_width': ('i', 4, 40)}
TAB = {'format.use_tabchars': 'b', 'format.fractional_tab_policy': ['use-space', 'round-up']}
NL = ':\n|\r\n›'


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, tpl, *opts, **kw):
        o = {}
        for x in opts:
            o.update(x)
        T.append(task('B.' + name, tpl, o, **kw))
    add('endings', '‹p1' + NL + 'foo()‹p2' + NL + '# a‹p3' + NL + 'foo()‹p4:|\n|\r\n›', LE)
    add('blanks', 'foo(a)‹b:b2›‹p1' + NL + '‹c:b2›‹p2' + NL + '# a‹d:b›‹p3' + NL + 'foo()‹e:b›', LE)
    add('width', 'foo(‹Z›)‹p1' + NL + '# ‹Y›‹p2' + NL + '"foo"(‹J›)'.replace('"foo"', 'foo'), W, LE, hi=40)
    add('width2', 'foo(‹Z›\n‹J›  # ‹Y›‹b:b›\n)\n', W, hi=40)
    add('widthu', 'foo(é‹Z›中)\n#[[‹J›‹b:b›‹Y›\n]]\n', W, hi=40)
    add('indent', 'if(a)\n‹a:b%d›foo()\n‹b:b›  ‹c:b›foo()\nendif()\n' % (2 if q else 3), TAB)
    add('indent2', '‹a:b2›foo("‹b:S›\n‹c:b2›x")‹d:b›\n', TAB)
    add('inside', '#[[‹a:S%d›]]\nfoo([=[‹b:S›\n‹c:S›]=])\n' % (2 if q else 3), TAB, W)
    add('final', 'foo()‹a:b2›#‹c:c›')
    add('final2', 'foo()‹p1:|\n|\r\n|\n\n|\r\n\n›‹p2:| |\t|#|\n›', LE)
    add('many', 'foo(  ‹a:b›\n)‹b:b›\n‹c:b2›\n\n# ‹Y›‹d:b›\n', W, TAB, hi=10)
    add('string', 'foo("‹Z›‹p1: \n|\t\r\n|\r\n|\n›‹J› ‹p2:\n|\r\n›  \t" )\r\n', W, LE, TAB, hi=30)
    add('crs', 'foo()‹p1:\n|\r\n|\r\r\n| \r\r\n|\r\r\r\n›# a‹p2:\n|\r\n|\r\r\n›#[[‹p3:\r\r\n| \r\n›]]\n', LE, W)
    if not q:
        add('free', '#[[‹a:S2›‹p1' + NL + '‹b:S2›‹p2' + NL + '‹c:S›]]\n', W, TAB, LE)
        add('widths', 'foo(‹Z›‹a:b›‹J›)‹p1' + NL + '# ‹Y›‹b:b›‹Q›‹p2' + NL + '#[[‹K›‹c:b›‹X›‹p3' + NL + ']]\n',
            W, LE, hi=60)
    return T


def expected(src, fmt):
    """(line number, code) of every defect"""
    out = []
    le = fmt.get('line_ending', 'unix')
    if le == 'auto':
        win = src.count('\r\n')
        le = 'windows' if win > src.count('\n') - win else 'unix'
    lines = src.split('\n')
    n = len(lines)
    for i, line in enumerate(lines):
        last = i == n - 1
        if not last:
            if line[-1:] == '\r':
                line = line[:-1]
                if le == 'unix':
                    out.append((i + 1, 'C0327'))
            elif le == 'windows':
                out.append((i + 1, 'C0327'))
        if len(line) > fmt.get('line_width', 80):
            out.append((i + 1, 'C0301'))
        if line[-1:] == ' ' or line[-1:] == '\t' or (line[-1:] == '\r' and not last):
            out.append((i + 1, 'C0303'))
        ind = line[:len(line) - len(line.lstrip(' \t'))]
        if not fmt.get('use_tabchars', False):
            bad = '\t' in ind
        elif fmt.get('fractional_tab_policy', 'use-space') == 'round-up':
            bad = ' ' in ind
        else:
            bad = ' \t' in ind
        if bad:
            out.append((i + 1, 'C0306'))
    if src[-1:] != '\n':
        out.append((n, 'C0304'))
    return out


def warm():
    lint_util.GlobalContext(None)


def run(p, inp):
    src = inp['src']
    cfg = fmtbase.cfg(inp)
    glob = lint_util.GlobalContext(None)
    try:
        # the numbers in the message are not part of the property
        glob.lintdb['C0301'].msgfmt = 'Line too long'
    except (AttributeError, KeyError, TypeError):
        pass
    ctx = glob.get_file_ctx('CMakeLists.txt', cfg)
    try:
        lint_main.process_file(cfg, ctx, src)
    except lib.REFUSED:
        raise rt.Skip()
    got = []
    for r in ctx.get_lint():
        if r.spec.idstr in CODES:
            got.append((r.location[0], r.spec.idstr))
    want = expected(src, inp['opts'].get('format', {}))
    rt.check(sorted(got) == sorted(want),
             lambda: 'reported %r, expected %r' % (sorted(got), sorted(want)))
    rt.check(got == sorted(got, key=lambda x: x[0]), lambda: 'not in line order: %r' % got)
    return got
