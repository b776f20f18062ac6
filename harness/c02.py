"""C02: every comment is preserved, none swallows code."""
from harness import lib, ref, corpus, fmtbase, templates
from harness.fmtbase import inputs, show, FUNCTIONS
from symex import rt

BOUNDS = ''
ASSUMPTIONS = []
BUDGET = {'quick': 150.0, 'thorough': 840.0}


def tasks(tier):
    return templates.commented(tier)


def run(p, inp):
    src = inp['src']
    r = lib.process(fmtbase.cfg(inp), src)
    if r is None:
        raise rt.Skip()
    a = ref.read(src)
    if a is None:
        raise rt.Skip()
    out = r[0]
    b = ref.read(out)
    rt.check(b is not None, lambda: 'output is not a valid listfile: %r' % out)
    rt.check(ref.same(ref.with_comments(a), ref.with_comments(b)),
             lambda: 'comments changed: %r' % out)
    return out
