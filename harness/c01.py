"""C01: formatting preserves commands, arguments, order and nesting."""
from harness import lib, ref, corpus, fmtbase, templates
from harness.fmtbase import inputs, show, FUNCTIONS
from symex import rt

BOUNDS = ''
ASSUMPTIONS = []
BUDGET = {'quick': 150.0, 'thorough': 840.0}


def tasks(tier):
    return templates.program(tier)


def run(p, inp):
    src = inp['src']
    r = lib.process(fmtbase.cfg(inp), src)
    if r is None:
        raise rt.Skip()
    a = ref.read(src)
    if a is None:
        raise rt.Skip()
    out = r[0]
    b = ref.read(out)
    rt.check(b is not None, lambda: 'output is not a valid listfile: %r' % out)
    rt.check(ref.same(ref.code(a), ref.code(b)),
             lambda: 'different program: %r' % out)
    return out
