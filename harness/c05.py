"""C05: a layout reported as valid fits the line width."""
from harness import lib, ref, corpus, fmtbase, templates
from harness.fmtbase import inputs, show, FUNCTIONS
from symex import rt

BOUNDS = ''
ASSUMPTIONS = []
BUDGET = {'quick': 150.0, 'thorough': 840.0}


def tasks(tier):
    return templates.fitting(tier)


def run(p, inp):
    src = inp['src']
    cfg = fmtbase.cfg(inp)
    r = lib.process(cfg, src)
    if r is None:
        raise rt.Skip()
    out, valid = r
    if not valid:
        return [out, False]
    lines = out.split('\n')
    for line in lines:
        rt.check(len(line) <= cfg.format.line_width,
                 lambda: 'line of %d columns, width %d, layout reported valid: %r'
                 % (len(line), cfg.format.line_width, line))
    return [out, True]
