"""C03: formatting is idempotent."""
import re
from harness import lib, ref, corpus, fmtbase, templates
from harness.fmtbase import inputs, show, FUNCTIONS
from symex import rt

MISALIGNED = re.compile(r'(?m)^([ \t]*)#[^\n]*\n(?!\1#)[ \t]*#')
OWN = re.compile(r'(?m)^[ \t]*#')
BOUNDS = ''
ASSUMPTIONS = []
BUDGET = {'quick': 150.0, 'thorough': 840.0}


def tasks(tier):
    return templates.idempotent(tier)


def run(p, inp):
    src = inp['src']
    cfg = fmtbase.cfg(inp)
    r = lib.process(cfg, src)
    if r is None:
        raise rt.Skip()
    if ref.read(src) is None:
        raise rt.Skip()
    if not p.get('misaligned'):
        # adjacent comment lines at different columns: recorded finding K01
        if MISALIGNED.search(src):
            raise rt.Skip()
    if p.get('group') and OWN.search(src):
        # own-line comment between two argument groups: recorded finding K02
        raise rt.Skip()
    out = r[0]
    again = lib.process(lib.clone(cfg), out)
    rt.check(again is not None, lambda: 'own output is refused: %r' % out)
    rt.check(again[0] == out, lambda: 'second run differs: %r then %r' % (
        out, again[0]))
    return out
