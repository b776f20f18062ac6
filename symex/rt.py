"""Runtime shared by harnesses.  The same harness source runs in two ways: under
the symbolic executor (transformed source, symbolic inputs) and as plain Python
against the unmodified /repo (replay)."""


class Bad(Exception):
    """the property is violated"""


class Skip(Exception):
    """the input is outside the stated precondition"""


# set by the driver in symbolic mode
IMPL = None


def check(cond, msg=''):
    """assert cond; in symbolic mode the solver searches the current path for
    values that falsify it"""
    if IMPL is not None:
        return IMPL.check(cond, msg)
    if not cond:
        raise Bad(msg() if callable(msg) else msg)


def assume(cond):
    if IMPL is not None:
        return IMPL.assume(cond)
    if not cond:
        raise Skip()


def conj(conds):
    """conjunction without forking"""
    if IMPL is not None:
        return IMPL.conj(conds)
    return all(conds)


def disj(conds):
    if IMPL is not None:
        return IMPL.disj(conds)
    return any(conds)


def neg(c):
    if IMPL is not None:
        return IMPL.neg(c)
    return not c


def inset(ch, chars):
    """one character string in a set, as a formula"""
    if IMPL is not None:
        return IMPL.inset(ch, chars)
    return len(ch) == 1 and ch in chars


def is_ascii(s):
    if IMPL is not None:
        return IMPL.is_ascii(s)
    return all(c <= '\x7f' for c in s)


def symbolic():
    return IMPL is not None


def conc(x):
    """concrete value of x (forks over all of them in symbolic mode)"""
    if IMPL is not None:
        return IMPL.conc(x)
    return x
