"""Path-exhaustive symbolic execution core.

The code under test runs on proxy values (SymInt, SymBool here, SymStr in
strs.py).  Every truth test of a symbolic condition reaches Engine.branch(),
which decides with the solver which sides are feasible under the current path
condition, follows one of them and queues the other.  Paths are explored by
deterministic re-execution from the queued decision prefix.

Formulas are nested tuples:
  ('le', const, ((key, coef), ...))   linear form <= 0
  ('eq', const, ((key, coef), ...))   linear form == 0
  ('in', cid, mask)                   character variable in alphabet subset
  ('ceq', cid1, map1, cid2, map2)     equality of two (case mapped) characters
  ('clt', cid1, map1, cid2, map2)     order of two (case mapped) characters
  ('not', f) ('and', fs) ('or', fs) True False
Keys of linear forms are int variable ids, or ('c', cid, mask) indicators.
"""
import time
import z3

# ---------------------------------------------------------------- alphabet
# sorted, so that indices compare like code points
EXTRA = [0x85, 0xa0, 0xc9, 0xe9, 0x17f, 0x660, 0x2028, 0x212a, 0x3000, 0x4e2d,
         0xfeff, 0x1f600]
ALPH = list(range(128)) + EXTRA
NALPH = len(ALPH)
AIDX = {c: i for i, c in enumerate(ALPH)}
ACHR = [chr(c) for c in ALPH]
AIDX.update({c: i for i, c in enumerate(ACHR)})
FULL = (1 << NALPH) - 1


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << AIDX[ord(c)]
    return m


def mask_pred(pred):
    m = 0
    for i, c in enumerate(ACHR):
        if pred(c):
            m |= 1 << i
    return m


def mask_chars(m):
    out = []
    i = 0
    while m:
        if m & 1:
            out.append(ACHR[i])
        m >>= 1
        i += 1
    return out


def low_bit(m):
    return (m & -m).bit_length() - 1


# case maps: tuple index->index, identified by name
def _casemap(fn):
    out = []
    for c in ACHR:
        d = fn(c)
        if len(d) != 1 or ord(d) not in AIDX:
            d = c
        out.append(AIDX[ord(d)])
    return tuple(out)


CMAPS = {None: tuple(range(NALPH)), 'l': _casemap(str.lower),
         'u': _casemap(str.upper)}
CMAPS['lu'] = tuple(CMAPS['u'][i] for i in CMAPS['l'])   # upper(lower(c))
CMAPS['ul'] = tuple(CMAPS['l'][i] for i in CMAPS['u'])   # lower(upper(c))
_PRE = {}


def preimage(mapname, mask):
    if mapname is None:
        return mask
    k = (mapname, mask)
    r = _PRE.get(k)
    if r is None:
        r = 0
        mp = CMAPS[mapname]
        for i in range(NALPH):
            if mask >> mp[i] & 1:
                r |= 1 << i
        _PRE[k] = r
    return r


class PathAbort(BaseException):
    """The path ends here (infeasible or out of budget)."""


class Limit(BaseException):
    """A per-path resource bound was hit."""


E = None  # the current engine


def cur():
    return E


# ---------------------------------------------------------------- formulas
def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    if f[0] == 'in':
        return ('in', f[1], FULL & ~f[2])
    if f[0] == 'le':
        # not (L <= 0)  <=>  -L + 1 <= 0
        return ('le', 1 - f[1], tuple((k, -c) for k, c in f[2]))
    return ('not', f)


def f_and(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == 'and':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == 'or':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def f_in(cid, mask):
    mask &= FULL
    if mask == FULL:
        return True
    if mask == 0:
        return False
    return ('in', cid, mask)


def _lin(op, const, terms):
    if not terms:
        return const <= 0 if op == 'le' else const == 0
    if len(terms) == 1:
        (k, c), = terms
        if op == 'eq':
            if const % c:
                return False
            return ('eq', const // c, ((k, 1),))
        if c != 1 and c != -1:
            # c*x + const <= 0
            a = abs(c)
            # a*s*x <= -const  ->  s*x <= floor(-const/a)
            return ('le', -((-const) // a), ((k, 1 if c > 0 else -1),))
    elif op == 'eq' and terms[0][1] < 0:
        return ('eq', -const, tuple((k, -c) for k, c in terms))
    return (op, const, terms)


def _key(k):
    return (0, k, 0, 0) if isinstance(k, int) else (1,) + k[1:] + (0,)


def lin_add(a, b, mul=1):
    """a, b: (const, terms)"""
    if not b[1]:
        return (a[0] + mul * b[0], a[1])
    d = dict(a[1])
    for k, c in b[1]:
        v = d.get(k, 0) + mul * c
        if v:
            d[k] = v
        else:
            d.pop(k, None)
    if len(d) > 1:
        for k in d:
            if type(k) is not int:
                t = tuple(sorted(d.items(), key=lambda kv: _key(kv[0])))
                break
        else:
            t = tuple(sorted(d.items()))
    else:
        t = tuple(d.items())
    return (a[0] + mul * b[0], t)


# ---------------------------------------------------------------- proxies
class SymBool(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return E.branch(self.f)

    __nonzero__ = __bool__

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkbool(f_and((self.f, o.f)))
        if o is True:
            return self
        if o is False:
            return False
        return bool(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkbool(f_or((self.f, o.f)))
        if o is True:
            return True
        if o is False:
            return self
        return bool(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def __invert__(self):
        return ~bool(self)

    def __eq__(self, o):
        if o is True:
            return self
        if o is False:
            return mkbool(f_not(self.f))
        if isinstance(o, SymBool):
            return bool(self) == bool(o)
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(f_not(r.f)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return int(bool(self)) < o

    def __gt__(self, o):
        return int(bool(self)) > o

    def __le__(self, o):
        return int(bool(self)) <= o

    def __ge__(self, o):
        return int(bool(self)) >= o

    def __repr__(self):
        return repr(bool(self))

    def __str__(self):
        return str(bool(self))

    def __deepcopy__(self, memo):
        return self


def mkbool(f):
    if f is True or f is False:
        return f
    return SymBool(f)


def lin_of(x):
    if isinstance(x, SymInt):
        return x.l
    if isinstance(x, bool):
        return (int(x), ())
    if isinstance(x, int):
        return (x, ())
    if isinstance(x, SymBool):
        return (int(bool(x)), ())
    return None


def mkint(l):
    if not l[1]:
        return l[0]
    return SymInt(l)


class SymInt(object):
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l

    # arithmetic
    def __add__(self, o):
        l = lin_of(o)
        if l is None:
            return NotImplemented
        return mkint(lin_add(self.l, l))
    __radd__ = __add__

    def __sub__(self, o):
        l = lin_of(o)
        if l is None:
            return NotImplemented
        return mkint(lin_add(self.l, l, -1))

    def __rsub__(self, o):
        l = lin_of(o)
        if l is None:
            return NotImplemented
        return mkint(lin_add(l, self.l, -1))

    def __neg__(self):
        return mkint(lin_add((0, ()), self.l, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __mul__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if isinstance(o, (bool, int)):
            return mkint(lin_add((0, ()), self.l, int(o))) if o else 0
        r = getattr(o, '__sym_rmul__', None)
        if r is not None:
            return r(self)
        if isinstance(o, str):
            from . import strs
            return strs.repeat(o, self)
        if isinstance(o, (list, tuple)):
            return o * self.__index__()
        if isinstance(o, float):
            return self.__index__() * o
        return NotImplemented
    __rmul__ = __mul__

    def __divmod__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return E.divmod(self, o)

    def __rdivmod__(self, o):
        return divmod(o, self.__index__())

    def __floordiv__(self, o):
        if isinstance(o, float):
            return self.__index__() // o
        return self.__divmod__(o)[0]

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, o):
        return self.__divmod__(o)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % self.__index__()

    def __truediv__(self, o):
        return self.__index__() / (o.__index__() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o):
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __and__(self, o):
        return self.__index__() & o
    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | o
    __ror__ = __or__

    def __lshift__(self, o):
        return self.__index__() << o

    def __rshift__(self, o):
        return self.__index__() >> o

    # comparisons
    def __le__(self, o):
        l = lin_of(o)
        if l is None:
            return NotImplemented
        c, t = lin_add(self.l, l, -1)
        return mkbool(_lin('le', c, t))

    def __lt__(self, o):
        l = lin_of(o)
        if l is None:
            return NotImplemented
        c, t = lin_add(self.l, l, -1)
        return mkbool(_lin('le', c + 1, t))

    def __ge__(self, o):
        l = lin_of(o)
        if l is None:
            return NotImplemented
        c, t = lin_add(l, self.l, -1)
        return mkbool(_lin('le', c, t))

    def __gt__(self, o):
        l = lin_of(o)
        if l is None:
            return NotImplemented
        c, t = lin_add(l, self.l, -1)
        return mkbool(_lin('le', c + 1, t))

    def __eq__(self, o):
        l = lin_of(o)
        if l is None:
            if isinstance(o, float):
                return self.__index__() == o
            return False
        c, t = lin_add(self.l, l, -1)
        return mkbool(_lin('eq', c, t))

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(f_not(r.f)) if isinstance(r, SymBool) else not r

    def __bool__(self):
        return E.branch(f_not(_lin('eq', self.l[0], self.l[1])))

    def __index__(self):
        return E.concretize_int(self.l)
    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return repr(self.__index__())

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def bit_length(self):
        return self.__index__().bit_length()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# ---------------------------------------------------------------- engine
class Stats(object):
    __slots__ = ('paths', 'branches', 'queries', 'solver_s', 'lossy', 'unknown',
                 'forced', 'lossy_sites', 'quick_sat', 'quick_unsat')

    def __init__(self):
        self.paths = self.branches = self.queries = 0
        self.solver_s = 0.0
        self.lossy = self.unknown = self.forced = 0
        self.quick_sat = self.quick_unsat = 0
        self.lossy_sites = {}


_ZCACHE = {}
_ZV = {}


def zvar(kind, i):
    k = (kind, i)
    v = _ZV.get(k)
    if v is None:
        v = _ZV[k] = z3.Int('%s%d' % (kind, i))
    return v


def _zmask(v, mask):
    """v is a z3 Int holding the alphabet index"""
    ors = []
    i = 0
    while i < NALPH:
        if mask >> i & 1:
            j = i
            while j + 1 < NALPH and mask >> (j + 1) & 1:
                j += 1
            if i == j:
                ors.append(v == i)
            elif i == 0:
                ors.append(v <= j)
            elif j == NALPH - 1:
                ors.append(v >= i)
            else:
                ors.append(z3.And(v >= i, v <= j))
            i = j + 1
        else:
            i += 1
    if not ors:
        return z3.BoolVal(False)
    return ors[0] if len(ors) == 1 else z3.Or(ors)


def _zimg(v, mapname):
    """the case mapped index"""
    shifts = {}
    for i, j in enumerate(CMAPS[mapname]):
        if i != j:
            shifts.setdefault(j - i, 0)
            shifts[j - i] |= 1 << i
    r = v
    for d, m in sorted(shifts.items()):
        r = z3.If(_zmask(v, m), v + d, r)
    return r


def zf(f):
    if f is True or f is False:
        return z3.BoolVal(f)
    r = _ZCACHE.get(f)
    if r is not None:
        return r
    op = f[0]
    if op in ('le', 'eq'):
        terms = []
        for k, c in f[2]:
            if isinstance(k, int):
                v = zvar('i', k)
            else:
                v = z3.If(_zmask(zvar('c', k[1]), k[2]), z3.IntVal(1), z3.IntVal(0))
            terms.append(v if c == 1 else c * v)
        s = terms[0]
        for t in terms[1:]:
            s = s + t
        r = (s <= -f[1]) if op == 'le' else (s == -f[1])
    elif op == 'in':
        r = _zmask(zvar('c', f[1]), f[2])
    elif op == 'ceq':
        _, a, ma, b, mb = f
        if ma == mb is None:
            r = zvar('c', a) == zvar('c', b)
        else:
            va, vb = zvar('c', a), zvar('c', b)
            A, B = CMAPS[ma], CMAPS[mb]
            byimg = {}
            for i in range(NALPH):
                byimg.setdefault(A[i], [0, 0])[0] |= 1 << i
                byimg.setdefault(B[i], [0, 0])[1] |= 1 << i
            r = z3.Or([z3.And(_zmask(va, x), _zmask(vb, y))
                       for x, y in byimg.values() if x and y])
    elif op == 'clt':
        r = _zimg(zvar('c', f[1]), f[2]) < _zimg(zvar('c', f[3]), f[4])
    elif op == 'not':
        r = z3.Not(zf(f[1]))
    elif op == 'and':
        r = z3.And([zf(x) for x in f[1]])
    elif op == 'or':
        r = z3.Or([zf(x) for x in f[1]])
    else:
        raise ValueError(f)
    if len(_ZCACHE) > 200000:
        _ZCACHE.clear()
    _ZCACHE[f] = r
    return r


def ev(f, m):
    """evaluate a formula under a model dict {('i',id)|('c',id): value}"""
    if f is True or f is False:
        return f
    op = f[0]
    if op == 'le' or op == 'eq':
        s = f[1]
        for k, c in f[2]:
            if isinstance(k, int):
                s += c * m[('i', k)]
            elif k[2] >> m[('c', k[1])] & 1:
                s += c
        return s <= 0 if op == 'le' else s == 0
    if op == 'in':
        return bool(f[2] >> m[('c', f[1])] & 1)
    if op == 'and':
        return all(ev(x, m) for x in f[1])
    if op == 'or':
        return any(ev(x, m) for x in f[1])
    if op == 'not':
        return not ev(f[1], m)
    if op == 'clt':
        return CMAPS[f[2]][m[('c', f[1])]] < CMAPS[f[4]][m[('c', f[3])]]
    if op == 'ceq':
        return CMAPS[f[2]][m[('c', f[1])]] == CMAPS[f[4]][m[('c', f[3])]]
    raise ValueError(f)


def ev_lin(l, m):
    s = l[0]
    for k, c in l[1]:
        if isinstance(k, int):
            s += c * m[('i', k)]
        elif k[2] >> m[('c', k[1])] & 1:
            s += c
    return s


def f_vars(f, out):
    if f is True or f is False:
        return out
    op = f[0]
    if op in ('le', 'eq'):
        for k, _ in f[2]:
            out.add(('i', k) if isinstance(k, int) else ('c', k[1]))
    elif op == 'in':
        out.add(('c', f[1]))
    elif op == 'ceq' or op == 'clt':
        out.add(('c', f[1]))
        out.add(('c', f[3]))
    elif op == 'not':
        f_vars(f[1], out)
    else:
        for x in f[1]:
            f_vars(x, out)
    return out


INF = 1 << 60


def _about_char(f):
    return f[0] == 'in' or (f[0] == 'not' and f[1][0] == 'in')


class Engine(object):
    def __init__(self, prefix=(), stats=None, max_branches=6000, deadline=None):
        self.seed = None
        if type(prefix) is tuple:
            prefix, self.seed = prefix
        self.prefix = list(prefix)
        self.pool = None      # named models of earlier paths
        self._pm = None
        self._pmn = -1
        self.derived = []
        self.lins = []
        self.maxmemo = {}
        self.idx = 0
        self.log = []
        self.pc = []          # formulas assumed on this path
        self.defs = []        # definitional constraints
        self.dom = {}         # cid -> mask
        self.ivl = {}         # iid -> [lo, hi]
        self.linked = set()
        self.known = {}
        self.model = None
        self.pending = []
        self.stats = stats or Stats()
        self.nvars = 0
        self.solver = None
        self.asserted = 0
        self.names = {}
        if self.seed is not None:
            self.model = {}
        self.max_branches = max_branches
        self.deadline = deadline
        self.lossy = 0
        self.hard = False
        self.order = []      # creation order of named inputs
        self.symkeys = False

    # -- variables
    def new_char(self, name=None, mask=FULL):
        i = self.nvars
        self.nvars += 1
        self.dom[i] = mask
        if self.model is not None:
            v = None
            if self.seed is not None and name:
                v = self.seed.get(name)
            self.model[('c', i)] = low_bit(mask) if v is None else v
        if name:
            self.names[name] = ('c', i)
        self._base.append(('in', i, mask) if mask != FULL else
                          ('in', i, FULL))
        return i

    def new_int(self, name=None, lo=None, hi=None, val=None, defs=()):
        """fresh int variable; val is the defining value under a model"""
        i = self.nvars
        self.nvars += 1
        self.ivl[i] = (-INF if lo is None else lo, INF if hi is None else hi)
        if self.model is not None:
            v = None
            if self.seed is not None and name:
                v = self.seed.get(name)
            if v is not None:
                self.model[('i', i)] = v
            elif val is not None:
                self.model[('i', i)] = val(self.model)
            else:
                self.model[('i', i)] = lo if lo is not None else (
                    hi if hi is not None else 0)
        if name:
            self.names[name] = ('i', i)
        else:
            self.derived.append((i, val))
        if lo is not None:
            self._base.append(('le', lo, ((i, -1),)))
        if hi is not None:
            self._base.append(('le', -hi, ((i, 1),)))
        for d in (defs(i) if callable(defs) else defs):
            self._base.append(d)
            f_vars(d, self.linked)
            if d[0] == 'le':
                self.lins.append((dict(d[2]), -d[1]))
            elif d[0] == 'eq':
                self.lins.append((dict(d[2]), -d[1]))
                self.lins.append(({k: -c for k, c in d[2]}, d[1]))
        return SymInt((0, ((i, 1),)))

    _base = None

    def start(self):
        self._base = []
        self._basen = 0

    # -- domain reasoning
    def quick(self, f):
        if f is True or f is False:
            return f
        op = f[0]
        if op == 'in':
            d = self.dom[f[1]]
            x = d & f[2]
            if x == d:
                return True
            if x == 0:
                return False
            return None
        if op == 'le' or op == 'eq':
            lo = hi = f[1]
            for k, c in f[2]:
                if isinstance(k, int):
                    a, b = self.ivl[k]
                else:
                    d = self.dom[k[1]]
                    x = d & k[2]
                    a, b = (1, 1) if x == d else ((0, 0) if x == 0 else (0, 1))
                if c > 0:
                    lo += c * a
                    hi += c * b
                else:
                    lo += c * b
                    hi += c * a
            if op == 'le':
                if hi <= 0:
                    return True
                if lo > 0:
                    return False
            else:
                if lo > 0 or hi < 0:
                    return False
                if lo == hi == 0:
                    return True
            return self.known.get(f)
        if op == 'not':
            r = self.quick(f[1])
            return None if r is None else not r
        if op == 'and':
            allt = True
            for x in f[1]:
                r = self.quick(x)
                if r is False:
                    return False
                if r is None:
                    allt = False
            if allt:
                return True
            return self.known.get(f)
        if op == 'or':
            allf = True
            for x in f[1]:
                r = self.quick(x)
                if r is True:
                    return True
                if r is None:
                    allf = False
            if allf:
                return False
            return self.known.get(f)
        if op == 'clt':
            A, B = CMAPS[f[2]], CMAPS[f[4]]
            if f[1] == f[3] and f[2] == f[4]:
                return False
            a = [A[i] for i in range(NALPH) if self.dom[f[1]] >> i & 1]
            b = [B[i] for i in range(NALPH) if self.dom[f[3]] >> i & 1]
            if max(a) < min(b):
                return True
            if min(a) >= max(b):
                return False
            return self.known.get(f)
        if op == 'ceq':
            if f[1] == f[3] and f[2] == f[4]:
                return True
            da, db = self.dom[f[1]], self.dom[f[3]]
            ia = 0
            A, B = CMAPS[f[2]], CMAPS[f[4]]
            for i in range(NALPH):
                if da >> i & 1:
                    ia |= 1 << A[i]
            ib = 0
            for i in range(NALPH):
                if db >> i & 1:
                    ib |= 1 << B[i]
            if not ia & ib:
                return False
            if ia == ib and ia & (ia - 1) == 0:
                return True
            return self.known.get(f)
        return None

    def reduce(self, f):
        """drop decided parts of and/or under the domains"""
        if f is True or f is False:
            return f
        op = f[0]
        if op in ('and', 'or'):
            parts = []
            for x in f[1]:
                r = self.quick(x)
                if r is None:
                    parts.append(self.reduce(x))
                else:
                    parts.append(r)
            return f_and(parts) if op == 'and' else f_or(parts)
        if op == 'not':
            return f_not(self.reduce(f[1]))
        return f

    def assume(self, f):
        """add f to the path condition"""
        if f is True:
            return
        if f is False:
            raise PathAbort('false')
        op = f[0]
        if op == 'and':
            for x in f[1]:
                self.assume(x)
            return
        self.pc.append(f)
        self.known[f] = True
        self.known[f_not(f)] = False
        if op == 'in':
            d = self.dom[f[1]] & f[2]
            if not d:
                raise PathAbort('domain')
            self.dom[f[1]] = d
            return
        if op in ('le', 'eq') and len(f[2]) == 1:
            (k, c), = f[2]
            if isinstance(k, int):
                lo, hi = self.ivl[k]
                if op == 'eq':
                    v = -f[1] // c
                    lo, hi = max(lo, v), min(hi, v)
                elif c == 1:
                    hi = min(hi, -f[1])
                else:
                    lo = max(lo, f[1])
                self.ivl[k] = (lo, hi)
                if lo > hi:
                    raise PathAbort('interval')
                return
        f_vars(f, self.linked)
        self.hard = True
        if op == 'le':
            self.lins.append((dict(f[2]), -f[1]))
        elif op == 'eq':
            self.lins.append((dict(f[2]), -f[1]))
            self.lins.append(({k: -c for k, c in f[2]}, f[1]))

    def _implied(self, f):
        """cheap sufficient test: f follows from one known linear constraint
        and the variable bounds"""
        if f[0] == 'eq':
            return False
        if f[0] != 'le':
            return False
        T = f[2]
        need = -f[1]
        ivl = self.ivl
        for T1, b1 in self.lins:
            s = b1
            n = 0
            for k, c in T:
                c1 = T1.get(k)
                if c1 is not None:
                    n += 1
                    c -= c1
                    if not c:
                        continue
                if isinstance(k, int):
                    a, b = ivl[k]
                    s += c * (b if c > 0 else a)
                elif c > 0:
                    s += c
            if not n:
                continue
            if n < len(T1):
                kt = dict(T)
                for k, c in T1.items():
                    if k in kt:
                        continue
                    if isinstance(k, int):
                        a, b = ivl[k]
                        s += -c * (a if c > 0 else b)
                    elif c < 0:
                        s -= c
            if s <= need:
                return True
        return False

    def _named(self, m):
        return {n: m[k] for n, k in self.names.items() if k in m}

    def _pool_find(self, f):
        """a model of an earlier path that satisfies this path and f"""
        if not self.pool:
            return None
        if self._pmn != len(self.names):
            self._pm = []
            self._pmn = len(self.names)
            for named in self.pool:
                m = {}
                for n, k in self.names.items():
                    v = named.get(n)
                    if v is None:
                        break
                    m[k] = v
                else:
                    self._pm.append([m, 0, 0])
        pc = self.pc
        dead = None
        for e in self._pm:
            m = e[0]
            if e[1] < len(self.derived):
                for i, val in self.derived[e[1]:]:
                    m[('i', i)] = val(m)
                e[1] = len(self.derived)
            for g in pc[e[2]:]:
                if not ev(g, m):
                    e[2] = -1
                    if dead is None:
                        dead = []
                    dead.append(e)
                    break
            else:
                e[2] = len(pc)
                if ev(f, m):
                    if dead:
                        self._pm = [x for x in self._pm if x[2] >= 0]
                    return m
        if dead:
            self._pm = [x for x in self._pm if x[2] >= 0]
        return None

    def feasible(self, f):
        """is f possible on this path?  -> 'sat' (model in last_model),
        'unsat', 'unknown'"""
        if self._implied(f_not(f)):
            self.stats.quick_unsat += 1
            return 'unsat'
        m = self._pool_find(f)
        if m is not None:
            self.last_model = dict(m)
            self.stats.quick_sat += 1
            return 'sat'
        r = self.check(f)
        if r == 'sat' and self.pool is not None and all(
                v is not None for _, v in self.derived):
            self.pool.append(self._named(self.last_model))
            if len(self.pool) > 64:
                del self.pool[0]
            self._pm and self._pm.append(
                [dict(self.last_model), len(self.derived), len(self.pc)])
        return r

    def _unary_free(self, f):
        """f is a unary constraint on a variable no relational constraint
        mentions; returns the variable key or None"""
        op = f[0]
        if op == 'in':
            k = ('c', f[1])
        elif op in ('le',) and len(f[2]) == 1 and isinstance(f[2][0][0], int):
            k = ('i', f[2][0][0])
        else:
            return None
        return None if k in self.linked else k

    def _fix_model(self, k):
        m = self.model
        if m is None:
            return
        if k[0] == 'c':
            if not self.dom[k[1]] >> m[k] & 1:
                m[k] = low_bit(self.dom[k[1]])
        else:
            lo, hi = self.ivl[k[1]]
            if not lo <= m[k] <= hi:
                m[k] = lo if lo > -INF else hi

    def _refix(self, box):
        m = self.model
        if m is None:
            return
        for c in box:
            if not self.dom[c] >> m[('c', c)] & 1:
                if ('c', c) in self.linked:
                    self.model = None
                    return
                m[('c', c)] = low_bit(self.dom[c])

    # -- solver
    def _sync(self):
        s = self.solver
        if s is None:
            s = self.solver = z3.SimpleSolver()
            s.set('timeout', 20000)
            self._basen = 0
            self.asserted = 0
        b = self._base
        if self._basen < len(b):
            s.add([zf(x) if not (x[0] == 'in' and x[2] == FULL) else
                   z3.And(zvar('c', x[1]) >= 0, zvar('c', x[1]) < NALPH)
                   for x in b[self._basen:]])
            self._basen = len(b)
        if self.asserted < len(self.pc):
            s.add([zf(x) for x in self.pc[self.asserted:]])
            self.asserted = len(self.pc)
        return s

    def check(self, extra=None):
        """returns 'sat'/'unsat'/'unknown' of pc (and extra); on sat stores
        the model in self.last_model"""
        s = self._sync()
        t = time.time()
        if extra is not None:
            s.push()
            s.add(zf(extra))
        r = str(s.check())
        if r == 'sat':
            zm = s.model()
            self.last_model = self._decode(zm)
        if extra is not None:
            s.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == 'unknown':
            self.stats.unknown += 1
        return r

    def _decode(self, zm):
        m = {}
        for i, mask in self.dom.items():
            v = zm[zvar('c', i)]
            m[('c', i)] = v.as_long() if v is not None else low_bit(mask)
        for i, (lo, hi) in self.ivl.items():
            v = zm[zvar('i', i)]
            m[('i', i)] = v.as_long() if v is not None else (
                lo if lo > -INF else (hi if hi < INF else 0))
        return m

    def get_model(self):
        if self.model is None:
            if not self.hard and not self.linked:
                self.model = {('c', i): low_bit(d) for i, d in self.dom.items()}
                for i, (lo, hi) in self.ivl.items():
                    self.model[('i', i)] = lo if lo > -INF else (
                        hi if hi < INF else 0)
            else:
                r = self.check()
                if r != 'sat':
                    raise PathAbort('infeasible ' + r)
                self.model = self.last_model
        return self.model

    # -- branching
    def branch(self, f):
        q = self.quick(f)
        if q is not None:
            return q
        f0 = f
        f = self.reduce(f)
        if f is True or f is False:
            return f
        i = self.idx
        if i < len(self.prefix):
            d = self.prefix[i]
            self.idx = i + 1
            self.log.append(d)
            v = bool(d & 1)
            g = f if v else f_not(f)
            if d < 2 or _about_char(f):
                self.assume(g)
            else:
                self.known[f] = v
            self.known[f0] = v
            return v
        self.idx = i + 1
        st = self.stats
        st.branches += 1
        if len(self.log) >= self.max_branches:
            raise Limit('branches')
        if self.deadline is not None and time.time() > self.deadline:
            raise Limit('deadline')
        k = self._unary_free(f)
        if k is not None:
            v = True
            if self.model is not None:
                v = ev(f, self.model)
            seed = None
            if self.model is not None:
                seed = self._named(self.model)
                for n, kk in self.names.items():
                    if kk == k:
                        seed[n] = self._other_value(k, f_not(f) if v else f)
                        break
            self.pending.append((self.log + [0 if v else 1], seed))
            self.log.append(1 if v else 0)
            self.assume(f if v else f_not(f))
            self._fix_model(k)
            self.known[f0] = v
            return v
        m = self.get_model()
        v = ev(f, m)
        other = f_not(f) if v else f
        r = self.feasible(other)
        if r == 'unsat':
            self.log.append(3 if v else 2)
            st.forced += 1
            if _about_char(f):
                # implied, but the domain gets smaller
                self.assume(f if v else f_not(f))
            self.known[f] = v
            self.known[f0] = v
            return v
        self.pending.append((self.log + [0 if v else 1],
                             self._named(self.last_model) if r == 'sat' else None))
        self.log.append(1 if v else 0)
        self.assume(f if v else f_not(f))
        self.known[f0] = v
        return v

    def _other_value(self, k, f):
        if k[0] == 'c':
            return low_bit(self.dom[k[1]] & (f[2] if f[0] == 'in' else
                                             FULL & ~f[1][2]))
        lo, hi = self.ivl[k[1]]
        if f[2][0][1] == 1:
            return lo if lo > -INF else -f[1]
        return max(lo, f[1])

    def concretize_int(self, l):
        if not l[1]:
            return l[0]
        while True:
            if len(l[1]) == 1 and isinstance(l[1][0][0], int):
                k, c = l[1][0]
                lo, hi = self.ivl[k]
                if lo == hi:
                    return l[0] + c * lo
            # the value to try must be the same on replay: take it from the
            # recorded decision
            i = self.idx
            if i < len(self.prefix):
                d = self.prefix[i]
                assert isinstance(d, tuple), d
                self.idx += 1
                self.log.append(d)
                v = d[0]
            else:
                v = ev_lin(l, self.get_model())
                self.idx += 1
                self.log.append((v,))
            if self.branch(_lin('eq', l[0] - v, l[1])):
                return v

    def concretize_char(self, cid):
        no = 0
        while True:
            d = self.dom[cid] & ~no
            if not d:
                raise PathAbort('infeasible')
            v = low_bit(d)
            if d & (d - 1) == 0 and not no:
                return ACHR[v]
            if self.branch(f_in(cid, 1 << v)):
                return ACHR[v]
            no |= 1 << v

    def note_lossy(self, why):
        self.lossy += 1
        self.stats.lossy += 1
        self.stats.lossy_sites[why] = self.stats.lossy_sites.get(why, 0) + 1

    def lossy_int(self, l, why='int'):
        if not l[1]:
            return l[0]
        v = self._pick(lambda: ev_lin(l, self.get_model()))
        self.assume_checked(_lin('eq', l[0] - v, l[1]))
        self.note_lossy(why)
        return v

    def lossy_char(self, cid, why='char'):
        d = self.dom[cid]
        if d & (d - 1) == 0:
            return ACHR[low_bit(d)]
        v = self._pick(lambda: self.get_model()[('c', cid)])
        self.assume_checked(f_in(cid, 1 << v))
        self.note_lossy(why)
        return ACHR[v]

    def _pick(self, fn):
        i = self.idx
        if i < len(self.prefix):
            d = self.prefix[i]
            self.idx += 1
            self.log.append(d)
            return d[0]
        v = fn()
        self.idx += 1
        self.log.append((v,))
        return v

    def assume_checked(self, f):
        q = self.quick(f)
        if q is True:
            return
        if q is False:
            raise PathAbort('assume')
        self.assume(f)

    def require(self, f):
        """harness assumption; ends the path when it cannot hold"""
        if isinstance(f, SymBool):
            f = f.f
        if f is True:
            return
        if f is False:
            raise PathAbort('assume')
        if not self.branch(f):
            raise PathAbort('assume')

    def pre(self, f):
        """harness precondition stated before any code runs (no fork)"""
        if isinstance(f, SymBool):
            f = f.f
        self.assume(f)

    # -- derived ints
    def divmod(self, x, o):
        l = x.l
        n = len(l[1])
        if n == 1 and isinstance(l[1][0][0], int):
            lo, hi = self.ivl[l[1][0][0]]
            if lo > -INF and hi < INF and hi - lo <= 2:
                return divmod(x.__index__(), o)
        got = self.maxmemo.get(('divmod', l, o))
        if got is not None:
            return got
        q = self.new_int(val=lambda m: ev_lin(l, m) // o)
        qi = q.l[1][0][0]

        def rdefs(ri):
            # l - o*q - r == 0
            c, t = lin_add(l, (0, ((qi, o),)), -1)
            c, t = lin_add((c, t), (0, ((ri, 1),)), -1)
            return [_lin('eq', c, t)]
        lo, hi = (0, o - 1) if o > 0 else (o + 1, 0)
        r = self.new_int(lo=lo, hi=hi, val=lambda m: ev_lin(l, m) % o,
                         defs=rdefs)
        self.hard = True
        # bounds of q from bounds of x
        a, b = self.bounds(l)
        if a > -INF and b < INF and o > 0:
            self.ivl[qi] = (a // o, b // o)
        self.maxmemo[('divmod', l, o)] = (q, r)
        return q, r

    def bounds(self, l):
        lo = hi = l[0]
        for k, c in l[1]:
            if isinstance(k, int):
                a, b = self.ivl[k]
            else:
                a, b = 0, 1
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return max(lo, -INF), min(hi, INF)

    def maximum(self, xs, sign=1):
        """max (sign=1) or min (sign=-1) of a list with symbolic ints, merged
        into one fresh variable when the order is not decided"""
        best = xs[0]
        for x in xs[1:]:
            a, b = lin_of(best), lin_of(x)
            d = lin_add(a, b, -1)          # best - x
            ge = _lin('le', -d[0], tuple((k, -c) for k, c in d[1]))  # best>=x
            q = self.quick(ge)
            if q is not None:
                if sign == 1:
                    best = best if q else x
                else:
                    best = x if q else best
                continue
            la, lb = a, b
            mk = (sign, la, lb)
            got = self.maxmemo.get(mk)
            if got is None:
                got = self.maxmemo.get((sign, lb, la))
            if got is not None:
                best = got
                continue
            if ge is not True and ge is not False:
                if self._implied(ge):
                    q = True
                elif self._implied(f_not(ge)):
                    q = False
                if q is not None:
                    self.known[ge] = q
                    if sign == 1:
                        best = best if q else x
                    else:
                        best = x if q else best
                    continue
            if sign == 1:
                val = lambda m, la=la, lb=lb: max(ev_lin(la, m), ev_lin(lb, m))
            else:
                val = lambda m, la=la, lb=lb: min(ev_lin(la, m), ev_lin(lb, m))

            def defs(i, la=la, lb=lb):
                me = (0, ((i, 1),))
                out = []
                eqs = []
                for l in (la, lb):
                    c, t = lin_add(l, me, -1) if sign == 1 else lin_add(me, l, -1)
                    out.append(_lin('le', c, t))
                    eqs.append(_lin('eq', c, t))
                out.append(f_or(eqs))
                return [x for x in out if x is not True]
            (l1, h1), (l2, h2) = self.bounds(la), self.bounds(lb)
            if sign == 1:
                lo, hi = max(l1, l2), max(h1, h2)
            else:
                lo, hi = min(l1, l2), min(h1, h2)
            best = self.new_int(lo=None if lo <= -INF else lo,
                                hi=None if hi >= INF else hi,
                                val=val, defs=defs)
            self.maxmemo[mk] = best
            self.hard = True
        return best


def explore_one(fn, prefix, stats, max_branches=6000, deadline=None, pool=None):
    """Run fn(engine) along prefix.  Returns (engine, outcome) where outcome is
    ('ok', value) | ('abort', why) | ('limit', why)"""
    global E
    e = Engine(prefix, stats, max_branches, deadline)
    e.pool = pool
    e.start()
    old = E
    E = e
    try:
        try:
            v = fn(e)
            out = ('ok', v)
        except PathAbort as ex:
            out = ('abort', str(ex))
        except Limit as ex:
            out = ('limit', str(ex))
        except RecursionError:
            out = ('limit', 'recursion')
    finally:
        E = old
    stats.paths += 1
    return e, out
