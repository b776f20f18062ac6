"""Symbolic strings: a tuple of units, each a concrete one-character str, a
Ch (one unknown character, possibly case mapped) or a Rep (a concrete character
repeated a symbolic number of times, at least once)."""
import string as _string
from . import core
from .core import (SymInt, SymBool, mkbool, mkint, lin_of, lin_add, _lin, f_in,
                   f_and, f_or, f_not, AIDX, ACHR, NALPH, FULL, CMAPS, preimage,
                   mask_of, mask_pred, Limit)


class Ch(object):
    __slots__ = ('cid', 'cm')

    def __init__(self, cid, cm=None):
        self.cid = cid
        self.cm = cm

    def __eq__(self, o):
        return isinstance(o, Ch) and o.cid == self.cid and o.cm == self.cm

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.cid, self.cm))

    def __repr__(self):
        return '<ch%d%s>' % (self.cid, self.cm or '')

    def inmask(self, mask):
        return f_in(self.cid, preimage(self.cm, mask))

    def img(self):
        """mask of possible values"""
        d = core.E.dom[self.cid]
        if self.cm is None:
            return d
        mp = CMAPS[self.cm]
        r = 0
        for i in range(NALPH):
            if d >> i & 1:
                r |= 1 << mp[i]
        return r


class Rep(object):
    __slots__ = ('c', 'n')

    def __init__(self, c, n):
        self.c = c
        self.n = n        # lin form

    def __eq__(self, o):
        return isinstance(o, Rep) and o.c == self.c and o.n == self.n

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.c, self.n))

    def __repr__(self):
        return '<%r*%r>' % (self.c, self.n)


def resolve(u):
    """normalise one unit under the current path: singletons become str"""
    if type(u) is Ch:
        m = u.img()
        if m & (m - 1) == 0:
            return ACHR[core.low_bit(m)]
    return u


def mk(units):
    units = tuple(units)
    for u in units:
        if type(u) is not str:
            break
    else:
        return ''.join(units)
    return SymStr(units)


def mknorm(units):
    return mk([resolve(u) if type(u) is Ch else u for u in units])


def units_of(s):
    if isinstance(s, SymStr):
        return s.u
    if isinstance(s, str):
        return tuple(s)
    return None


def repeat(s, n):
    """s * n with n SymInt"""
    if len(s) == 0:
        return ''
    lo, hi = core.E.bounds(n.l)
    if lo == hi:
        return s * lo
    if len(s) != 1:
        return s * n.__index__()
    if lo < 1:
        if not core.E.branch(_lin('le', 1 - n.l[0],
                                  tuple((k, -c) for k, c in n.l[1]))):
            return ''
    return SymStr((Rep(s, n.l),))


def ulen(units):
    c = 0
    l = None
    for u in units:
        if type(u) is Rep:
            l = u.n if l is None else lin_add(l, u.n)
        else:
            c += 1
    if l is None:
        return c
    return mkint((l[0] + c, l[1]))


def unit_mask_formula(u, mask):
    """formula: unit (char) in mask; for Rep: its char"""
    if type(u) is str:
        i = AIDX.get(u)
        if i is None:
            raise Limit('alphabet %r' % u)
        return bool(mask >> i & 1)
    if type(u) is Ch:
        return u.inmask(mask)
    return bool(mask >> AIDX[u.c] & 1)


def unit_eq(a, b):
    """equality formula of two single-character units"""
    ta, tb = type(a), type(b)
    if ta is str:
        if tb is str:
            return a == b
        i = AIDX.get(a)
        return False if i is None else b.inmask(1 << i)
    if tb is str:
        i = AIDX.get(b)
        return False if i is None else a.inmask(1 << i)
    if a.cid == b.cid and a.cm == b.cm:
        return True
    if a.cid == b.cid:
        A, B = CMAPS[a.cm], CMAPS[b.cm]
        return f_in(a.cid, sum(1 << i for i in range(NALPH) if A[i] == B[i]))
    if (a.cid, a.cm or '') > (b.cid, b.cm or ''):
        a, b = b, a
    return ('ceq', a.cid, a.cm, b.cid, b.cm)


def _runs(us):
    """[(char, lin)] or (Ch, None); adjacent equal concrete chars merged"""
    out = []
    for u in us:
        u = resolve(u)
        if type(u) is str:
            c, n = u, (1, ())
        elif type(u) is Rep:
            c, n = u.c, u.n
        else:
            out.append((u, None))
            continue
        if out and out[-1][0] == c and out[-1][1] is not None:
            out[-1] = (c, lin_add(out[-1][1], n))
        else:
            out.append((c, n))
    return out


def eq_formula(a, b):
    """formula for equality of two unit tuples (may fork when unknown
    characters meet runs of symbolic length)"""
    ra = any(type(u) is Rep for u in a)
    rb = any(type(u) is Rep for u in b)
    if not ra and not rb:
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            if x is y:
                continue
            f = unit_eq(x, y)
            if f is False:
                return False
            if f is not True:
                if core.E is not None and core.E.quick(f) is False:
                    return False
                fs.append(f)
        return f_and(fs)
    A, B = _runs(a), _runs(b)
    # decide unknown characters next to runs by forking
    amb = False
    for r in (A, B):
        for i, (c, n) in enumerate(r):
            if n is None:
                amb = True
    if amb:
        # resolve: strip equal prefix/suffix, then decide remaining unknowns
        while A and B and A[0] == B[0]:
            A.pop(0)
            B.pop(0)
        while A and B and A[-1] == B[-1]:
            A.pop()
            B.pop()
        if A and B and A[0][0] == B[0][0] and A[0][1] is not None and \
                B[0][1] is not None and len(A) == len(B) == 1:
            pass
        repchars = set(c for r in (A, B) for c, n in r if n is not None and n[1])
        if repchars:
            reps = mask_of(repchars)
            again = False
            for r in (A, B):
                for c, n in r:
                    if n is None:
                        if core.E.quick(c.inmask(reps)) is not False:
                            for ch in repchars:
                                if core.E.branch(c.inmask(1 << AIDX[ch])):
                                    again = True
            if again:
                return eq_formula(_unruns(A), _unruns(B))
    fs = []
    i = j = 0
    A, B = list(A), list(B)
    while i < len(A) and j < len(B):
        ca, na = A[i]
        cb, nb = B[j]
        if na is None or nb is None:
            # single unknown against one char of the other side
            ua = ca
            ub = cb
            f = unit_eq(ua, ub)
            if f is False:
                return False
            fs.append(f)
            if na is None:
                i += 1
            else:
                A[i] = (ca, lin_add(na, (1, ()), -1))
                if A[i][1] == (0, ()):
                    i += 1
            if nb is None:
                j += 1
            else:
                B[j] = (cb, lin_add(nb, (1, ()), -1))
                if B[j][1] == (0, ()):
                    j += 1
            continue
        if ca != cb:
            return False
        c, t = lin_add(na, nb, -1)
        if not t and c != 0:
            # constant difference: only possible when an unknown follows
            d = abs(c)
            if c > 0:
                A[i] = (ca, (d, ()))
                j += 1
            else:
                B[j] = (cb, (d, ()))
                i += 1
            # otherwise the strings differ
            nx = B[j] if c > 0 and j < len(B) else (
                A[i] if c < 0 and i < len(A) else None)
            if nx is None or nx[1] is not None:
                return False
            continue
        f = _lin('eq', c, t)
        if f is False:
            return False
        fs.append(f)
        i += 1
        j += 1
    if i < len(A) or j < len(B):
        return False
    return f_and(fs)


def _unruns(r):
    out = []
    for c, n in r:
        if n is None:
            out.append(c)
        elif not n[1]:
            out.extend(c * n[0])
        else:
            out.append(Rep(c, n))
    return tuple(out)


WS = mask_pred(str.isspace)
LB = mask_pred(lambda c: len(('a' + c + 'a').splitlines()) > 1)
MASK1 = {c: 1 << i for i, c in enumerate(ACHR)}


def _bool(f):
    return core.E.branch(f) if not isinstance(f, bool) else f


class SymStr(object):
    __slots__ = ('u',)

    def __init__(self, u):
        self.u = u

    # -- basics
    def sym_len(self):
        return ulen(self.u)

    def __len__(self):
        n = ulen(self.u)
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        return bool(self.u)

    def __eq__(self, o):
        b = units_of(o)
        if b is None:
            return NotImplemented
        return mkbool(eq_formula(self.u, b))

    def __ne__(self, o):
        b = units_of(o)
        if b is None:
            return NotImplemented
        return mkbool(f_not(eq_formula(self.u, b)))

    def __hash__(self):
        if core.E is None or not core.E.symkeys:
            # hashing decides the string
            return hash(self.concretize())
        return 7

    def _cmp(self, o):
        """-1, 0, 1 by forking"""
        b = units_of(o)
        A, B = list(self.u), list(b)
        i = 0
        while True:
            if i >= len(A) or i >= len(B):
                return (len(A) > len(B)) - (len(A) < len(B))
            x, y = resolve(A[i]), resolve(B[i])
            if type(x) is Rep and type(y) is Rep and x.c == y.c:
                if x.n == y.n:
                    i += 1
                    continue
                c, t = lin_add(x.n, y.n, -1)
                if _bool(_lin('eq', c, t)):
                    i += 1
                    continue
                c, t = lin_add(x.n, y.n, -1)
                # c + t < 0 : x shorter
                if _bool(_lin('le', c + 1, t)):
                    B[i:i + 1] = [x, Rep(y.c, lin_add(y.n, x.n, -1))]
                else:
                    A[i:i + 1] = [y, Rep(x.c, lin_add(x.n, y.n, -1))]
                i += 1
                continue
            if type(x) is Rep:
                if x.n == (1, ()) or not _bool(_lin('le', 2 - x.n[0], tuple(
                        (k, -v) for k, v in x.n[1]))):
                    A[i:i + 1] = [x.c]
                else:
                    A[i:i + 1] = [x.c, Rep(x.c, lin_add(x.n, (1, ()), -1))]
                continue
            if type(y) is Rep:
                if y.n == (1, ()) or not _bool(_lin('le', 2 - y.n[0], tuple(
                        (k, -v) for k, v in y.n[1]))):
                    B[i:i + 1] = [y.c]
                else:
                    B[i:i + 1] = [y.c, Rep(y.c, lin_add(y.n, (1, ()), -1))]
                continue
            if type(x) is str and type(y) is str:
                if x != y:
                    return -1 if x < y else 1
                i += 1
                continue
            if x == y:
                i += 1
                continue
            if _bool(unit_eq(x, y)):
                i += 1
                continue
            # order of two different characters
            if type(y) is str:
                less = mask_pred(lambda c: c < y)
                return -1 if _bool(x.inmask(less)) else 1
            if type(x) is str:
                gt = mask_pred(lambda c: c > x)
                return -1 if _bool(y.inmask(gt)) else 1
            return -1 if _bool(('clt', x.cid, x.cm, y.cid, y.cm)) else 1

    def __lt__(self, o):
        if units_of(o) is None:
            return NotImplemented
        return self._cmp(o) < 0

    def __le__(self, o):
        if units_of(o) is None:
            return NotImplemented
        return self._cmp(o) <= 0

    def __gt__(self, o):
        if units_of(o) is None:
            return NotImplemented
        return self._cmp(o) > 0

    def __ge__(self, o):
        if units_of(o) is None:
            return NotImplemented
        return self._cmp(o) >= 0

    def __add__(self, o):
        b = units_of(o)
        if b is None:
            return NotImplemented
        return mk(self.u + b) if b else self

    def __radd__(self, o):
        b = units_of(o)
        if b is None:
            return NotImplemented
        return mk(b + self.u) if b else self

    def __mul__(self, n):
        if isinstance(n, SymInt):
            if len(self.u) == 1:
                u = resolve(self.u[0])
                if type(u) is str:
                    return repeat(u, n)
            n = n.__index__()
        return mk(self.u * n)
    __rmul__ = __mul__

    def __sym_rmul__(self, n):
        return self.__mul__(n)

    def __mod__(self, a):
        return percent(self, a)

    def __iter__(self):
        for u in self.u:
            if type(u) is Rep:
                n = mkint(u.n)
                n = n if isinstance(n, int) else n.__index__()
                for _ in range(n):
                    yield u.c
            elif type(u) is str:
                yield u
            else:
                yield mk((resolve(u),))

    def __contains__(self, x):
        return self.find(x) != -1

    def __repr__(self):
        r = []
        for u in self.u:
            r.append(u if type(u) is str else repr(u))
        return '<sym %s>' % ''.join(r)

    def __str__(self):
        # reached only from code outside the transformed modules
        return self.concretize()

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def concretize(self):
        """fork over all values"""
        out = []
        for u in self.u:
            if type(u) is str:
                out.append(u)
            elif type(u) is Ch:
                out.append(CHR_img(u))
            else:
                out.append(u.c * core.E.concretize_int(u.n))
        return ''.join(out)

    def lossy(self, why='str'):
        out = []
        for u in self.u:
            if type(u) is str:
                out.append(u)
            elif type(u) is Ch:
                c = core.E.lossy_char(u.cid, why)
                out.append(ACHR[CMAPS[u.cm][AIDX[c]]])
            else:
                out.append(u.c * core.E.lossy_int(u.n, why))
        return ''.join(out)

    # -- indexing.  positions are concrete unless Reps are present
    def _hasrep(self):
        for u in self.u:
            if type(u) is Rep:
                return True
        return False

    def _norm_index(self, k, default):
        if k is None:
            return default
        if isinstance(k, SymBool):
            k = int(k)
        if isinstance(k, int):
            if k < 0:
                return ('neg', k)
            return ('pos', k)
        if isinstance(k, SymInt):
            lo, hi = core.E.bounds(k.l)
            if lo >= 0:
                return ('pos', k)
            if core.E.branch(_lin('le', 1 + k.l[0], k.l[1])):
                return ('neg', k)
            return ('pos', k)
        raise TypeError('string indices must be integers')

    def _cut(self, k):
        """unit index (possibly after splitting a Rep) of character offset k;
        returns (units, index)"""
        units = self.u
        if not self._hasrep() and isinstance(k, int):
            return units, min(k, len(units))
        pos = (0, ())
        kl = lin_of(k)
        for i, u in enumerate(units):
            d = lin_add(kl, pos, -1)           # k - pos
            if d == (0, ()):
                return units, i
            # k <= pos ?
            if _bool(_lin('le', d[0], d[1])):
                return units, i
            w = u.n if type(u) is Rep else (1, ())
            if type(u) is Rep:
                e = lin_add(d, w, -1)          # k - pos - n
                if e == (0, ()):
                    return units, i + 1
                if _bool(_lin('le', 1 + e[0], e[1])):   # k < pos+n : inside
                    first = Rep(u.c, d) if d[1] else None
                    a = (first,) if first else tuple(u.c * d[0])
                    rest = lin_add(w, d, -1)
                    b = (Rep(u.c, rest),) if rest[1] else tuple(u.c * rest[0])
                    return units[:i] + a + b + units[i + 1:], i + len(a)
            pos = lin_add(pos, w)
        return units, len(units)

    def _cutneg(self, k):
        """k is a negative concrete or symbolic count from the end"""
        n = ulen(self.u)
        v = n + k
        if isinstance(v, SymInt):
            if core.E.branch(_lin('le', v.l[0], v.l[1])):
                return self.u, 0
        elif v < 0:
            v = 0
        if isinstance(k, int) and isinstance(n, SymInt):
            # common case: trailing units are plain
            c = 0
            for i in range(len(self.u) - 1, -1, -1):
                if type(self.u[i]) is Rep:
                    break
                c += 1
                if c == -k:
                    return self.u, i
        return self._cut(v)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                if self._hasrep():
                    return self.lossy('step')[k]
                return mk(self.u[k])
            a = self._norm_index(k.start, None)
            b = self._norm_index(k.stop, None)
            s = self
            if not s._hasrep() and (a is None or isinstance(a[1], int)) and (
                    b is None or isinstance(b[1], int)):
                return mk(s.u[k])
            if b is not None:
                units, j = s._cut(b[1]) if b[0] == 'pos' else s._cutneg(b[1])
                s2 = units[:j]
            else:
                s2 = s.u
            if a is not None:
                if a[0] == 'neg':
                    # offset relative to the full string
                    n = ulen(s.u) + a[1]
                    if isinstance(n, int):
                        n = max(n, 0)
                    elif core.E.branch(_lin('le', n.l[0], n.l[1])):
                        n = 0
                    a = ('pos', n)
                units, i = SymStr(s2)._cut(a[1])
                s2 = units[i:]
            return mknorm(s2)
        a = self._norm_index(k, None)
        if not self._hasrep() and isinstance(a[1], int):
            u = self.u[a[1]]
            return u if type(u) is str else mk((resolve(u),))
        units, i = self._cut(a[1]) if a[0] == 'pos' else self._cutneg(a[1])
        if i >= len(units):
            raise IndexError('string index out of range')
        u = units[i]
        if type(u) is Rep:
            return u.c
        return u if type(u) is str else mk((resolve(u),))

    # -- predicates
    def _all(self, pred):
        if not self.u:
            return False
        m = mask_pred(pred)
        for u in self.u:
            if not _bool(unit_mask_formula(u, m)):
                return False
        return True

    def isspace(self):
        return self._all(str.isspace)

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isprintable(self):
        return not self.u or self._all(str.isprintable)

    def isascii(self):
        return not self.u or self._all(str.isascii)

    def isidentifier(self):
        return self.lossy('isidentifier').isidentifier()

    def isupper(self):
        return self.concretize().isupper()

    def islower(self):
        return self.concretize().islower()

    # -- case
    def _case(self, fn, tag, comp):
        out = []
        for u in self.u:
            if type(u) is str:
                out.extend(fn(u))
            elif type(u) is Rep:
                c = fn(u.c)
                if len(c) != 1:
                    out.append(Rep(c[0], u.n))
                    raise Limit('case')
                out.append(Rep(c, u.n))
            else:
                out.append(Ch(u.cid, comp[u.cm]))
        return mknorm(out)

    def lower(self):
        return self._case(str.lower, 'l', {None: 'l', 'l': 'l', 'u': 'ul',
                                           'lu': 'l', 'ul': 'ul'})

    def upper(self):
        return self._case(str.upper, 'u', {None: 'u', 'u': 'u', 'l': 'lu',
                                           'lu': 'lu', 'ul': 'u'})

    casefold = lower

    def capitalize(self):
        return mk(units_of(self[:1].upper()) + units_of(self[1:].lower()))

    def title(self):
        return self.concretize().title()

    def swapcase(self):
        return self.concretize().swapcase()

    # -- strip / split
    def _stripmask(self, chars):
        if chars is None:
            return WS
        if isinstance(chars, SymStr):
            chars = chars.concretize()
        m = 0
        for c in chars:
            m |= MASK1.get(c, 0)
        return m

    def _lst(self, m):
        us = self.u
        i = 0
        while i < len(us) and _bool(unit_mask_formula(us[i], m)):
            i += 1
        return i

    def _rst(self, m, lo=0):
        us = self.u
        j = len(us)
        while j > lo and _bool(unit_mask_formula(us[j - 1], m)):
            j -= 1
        return j

    def lstrip(self, chars=None):
        i = self._lst(self._stripmask(chars))
        return mknorm(self.u[i:]) if i else self

    def rstrip(self, chars=None):
        j = self._rst(self._stripmask(chars))
        return mknorm(self.u[:j]) if j < len(self.u) else self

    def strip(self, chars=None):
        m = self._stripmask(chars)
        i = self._lst(m)
        j = self._rst(m, i)
        if i == 0 and j == len(self.u):
            return self
        return mknorm(self.u[i:j])

    def split(self, sep=None, maxsplit=-1):
        us = self.u
        out = []
        if sep is None:
            i = 0
            n = len(us)
            while True:
                while i < n and _bool(unit_mask_formula(us[i], WS)):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = SymStr(us)._rst(WS, i)
                    out.append(mknorm(us[i:j]))
                    return out
                j = i
                while j < n and not _bool(unit_mask_formula(us[j], WS)):
                    j += 1
                out.append(mknorm(us[i:j]))
                i = j
        su = units_of(sep)
        if not su:
            raise ValueError('empty separator')
        start = 0
        while maxsplit < 0 or len(out) < maxsplit:
            r = self._ufind(su, start)
            if r is None:
                break
            us2, i, j = r
            if us2 is not self.u:
                # a Rep was split: continue on the new unit tuple
                self = SymStr(us2)
                us = us2
            out.append(mknorm(us[start:i]))
            start = j
        out.append(mknorm(us[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        out = []
        s = self
        if sep is None:
            while True:
                j = s._rst(WS) if isinstance(s, SymStr) else len(s.rstrip())
                us = units_of(s)[:j]
                if not us:
                    break
                if len(out) >= maxsplit:
                    i = 0
                    while i < len(us) and _bool(unit_mask_formula(us[i], WS)):
                        i += 1
                    out.append(mknorm(us))
                    break
                i = len(us)
                while i > 0 and not _bool(unit_mask_formula(us[i - 1], WS)):
                    i -= 1
                out.append(mknorm(us[i:]))
                s = SymStr(us[:i])
            return out[::-1]
        while len(out) < maxsplit:
            r = SymStr(units_of(s))._urfind(units_of(sep))
            if r is None:
                break
            us, i, j = r
            out.append(mknorm(us[j:]))
            s = mknorm(us[:i])
        out.append(s)
        return out[::-1]

    def splitlines(self, keepends=False):
        us = self.u
        out = []
        start = i = 0
        n = len(us)
        while i < n:
            if _bool(unit_mask_formula(us[i], LB)):
                j = i + 1
                if _bool(unit_mask_formula(us[i], MASK1['\r'])) and j < n and \
                        _bool(unit_mask_formula(us[j], MASK1['\n'])):
                    j += 1
                if type(us[i]) is Rep:
                    raise Limit('splitlines rep')
                out.append(mknorm(us[start:j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(mknorm(us[start:]))
        return out

    def partition(self, sep):
        r = self._ufind(units_of(sep), 0)
        if r is None:
            return (self, '', '')
        us, i, j = r
        return (mknorm(us[:i]), sep, mknorm(us[j:]))

    def rpartition(self, sep):
        r = self._urfind(units_of(sep))
        if r is None:
            return ('', '', self)
        us, i, j = r
        return (mknorm(us[:i]), sep, mknorm(us[j:]))

    # -- searching.  Returns (units, i, j): match is units[i:j]
    def _match_at(self, us, i, su):
        """match su (concrete or Ch units) at unit index i of us; returns
        (units, j) or None.  Reps on the left may be split."""
        k = 0
        j = i
        while k < len(su):
            if j >= len(us):
                return None
            a, b = us[j], su[k]
            if type(b) is Rep:
                if type(a) is Rep and a.c == b.c and a.n == b.n:
                    j += 1
                    k += 1
                    continue
                raise Limit('search for run')
            if type(a) is Rep:
                f = unit_eq(a.c, b)
                if not _bool(f):
                    return None
                if mkint(a.n) == 1:
                    us = us[:j] + (a.c,) + us[j + 1:]
                else:
                    us = us[:j] + (a.c, Rep(a.c, lin_add(a.n, (1, ()), -1))) \
                        + us[j + 1:]
                j += 1
                k += 1
                continue
            if not _bool(unit_eq(a, b)):
                return None
            j += 1
            k += 1
        return us, j

    def _ufind(self, su, start=0, end=None):
        us = self.u
        i = start
        if not su:
            return us, i, i
        while i < len(us):
            a = us[i]
            if type(a) is Rep:
                # all occurrences starting inside the run
                f = unit_eq(a.c, su[0]) if type(su[0]) is not Rep else (
                    a.c == su[0].c)
                if not _bool(f):
                    i += 1
                    continue
                if len(su) == 1 or all(type(x) is str and x == a.c for x in su):
                    r = self._match_at(us, i, su)
                    if r is not None:
                        return r[0], i, r[1]
                    i += 1
                    continue
                # longer needle: it can only start at one offset in the run
                run = 0
                while run < len(su) and su[run] == a.c:
                    run += 1
                if run == 1:
                    # starts at the last char of the run
                    m = lin_add(a.n, (1, ()), -1)
                    if mkint(m) == 0:
                        us2 = us[:i] + (a.c,) + us[i + 1:]
                        k = i
                    else:
                        us2 = us[:i] + (Rep(a.c, m), a.c) + us[i + 1:]
                        k = i + 1
                    r = self._match_at(us2, k, su)
                    if r is not None:
                        return r[0], k, r[1]
                    i += 1
                    continue
                raise Limit('search in run')
            r = self._match_at(us, i, su)
            if r is not None:
                return r[0], i, r[1]
            i += 1
        return None

    def _urfind(self, su):
        us = self.u
        if self._hasrep():
            best = None
            for i in range(len(us) - 1, -1, -1):
                if type(us[i]) is Rep:
                    if any(x == us[i].c for x in su):
                        raise Limit('rfind in run')
                    continue
                r = self._match_at(us, i, su)
                if r is not None:
                    return r[0], i, r[1]
            return None
        for i in range(len(us) - len(su), -1, -1):
            r = self._match_at(us, i, su)
            if r is not None:
                return r[0], i, r[1]
        return None

    def find(self, sub, start=None, end=None):
        s = self
        off = 0
        if end is not None:
            s = s[:end]
        if start is not None:
            off = start
            s = s[start:]
        if not isinstance(s, SymStr):
            if isinstance(sub, SymStr):
                s = SymStr(tuple(s))
            else:
                r = s.find(sub)
                return r if r < 0 else r + off
        r = s._ufind(units_of(sub))
        if r is None:
            return -1
        return ulen(r[0][:r[1]]) + off

    def rfind(self, sub, start=None, end=None):
        s = self
        off = 0
        if end is not None:
            s = s[:end]
        if start is not None:
            off = start
            s = s[start:]
        if not isinstance(s, SymStr):
            s = SymStr(tuple(s))
        r = s._urfind(units_of(sub))
        if r is None:
            return -1
        return ulen(r[0][:r[1]]) + off

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def count(self, sub, *a):
        if a:
            s = self[a[0]:a[1]] if len(a) > 1 else self[a[0]:]
            return s.count(sub)
        su = units_of(sub)
        if len(su) == 1 and type(su[0]) is str and su[0] in AIDX:
            m = MASK1[su[0]]
            tot = (0, ())
            for u in self.u:
                if type(u) is str:
                    if u == su[0]:
                        tot = (tot[0] + 1, tot[1])
                elif type(u) is Rep:
                    if u.c == su[0]:
                        tot = lin_add(tot, u.n)
                else:
                    tot = lin_add(tot, indicator(u, m))
            return mkint(tot)
        n = 0
        start = 0
        s = self
        while True:
            r = s._ufind(su, start)
            if r is None:
                return n
            s = SymStr(r[0])
            start = r[2]
            n += 1

    def startswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            s = self[start:end]
            if not isinstance(s, SymStr):
                s = SymStr(tuple(s))
            return s.startswith(p)
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        pu = units_of(p)
        if pu is None:
            raise TypeError('startswith first arg must be str')
        if not self._hasrep():
            if len(pu) > len(self.u):
                return False
            return mkbool(eq_formula(self.u[:len(pu)], pu))
        return self._match_at(self.u, 0, pu) is not None

    def endswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            s = self[start:end]
            if not isinstance(s, SymStr):
                s = SymStr(tuple(s))
            return s.endswith(p)
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        pu = units_of(p)
        if not pu:
            return True
        k = len(pu)
        tail = self.u[-k:]
        if len(tail) == k and not any(type(x) is Rep for x in tail):
            return mkbool(eq_formula(tail, pu))
        if not self._hasrep():
            return False
        rev = SymStr(tuple(reversed(self.u)))
        return rev._match_at(rev.u, 0, tuple(reversed(pu))) is not None

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and self.endswith(p) else self

    def replace(self, a, b, n=-1):
        au, bu = units_of(a), units_of(b)
        if len(au) == 1 and n < 0 and type(au[0]) is str:
            out = []
            for u in self.u:
                if type(u) is str:
                    if u == au[0]:
                        out.extend(bu)
                    else:
                        out.append(u)
                elif type(u) is Rep:
                    if u.c != au[0]:
                        out.append(u)
                    elif len(bu) == 1 and type(bu[0]) is str:
                        out.append(Rep(bu[0], u.n))
                    elif not bu:
                        pass
                    else:
                        for _ in range(core.E.concretize_int(u.n)):
                            out.extend(bu)
                else:
                    if _bool(unit_eq(u, au[0])):
                        out.extend(bu)
                    else:
                        out.append(u)
            return mknorm(out)
        out = []
        s = self
        start = 0
        k = 0
        while n < 0 or k < n:
            if not au:
                raise Limit('replace empty')
            r = s._ufind(au, start)
            if r is None:
                break
            if r[0] is not s.u:
                s = SymStr(r[0])
            out.extend(s.u[start:r[1]])
            out.extend(bu)
            start = r[2]
            k += 1
        out.extend(s.u[start:])
        return mknorm(out)

    def translate(self, table):
        out = []
        keys = mask_pred(lambda c: ord(c) in table) if isinstance(
            table, dict) and any(type(u) is Ch for u in self.u) else None
        for u in self.u:
            u = resolve(u)
            if type(u) is str:
                out.extend(u.translate(table))
            elif type(u) is Rep:
                c = u.c.translate(table)
                if len(c) != 1:
                    raise Limit('translate run')
                out.append(Rep(c, u.n))
            else:
                if keys is not None and not _bool(u.inmask(keys)):
                    out.append(u)
                    continue
                if keys is not None:
                    vals = set(c.translate(table)
                               for c in core.mask_chars(u.img()))
                    if len(vals) == 1:
                        out.extend(vals.pop())
                        continue
                out.extend(CHR_img(u).translate(table))
        return mk(out)

    def join(self, xs):
        return join(self, xs)

    def format(self, *a, **k):
        return fmt(self.concretize(), a, k)

    def format_map(self, m):
        return fmt(self.concretize(), (), m)

    def expandtabs(self, n=8):
        out = []
        col = 0
        for u in self.u:
            if _bool(unit_mask_formula(u, MASK1['\t'])):
                if type(u) is Rep:
                    raise Limit('expandtabs run')
                k = n - col % n if not (isinstance(n, int) and n <= 0) else 0
                out.extend(units_of(' ' * k if isinstance(k, int)
                                    else repeat(' ', k)))
                col = col + k
                continue
            out.append(u)
            if _bool(unit_mask_formula(u, MASK1['\n'] | MASK1['\r'])):
                col = 0
            else:
                col = col + (mkint(u.n) if type(u) is Rep else 1)
        return mknorm(out)

    def _pad(self, w):
        d = w - ulen(self.u)
        if isinstance(d, SymInt):
            if core.E.branch(_lin('le', d.l[0], d.l[1])):
                return 0
        return d

    def ljust(self, w, c=' '):
        d = self._pad(w)
        return self + d * c if isinstance(d, SymInt) or d > 0 else self

    def rjust(self, w, c=' '):
        d = self._pad(w)
        return d * c + self if isinstance(d, SymInt) or d > 0 else self

    def center(self, w, c=' '):
        return self.concretize().center(w, c)

    def zfill(self, w):
        return self.concretize().zfill(w)

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('utf-8', 'utf8'):
            return SymBytes(self.u)
        return self.concretize().encode(encoding, errors)

    def __reduce__(self):
        raise Limit('pickle of symbolic string')


def CHR_img(u):
    """concrete value of a Ch by forking"""
    c = core.E.concretize_char(u.cid) if u.cm is None else None
    if c is not None:
        return c
    while True:
        m = u.img()
        if m & (m - 1) == 0:
            return ACHR[core.low_bit(m)]
        v = core.low_bit(m)
        if core.E.branch(u.inmask(1 << v)):
            return ACHR[v]


def indicator(u, mask):
    """linear form: 1 when the Ch is in mask"""
    p = preimage(u.cm, mask) & FULL
    d = core.E.dom[u.cid]
    if d & p == 0:
        return (0, ())
    if d & p == d:
        return (1, ())
    return (0, ((('c', u.cid, p), 1),))


BL2 = mask_pred(lambda c: len(c.encode('utf-8', 'surrogatepass')) >= 2)
BL3 = mask_pred(lambda c: len(c.encode('utf-8', 'surrogatepass')) >= 3)
BL4 = mask_pred(lambda c: len(c.encode('utf-8', 'surrogatepass')) >= 4)


def blen_unit(u):
    if type(u) is str:
        return (len(u.encode('utf-8', 'surrogatepass')), ())
    if type(u) is Rep:
        l = len(u.c.encode('utf-8'))
        return (u.n[0] * l, tuple((k, c * l) for k, c in u.n[1]))
    r = (1, ())
    for m in (BL2, BL3, BL4):
        r = lin_add(r, indicator(u, m))
    return r


def mkbytes(units):
    units = tuple(units)
    if all(type(u) is str for u in units):
        return ''.join(units).encode('utf-8')
    return SymBytes(units)


class SymBytes(object):
    """utf-8 encoding of a symbolic string"""
    __slots__ = ('u',)

    def __init__(self, u):
        self.u = u

    def sym_len(self):
        l = (0, ())
        for u in self.u:
            l = lin_add(l, blen_unit(u))
        return mkint(l)

    def __len__(self):
        n = self.sym_len()
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        return bool(self.u)

    def __deepcopy__(self, memo):
        return self

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc == 'utf-8-sig':
            if self.u and _bool(unit_mask_formula(self.u[0], MASK1['\ufeff'])):
                return mknorm(self.u[1:])
            return mknorm(self.u)
        if enc not in ('utf-8', 'utf8'):
            return self.concretize().decode(encoding, errors)
        return mknorm(self.u)

    def concretize(self):
        return SymStr(self.u).concretize().encode('utf-8')

    def _cut(self, k):
        kl = lin_of(k)
        pos = (0, ())
        for i, u in enumerate(self.u):
            d = lin_add(kl, pos, -1)
            if d == (0, ()):
                return i
            if _bool(_lin('le', d[0], d[1])):
                if not _bool(_lin('eq', d[0], d[1])):
                    # inside the previous character
                    raise Limit('bytes cut inside a character')
                return i
            if type(u) is Rep:
                e = lin_add(d, blen_unit(u), -1)
                if _bool(_lin('le', 1 + e[0], e[1])):
                    raise Limit('bytes cut inside a run')
            pos = lin_add(pos, blen_unit(u))
        return len(self.u)

    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b = k.start, k.stop
            n = self.sym_len()

            def norm(x, d):
                if x is None:
                    return d
                if isinstance(x, int) and x >= 0:
                    return x
                if isinstance(x, SymInt) and core.E.bounds(x.l)[0] >= 0:
                    return x
                if x < 0:
                    x = n + x
                    if x < 0:
                        x = 0
                return x
            i = self._cut(norm(a, 0))
            j = self._cut(norm(b, n)) if b is not None else len(self.u)
            us = self.u[i:j]
            if all(type(u) is str for u in us):
                return ''.join(us).encode('utf-8')
            return SymBytes(tuple(resolve(u) for u in us))
        return self.concretize()[k]

    @staticmethod
    def _units(o):
        if isinstance(o, SymBytes):
            return o.u
        if isinstance(o, (bytes, bytearray)):
            return tuple(bytes(o).decode('utf-8'))
        return None

    def __eq__(self, o):
        b = SymBytes._units(o)
        if b is None:
            return NotImplemented
        return mkbool(eq_formula(self.u, b))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(f_not(r.f)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(self.concretize())

    def __add__(self, o):
        return mkbytes(self.u + SymBytes._units(o))

    def __radd__(self, o):
        return mkbytes(SymBytes._units(o) + self.u)

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        try:
            b = SymBytes._units(p)
        except UnicodeDecodeError:
            return self.concretize().startswith(p)
        return SymStr(self.u).startswith(mk(b))

    def endswith(self, p):
        return SymStr(self.u).endswith(mk(SymBytes._units(p)))

    def __contains__(self, p):
        return mk(SymBytes._units(p)) in SymStr(self.u)

    def _wrap(self, r):
        if isinstance(r, SymStr):
            return SymBytes(r.u)
        if isinstance(r, str):
            return r.encode('utf-8')
        if isinstance(r, list):
            return [self._wrap(x) for x in r]
        return r

    def _via(self, name, *a):
        def conv(x):
            if isinstance(x, (bytes, bytearray, SymBytes)):
                return mk(SymBytes._units(x))
            return x
        return self._wrap(getattr(SymStr(self.u), name)(*[conv(x) for x in a]))

    def replace(self, *a):
        return self._via('replace', *a)

    def split(self, *a):
        return self._via('split', *a)

    def splitlines(self, *a):
        return self._via('splitlines', *a)

    def strip(self, *a):
        return self._via('strip', *a)

    def rstrip(self, *a):
        return self._via('rstrip', *a)

    def lstrip(self, *a):
        return self._via('lstrip', *a)

    def count(self, *a):
        return self._via('count', *a)

    def find(self, p):
        r = SymStr(self.u)._ufind(SymBytes._units(p))
        if r is None:
            return -1
        return SymBytes(r[0][:r[1]]).sym_len()

    def __iter__(self):
        return iter(self.concretize())


# ---------------------------------------------------------------- helpers
def is_sym(x):
    t = type(x)
    return t is SymStr or t is SymInt or t is SymBool or t is SymBytes


def to_str(x):
    """str(x) keeping symbolic strings"""
    if isinstance(x, SymStr):
        return x
    if isinstance(x, str):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return str(x)
    if isinstance(x, SymBytes):
        return str(x.concretize())
    if type(x) in (list, tuple, dict, set, frozenset) and deep_sym(x):
        return repr_(x)
    m = getattr(type(x), '__str__', None)
    if m is object.__str__ and not isinstance(x, type):
        m = type(x).__repr__
    try:
        r = m(x) if m is not None and m is not object.__repr__ else None
    except TypeError:
        r = None
    if r is None:
        r = str(x)
    return r


def join(sep, xs):
    out = []
    su = units_of(sep)
    first = True
    sym = type(sep) is SymStr
    for x in xs:
        if not first:
            out.extend(su)
        first = False
        u = units_of(x)
        if u is None:
            raise TypeError('sequence item: expected str instance, %s found'
                            % type(x).__name__)
        out.extend(u)
    return mk(out)


def _apply_spec(v, spec, conv):
    if conv == 'r':
        v = repr_(v)
    elif conv in ('s', 'a'):
        v = to_str(v)
    if isinstance(v, (SymInt, SymBool)):
        return format(int(v), spec) if spec else str(v)
    if isinstance(v, SymStr):
        if not spec:
            return v
        s = spec
        fill, align = ' ', '<'
        if len(s) > 1 and s[1] in '<>^':
            fill, align, s = s[0], s[1], s[2:]
        elif s and s[0] in '<>^':
            align, s = s[0], s[1:]
        if s.endswith('s'):
            s = s[:-1]
        if '.' in s:
            s, p = s.split('.')
            v = v[:int(p)]
            if not isinstance(v, SymStr):
                return format(v, spec)
        if s.isdigit():
            if align == '<':
                return v.ljust(int(s), fill)
            if align == '>':
                return v.rjust(int(s), fill)
            return format(v.concretize(), spec)
        if not s:
            return v
        return format(v.concretize(), spec)
    if type(v).__format__ is object.__format__ and not spec:
        return to_str(v)
    return format(v, spec)


class _Fmt(_string.Formatter):
    pass


def fmt(template, args, kwargs):
    out = []
    f = _Fmt()
    auto = 0
    for lit, field, spec, conv in f.parse(template):
        out.extend(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        if spec and '{' in spec:
            spec = fmt_nested(spec, args, kwargs, auto)
            auto += 1
            if not isinstance(spec, str):
                spec = spec.concretize()
        v, _ = f.get_field(field, args, kwargs)
        r = _apply_spec(v, spec or '', conv)
        out.extend(units_of(r))
    return mk(out)


def fmt_nested(spec, args, kwargs, auto):
    def sub(x):
        lit, field, sp, conv = x
        if field is None:
            return lit
        if field == '':
            field = str(auto)
        v, _ = _Fmt().get_field(field, args, kwargs)
        return lit + str(v)
    return ''.join(sub(x) for x in _Fmt().parse(spec))


def deep_sym(x, depth=3):
    """does a container hold symbolic values (shallow search)"""
    if is_sym(x):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(deep_sym(y, depth - 1) for y in x.values()) or any(
            deep_sym(y, depth - 1) for y in x.keys())
    return False


def repr_(x):
    if isinstance(x, SymStr):
        return sym_repr(x)
    if isinstance(x, (SymInt, SymBool)):
        return repr(x)
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple) and deep_sym(x):
        b = join(', ', [repr_(y) for y in x])
        if isinstance(x, list):
            return '[' + b + ']'
        if len(x) == 1:
            b = b + ','
        return '(' + b + ')'
    if type(x) is dict and deep_sym(x):
        return '{' + join(', ', [repr_(k) + ': ' + repr_(v)
                                 for k, v in x.items()]) + '}'
    if type(x) is set and deep_sym(x):
        return '{' + join(', ', [repr_(k) for k in x]) + '}'
    m = type(x).__repr__
    return m(x)


_PLAIN = mask_pred(lambda c: c.isprintable() and c not in '\'"\\')


def sym_repr(s):
    """repr of a symbolic string: forks on quoting relevant characters"""
    hasq = False
    hasd = False
    us = []
    for u in s.u:
        u = resolve(u)
        if type(u) is Ch and not _bool(unit_mask_formula(u, _PLAIN)):
            u = CHR_img(u)
        us.append(u)
    for u in us:
        c = u.c if type(u) is Rep else u
        if c == "'":
            hasq = True
        elif c == '"':
            hasd = True
    q = '"' if hasq and not hasd else "'"
    out = [q]
    for u in us:
        if type(u) is str:
            r = repr(u)
            if u in '\'"':
                out.extend('\\' + u if u == q else u)
            else:
                out.extend(r[1:-1])
        elif type(u) is Rep and (u.c in '\'"\\' or not u.c.isprintable()):
            raise Limit('repr of run')
        else:
            out.append(u)
    out.append(q)
    return mk(out)


import re as _re
_PCT = _re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])')


def percent(template, args):
    if isinstance(template, SymStr):
        template = template.concretize()
    out = []
    pos = 0
    seq = list(args) if isinstance(args, tuple) else [args]
    i = 0
    for m in _PCT.finditer(template):
        out.extend(template[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if key is not None:
            v = args[key]
        else:
            if width == '*':
                width = str(int(seq[i]))
                i += 1
            v = seq[i]
            i += 1
        if not deep_sym(v) and not (conv in 'sr' and not isinstance(
                v, (str, int, float))):
            out.extend(('%' + flags + (width or '') +
                        ('.' + prec if prec else '') + conv) % (v,))
            continue
        if conv == 's':
            r = to_str(v) if not isinstance(v, (list, tuple, dict)) else repr_(v)
        elif conv == 'r':
            r = repr_(v)
        else:
            r = ('%' + flags + (width or '') + conv) % (int(v),)
            width = None
        if prec:
            r = r[:int(prec)]
        if width:
            if isinstance(r, str):
                r = r.ljust(int(width)) if '-' in flags else r.rjust(int(width))
            else:
                r = r.ljust(int(width)) if '-' in flags else r.rjust(int(width))
        out.extend(units_of(r))
    out.extend(template[pos:])
    return mk(out)


def model_str(x, m):
    """concrete value of a str/SymStr (or int/bool proxies, containers) under
    a model"""
    if isinstance(x, SymStr):
        out = []
        for u in x.u:
            if type(u) is str:
                out.append(u)
            elif type(u) is Ch:
                out.append(ACHR[CMAPS[u.cm][m[('c', u.cid)]]])
            else:
                out.append(u.c * core.ev_lin(u.n, m))
        return ''.join(out)
    if isinstance(x, SymBytes):
        return model_str(SymStr(x.u), m).encode('utf-8')
    if isinstance(x, SymInt):
        return core.ev_lin(x.l, m)
    if isinstance(x, SymBool):
        return core.ev(x.f, m)
    if isinstance(x, list):
        return [model_str(y, m) for y in x]
    if isinstance(x, tuple):
        return tuple(model_str(y, m) for y in x)
    if isinstance(x, dict):
        return {model_str(k, m): model_str(v, m) for k, v in x.items()}
    return x
