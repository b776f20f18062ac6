"""Regular expression matching over symbolic strings.

The pattern tree comes from the standard library's own parser.  One match call
is evaluated as a local exploration: undecided character tests split a box of
character domains; every leaf gives an outcome (the group spans or no match).
Leaves with the same outcome that differ in one character are merged, then the
engine forks once over the remaining boxes.  Runs of symbolic length are
matched through expansions of one, two and three characters and must give the
same outcome (otherwise the length is decided by forking)."""
import re as _re
try:
    import re._parser as _sp
    import re._constants as _sc
except ImportError:      # pragma: no cover
    import sre_parse as _sp
    import sre_constants as _sc
from . import core, strs
from .core import AIDX, ACHR, NALPH, FULL, mask_pred, Limit, f_in, f_and, \
    preimage, _lin, lin_add, mkint
from .strs import SymStr, Ch, Rep, mk, mknorm, units_of, is_sym

DIGIT = mask_pred(lambda c: _re.match(r'\d', c) is not None)
SPACE = mask_pred(lambda c: _re.match(r'\s', c) is not None)
WORD = mask_pred(lambda c: _re.match(r'\w', c) is not None)
ADIGIT = mask_pred(lambda c: _re.match(r'(?a)\d', c) is not None)
ASPACE = mask_pred(lambda c: _re.match(r'(?a)\s', c) is not None)
AWORD = mask_pred(lambda c: _re.match(r'(?a)\w', c) is not None)
NL = 1 << AIDX['\n']


def _cat(code, flags):
    a = not flags & _re.UNICODE
    d, s, w = (ADIGIT, ASPACE, AWORD) if a else (DIGIT, SPACE, WORD)
    n = str(code)
    return {'CATEGORY_DIGIT': d, 'CATEGORY_NOT_DIGIT': FULL & ~d,
            'CATEGORY_SPACE': s, 'CATEGORY_NOT_SPACE': FULL & ~s,
            'CATEGORY_WORD': w, 'CATEGORY_NOT_WORD': FULL & ~w}[n]


def _icase(mask, flags):
    if not flags & _re.IGNORECASE:
        return mask
    # all characters equal to a member ignoring case, as sre does
    return _icase_mask(mask, not flags & _re.UNICODE)


_IC = {}


def _icase_mask(mask, asc):
    k = (mask, asc)
    r = _IC.get(k)
    if r is None:
        cs = core.mask_chars(mask)
        r = mask
        fl = _re.IGNORECASE | (_re.ASCII if asc else 0)
        if len(cs) > NALPH // 2:
            pat = '[^%s]' % ''.join(_re.escape(c) for c in ACHR if c not in cs)
        else:
            pat = '[%s]' % ''.join(_re.escape(c) for c in cs)
        if cs and len(cs) < NALPH:
            p = _re.compile(pat, fl)
            r = mask_pred(lambda c: p.match(c) is not None)
        _IC[k] = r
    return r


def _single(op, av, flags):
    """mask of a one-character node or None"""
    n = str(op)
    if n == 'LITERAL':
        c = chr(av)
        return _icase(1 << AIDX[c], flags) if c in _A else 0
    if n == 'NOT_LITERAL':
        c = chr(av)
        return FULL & ~(_icase(1 << AIDX[c], flags) if c in _A else 0)
    if n == 'ANY':
        return FULL if flags & _re.DOTALL else FULL & ~NL
    if n == 'IN':
        neg = False
        m = 0
        for o, a in av:
            o = str(o)
            if o == 'NEGATE':
                neg = True
            elif o == 'LITERAL':
                if chr(a) in _A:
                    m |= 1 << AIDX[chr(a)]
            elif o == 'RANGE':
                for i, c in enumerate(ACHR):
                    if a[0] <= ord(c) <= a[1]:
                        m |= 1 << i
            elif o == 'CATEGORY':
                m |= _cat(a, flags)
            else:
                raise Limit('regex set ' + o)
        m = _icase(m, flags)
        return FULL & ~m if neg else m
    return None


_A = {chr(k) if isinstance(k, int) else k for k in AIDX}
AIDXS = {}


class _Split(Exception):
    pass


class World(object):
    """local exploration state; subject is a tuple of unit (str or Ch)"""
    __slots__ = ('us', 'dom', 'gdom', 'prefix', 'idx', 'log', 'n')

    def __init__(self, us, gdom):
        self.us = us
        self.gdom = gdom
        self.n = len(us)

    def begin(self, prefix):
        self.prefix = prefix
        self.idx = 0
        self.log = []
        self.dom = {}

    def test(self, i, mask):
        u = self.us[i]
        if type(u) is str:
            k = AIDX.get(u)
            if k is None:
                raise Limit('alphabet %r' % u)
            return mask >> k & 1
        cid = u.cid
        m = preimage(u.cm, mask)
        d = self.dom.get(cid)
        if d is None:
            d = self.gdom[cid]
        x = d & m
        if x == 0:
            return False
        if x == d:
            return True
        if self.idx < len(self.prefix):
            v = self.prefix[self.idx]
        else:
            v = True
        self.idx += 1
        self.log.append(v)
        self.dom[cid] = x if v else d & ~m
        return v

    def single(self, i):
        u = self.us[i]
        if type(u) is str:
            return u
        d = self.dom.get(u.cid)
        if d is None:
            d = self.gdom[u.cid]
        if d & (d - 1) == 0:
            return ACHR[core.CMAPS[u.cm][core.low_bit(d)]]
        return None

    def equal(self, i, j):
        a, b = self.us[i], self.us[j]
        if a == b:
            return True
        a, b = self.single(i), self.single(j)
        if a is None or b is None:
            # decide both completely
            for k in (i, j):
                while self.single(k) is None:
                    u = self.us[k]
                    d = self.dom.get(u.cid, self.gdom[u.cid])
                    self.test(k, 1 << core.CMAPS[u.cm][core.low_bit(d)])
            a, b = self.single(i), self.single(j)
        return a == b


# compiled nodes: f(w, i, g, k) -> end result of continuation or None
def _seq(nodes):
    if not nodes:
        return lambda w, i, g, k: k(i, g)
    if len(nodes) == 1:
        return nodes[0]
    head, tail = nodes[0], _seq(nodes[1:])

    def f(w, i, g, k):
        return head(w, i, g, lambda j, h: tail(w, j, h, k))
    return f


def _compile_seq(sub, flags):
    return _seq([_compile_node(op, av, flags) for op, av in sub])


def _compile_node(op, av, flags):
    n = str(op)
    m = _single(op, av, flags)
    if m is not None:
        def one(w, i, g, k):
            if i < w.n and w.test(i, m):
                return k(i + 1, g)
            return None
        return one
    if n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
        lo, hi, sub = av
        if hi is _sc.MAXREPEAT or hi >= 4294967295:
            hi = 1 << 60
        sm = None
        if len(sub) == 1:
            sm = _single(sub[0][0], sub[0][1], flags)
        if sm is not None and n == 'MAX_REPEAT':
            def grep(w, i, g, k):
                j = i
                e = w.n
                while j < e and j - i < hi and w.test(j, sm):
                    j += 1
                while j - i >= lo:
                    r = k(j, g)
                    if r is not None:
                        return r
                    j -= 1
                return None
            return grep
        if sm is not None and n == 'MIN_REPEAT':
            def lrep(w, i, g, k):
                j = i
                e = w.n
                while j - i < lo:
                    if j < e and w.test(j, sm):
                        j += 1
                    else:
                        return None
                while True:
                    r = k(j, g)
                    if r is not None:
                        return r
                    if j - i < hi and j < e and w.test(j, sm):
                        j += 1
                    else:
                        return None
            return lrep
        body = _compile_seq(sub, flags)
        if n == 'MAX_REPEAT':
            def rep(w, i, g, k, c=0):
                if c < lo:
                    return body(w, i, g, lambda j, h: rep(w, j, h, k, c + 1))
                if c < hi:
                    def again(j, h):
                        if j == i:
                            return None
                        return rep(w, j, h, k, c + 1)
                    r = body(w, i, g, again)
                    if r is not None:
                        return r
                return k(i, g)
            return rep
        if n == 'MIN_REPEAT':
            def mrep(w, i, g, k, c=0):
                if c < lo:
                    return body(w, i, g, lambda j, h: mrep(w, j, h, k, c + 1))
                r = k(i, g)
                if r is not None:
                    return r
                if c < hi:
                    return body(w, i, g, lambda j, h: None if j == i else
                                mrep(w, j, h, k, c + 1))
                return None
            return mrep
        raise Limit('possessive')
    if n == 'SUBPATTERN':
        grp, add, dele, sub = av
        fl = (flags | add) & ~dele
        body = _compile_seq(sub, fl)
        if grp is None:
            return body

        def sp(w, i, g, k):
            return body(w, i, g, lambda j, h: k(j, _setg(h, grp, (i, j))))
        return sp
    if n == 'BRANCH':
        alts = [_compile_seq(s, flags) for s in av[1]]

        def br(w, i, g, k):
            for a in alts:
                r = a(w, i, g, k)
                if r is not None:
                    return r
            return None
        return br
    if n in ('ASSERT', 'ASSERT_NOT'):
        d, sub = av
        neg = n == 'ASSERT_NOT'
        body = _compile_seq(sub, flags)
        width = sub.getwidth()

        def asr(w, i, g, k):
            if d > 0:
                r = body(w, i, g, lambda j, h: (j, h))
            else:
                wd = width[0]
                if width[0] != width[1]:
                    raise Limit('lookbehind')
                r = None
                if i - wd >= 0:
                    r = body(w, i - wd, g, lambda j, h: (j, h) if j == i
                             else None)
            if neg:
                return k(i, g) if r is None else None
            return k(i, r[1]) if r is not None else None
        return asr
    if n == 'AT':
        what = str(av)
        ml = flags & _re.MULTILINE

        def isw(w, i):
            return 0 <= i < w.n and w.test(i, WORD if flags & _re.UNICODE
                                           else AWORD)

        def at(w, i, g, k):
            if what in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                ok = i == 0 or (ml and what == 'AT_BEGINNING' and
                                w.test(i - 1, NL))
            elif what == 'AT_END':
                ok = i == w.n or (i == w.n - 1 and w.test(i, NL)) or (
                    ml and w.test(i, NL))
            elif what == 'AT_END_STRING':
                ok = i == w.n
            elif what in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
                ok = bool(isw(w, i - 1)) != bool(isw(w, i))
                if what == 'AT_NON_BOUNDARY':
                    ok = not ok
            else:
                raise Limit(what)
            return k(i, g) if ok else None
        return at
    if n == 'GROUPREF':
        grp = av

        def gr(w, i, g, k):
            s = _getg(g, grp)
            if s is None:
                return None
            a, b = s
            for t in range(b - a):
                if i + t >= w.n:
                    return None
                if not w.equal(a + t, i + t):
                    return None
            return k(i + b - a, g)
        return gr
    if n == 'GROUPREF_EXISTS':
        cond, yes, no = av
        y = _compile_seq(yes, flags)
        nn = _compile_seq(no, flags) if no else None

        def ge(w, i, g, k):
            if _getg(g, cond) is not None:
                return y(w, i, g, k)
            return nn(w, i, g, k) if nn else k(i, g)
        return ge
    raise Limit('regex node ' + n)


def _setg(g, grp, span):
    return tuple(x for x in g if x[0] != grp) + ((grp, span),)


def _getg(g, grp):
    for x in g:
        if x[0] == grp:
            return x[1]
    return None


class Outcome(object):
    __slots__ = ('box', 'res')

    def __init__(self, box, res):
        self.box = box
        self.res = res


_CACHE = {}
MAXLEAF = 20000


def _outcomes(key, fn, us, gdom):
    """enumerate outcomes of fn(World) -> result"""
    prefix = []
    leaves = []
    w = World(us, gdom)
    while True:
        w.begin(prefix)
        r = fn(w)
        leaves.append((w.dom, r))
        if len(leaves) > MAXLEAF:
            raise Limit('regex leaves')
        log = w.log
        while log and log[-1] is False:
            log.pop()
        if not log:
            break
        log[-1] = False
        prefix = log
    # merge boxes with the same result
    if len(leaves) == 1:
        return [Outcome({}, leaves[0][1])]
    groups = {}
    order = []
    for dom, r in leaves:
        if r not in groups:
            groups[r] = []
            order.append(r)
        groups[r].append(dom)
    out = []
    for r in order:
        boxes = groups[r]
        changed = len(boxes) > 1
        while changed:
            changed = False
            for v in sorted(set(k for b in boxes for k in b)):
                seen = {}
                new = []
                for b in boxes:
                    kk = frozenset((a, m) for a, m in b.items() if a != v)
                    if kk in seen:
                        o = seen[kk]
                        m = o.get(v, gdom[v]) | b.get(v, gdom[v])
                        if m == gdom[v]:
                            o.pop(v, None)
                        else:
                            o[v] = m
                        changed = True
                    else:
                        b = dict(b)
                        seen[kk] = b
                        new.append(b)
                boxes = new
        for b in boxes:
            out.append(Outcome(b, r))
    return out


def _choose(outs):
    """fork over disjoint boxes covering the current domains"""
    if len(outs) == 1:
        return outs[0].res
    E = core.E
    i = E.idx
    if i < len(E.prefix):
        d = E.prefix[i]
        E.idx += 1
        E.log.append(d)
        o = outs[d[0]]
        E.assume(f_and([f_in(c, m) for c, m in o.box.items()]))
        E._refix(o.box)
        return o.res
    E.idx += 1
    E.stats.branches += 1
    if len(E.log) >= E.max_branches:
        raise Limit('branches')
    import time
    if E.deadline is not None and time.time() > E.deadline:
        raise Limit('deadline')
    linked = any(('c', c) in E.linked for o in outs for c in o.box)
    feas = []
    for j, o in enumerate(outs):
        if linked:
            f = f_and([f_in(c, m) for c, m in o.box.items()])
            if E.quick(f) is None and E.feasible(f) == 'unsat':
                continue
        feas.append(j)
    if not feas:
        raise core.PathAbort('regex')
    pick = feas[0]
    if E.model is not None:
        for j in feas:
            if all(m >> E.model[('c', c)] & 1 for c, m in outs[j].box.items()):
                pick = j
                break
    for j in feas:
        if j != pick:
            seed = None
            if E.model is not None and not linked:
                seed = E._named(E.model)
                for c, m in outs[j].box.items():
                    for n, kk in E.names.items():
                        if kk == ('c', c):
                            if not m >> seed[n] & 1:
                                seed[n] = core.low_bit(m)
                            break
                    else:
                        seed = None
                        break
            E.pending.append((E.log + [(j,)], seed))
    E.log.append((pick,))
    o = outs[pick]
    E.assume(f_and([f_in(c, m) for c, m in o.box.items()]))
    if linked and E.model is not None and not all(
            m >> E.model[('c', c)] & 1 for c, m in o.box.items()):
        E.model = None
    else:
        E._refix(o.box)
    return o.res


def _run(key, fn, units):
    """fn(world) evaluated over units without Reps"""
    E = core.E
    us = tuple(strs.resolve(u) if type(u) is Ch else u for u in units)
    sym = [u for u in us if type(u) is Ch]
    if not sym:
        w = World(us, {})
        w.begin([])
        return fn(w)
    names = {}
    canon = []
    for u in us:
        if type(u) is Ch:
            if u.cid not in names:
                names[u.cid] = len(names)
            canon.append((names[u.cid], u.cm, E.dom[u.cid]))
        else:
            canon.append(u)
    k = (key, tuple(canon))
    outs = _CACHE.get(k)
    if outs is None:
        inv = {v: c for c, v in names.items()}
        loc = tuple(Ch(names[u.cid], u.cm) if type(u) is Ch else u for u in us)
        outs = _outcomes(k, fn, loc, {v: E.dom[c] for v, c in inv.items()})
        if len(_CACHE) > 100000:
            _CACHE.clear()
        _CACHE[k] = outs
    inv = {v: c for c, v in names.items()}
    outs = [Outcome({inv[v]: m for v, m in o.box.items()}, o.res) for o in outs]
    return _choose(outs)


def _expand(units, k):
    out = []
    pos = []
    for u in units:
        pos.append(len(out))
        if type(u) is Rep:
            out.extend([u.c] * k)
        else:
            out.append(u)
    pos.append(len(out))
    return tuple(out), pos


def _lookbehind(tree):
    m = 0
    for op, av in tree:
        n = str(op)
        if n in ('ASSERT', 'ASSERT_NOT'):
            if av[0] < 0:
                m = max(m, av[1].getwidth()[1] + _lookbehind(av[1]))
            else:
                m = max(m, _lookbehind(av[1]))
        elif n in ('MAX_REPEAT', 'MIN_REPEAT'):
            m = max(m, _lookbehind(av[2]))
        elif n == 'SUBPATTERN':
            m = max(m, _lookbehind(av[3]))
        elif n == 'BRANCH':
            for x in av[1]:
                m = max(m, _lookbehind(x))
        elif n == 'GROUPREF_EXISTS':
            for x in av[1:]:
                if x:
                    m = max(m, _lookbehind(x))
    return m


def _counted(tree):
    """how many characters the counted repetitions may ask for"""
    m = 0
    for op, av in tree:
        n = str(op)
        if n in ('ASSERT', 'ASSERT_NOT'):
            m += _counted(av[1])
        elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            lo, hi, sub = av
            hi = lo if hi is _sc.MAXREPEAT or hi >= 4294967295 else hi
            if hi > 1:
                m += hi * max(1, sub.getwidth()[0])
            m += _counted(sub)
        elif n == 'SUBPATTERN':
            m += _counted(av[3])
        elif n == 'ATOMIC_GROUP':
            m += _counted(av)
        elif n == 'BRANCH':
            m += max(_counted(x) for x in av[1])
        elif n == 'GROUPREF_EXISTS':
            m += sum(_counted(x) for x in av[1:] if x)
    return m


def _lengths(patterns, flags):
    """run lengths to compare: longer runs behave like the longest"""
    m = max(_counted(_sp.parse(p, flags)) for p in patterns)
    return range(min(3 + m, 24), 0, -1)


def _stable(res):
    """the smallest length from which on the results agree, None if they don't"""
    if res[0] == 'split' or res[0] != res[1]:
        return None
    n = 0
    while n < len(res) and res[n] == res[0]:
        n += 1
    return len(res) - n + 1


def _shift(r, lo):
    if r is None or not lo:
        return r
    return (r[0] + lo, r[1] + lo, tuple((g, (a + lo, b + lo))
                                        for g, (a, b) in r[2]))


class Pattern(object):
    def __init__(self, pattern, flags=0):
        if is_sym(pattern):
            pattern = pattern.concretize()
        self.pattern = pattern
        if hasattr(_re, 'RegexFlag'):
            flags = int(flags)
        self.real = _re.compile(pattern, flags)
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = dict(self.real.groupindex)
        self._tree = None
        self._code = None
        self._ctx = None
        self._ks = None
        self.cache = {}

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return repr(self.real)

    def code(self):
        if self._code is None:
            t = _sp.parse(self.pattern, self.flags & ~_re.UNICODE
                          if isinstance(self.pattern, bytes) else self.flags)
            self._code = _compile_seq(t, t.state.flags)
        return self._code

    # -- matching on units
    def context(self):
        """characters before the start that can matter"""
        if self._ctx is None:
            self._ctx = max(1, _lookbehind(_sp.parse(self.pattern, self.flags)))
        return self._ctx

    def _fn(self, start, mode):
        code = self.code()

        def fn(w):
            if mode == 'search':
                for i in range(start, w.n + 1):
                    r = code(w, i, (), lambda j, g: (j, g))
                    if r is not None:
                        return (i,) + r
                return None
            if mode == 'nonempty':
                r = code(w, start, (), lambda j, g: (j, g) if j != start
                         else None)
                return None if r is None else (start,) + r
            full = mode == 'fullmatch'
            r = code(w, start, (), lambda j, g: None if full and j != w.n
                     else (j, g))
            return None if r is None else (start,) + r
        return fn

    def _eval(self, units, start, mode):
        """units without runs -> spans"""
        units = tuple(strs.resolve(u) if type(u) is Ch else u for u in units)
        if all(type(u) is str for u in units) and mode != 'nonempty':
            m = getattr(self.real, mode)(''.join(units), start)
            if m is None:
                return None
            li = m.lastindex
            gs = [g for g in range(1, self.groups + 1) if m.start(g) >= 0]
            if li is not None:
                gs = [g for g in gs if g != li] + [li]
            return (m.start(), m.end(), tuple((g, m.span(g)) for g in gs))
        return _run((self.pattern, self.flags, mode, start),
                    self._fn(start, mode), units)

    def exec(self, units, start, mode):
        """returns (units, start, spans); runs in units may get expanded at or
        after the context of start"""
        while True:
            lo = max(0, start - self.context())
            if any(type(u) is Rep for u in units[lo:]) or lo < start:
                pass
            win = units[lo:]
            reps = [i for i, u in enumerate(win) if type(u) is Rep]
            if not reps:
                r = self._eval(win, start - lo, mode)
                return units, start, _shift(r, lo)
            ck = None
            if not any(type(u) is Ch for u in win):
                ck = (start - lo, mode) + tuple(
                    u if type(u) is str else (u.c,) for u in win)
                got = self.cache.get(ck, 0)
                if got != 0:
                    return units, start, _shift(got, lo)
            res = []
            if self._ks is None:
                self._ks = _lengths([self.pattern], self.flags & ~_re.UNICODE
                                    if isinstance(self.pattern, bytes)
                                    else self.flags)
            for k in self._ks:
                ex, pos = _expand(win, k)
                r = self._eval(ex, pos[start - lo], mode)
                back = {p: i for i, p in enumerate(pos)}
                if r is None:
                    res.append(None)
                else:
                    ok = r[0] in back and r[1] in back and all(
                        a in back and b in back for _, (a, b) in r[2])
                    if ok:
                        res.append((back[r[0]], back[r[1]], tuple(
                            (g, (back[a], back[b])) for g, (a, b) in r[2])))
                    else:
                        res.append('split')
            short = _stable(res)
            if short == 1:
                if ck is not None:
                    if len(self.cache) > 20000:
                        self.cache.clear()
                    self.cache[ck] = res[0]
                return units, start, _shift(res[0], lo)
            # lengths matter: decide whether runs are short
            for i in reps:
                u = win[i]
                n = mkint(u.n)
                if isinstance(n, int) or n < (short or 3):
                    v = n if isinstance(n, int) else n.__index__()
                    break
            else:
                if short:
                    return units, start, _shift(res[0], lo)
                # a boundary falls inside a run
                i = reps[-1]
                u = win[i]
                v = core.E.concretize_int(u.n)
            units = units[:lo + i] + (u.c,) * v + units[lo + i + 1:]
            if start > lo + i:
                start += v - 1

    def _go(self, s, pos, mode):
        if isinstance(s, strs.SymBytes):
            s = SymStr(s.u)
        if not isinstance(s, SymStr):
            m = getattr(self.real, mode)(s, pos)
            return m
        units = s.u
        if pos:
            units, i = s._cut(pos)
        else:
            i = 0
        units, i, r = self.exec(units, i, mode)
        if r is None:
            return None
        return Match(self, units, r)

    def match(self, s, pos=0, endpos=None):
        return self._go(s, pos, 'match')

    def fullmatch(self, s, pos=0, endpos=None):
        return self._go(s, pos, 'fullmatch')

    def search(self, s, pos=0, endpos=None):
        return self._go(s, pos, 'search')

    def _iter(self, s):
        """yields (text units since the previous match, match); finally
        (rest, None)"""
        units = s.u
        i = last = 0
        while i <= len(units):
            old = i
            units, i, r = self.exec(units, i, 'search')
            last += i - old
            if r is None:
                break
            m = Match(self, units, r)
            yield units[last:r[0]], m
            last = r[1]
            if r[1] == r[0]:
                # an empty match may be followed by a non-empty one at the
                # same position but not by another empty one
                i = r[1]
                old = i
                units, i, r2 = self.exec(units, i, 'nonempty')
                last += i - old
                if r2 is not None:
                    yield (), Match(self, units, r2)
                    last = i = r2[1]
                else:
                    i += 1
            else:
                i = r[1]
        yield units[last:], None

    def finditer(self, s, pos=0):
        if not isinstance(s, SymStr):
            return self.real.finditer(s, pos)
        return (m for _, m in self._iter(s) if m is not None)

    def findall(self, s):
        if not isinstance(s, SymStr):
            return self.real.findall(s)
        out = []
        for _, m in self._iter(s):
            if m is None:
                break
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(tuple(x if x is not None else ''
                                 for x in m.groups()))
        return out

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self.real.split(s, maxsplit)
        out = []
        if maxsplit:
            raise Limit('maxsplit')
        for pre, m in self._iter(s):
            out.append(mknorm(pre))
            if m is not None:
                out.extend(m.groups())
        return out

    def subn(self, repl, s, count=0):
        if not isinstance(s, SymStr):
            if isinstance(repl, SymStr) or callable(repl):
                if not is_sym(s):
                    ms = list(self.real.finditer(s))
                    out, last, n = [], 0, 0
                    for m in ms:
                        if count and n >= count:
                            break
                        out.extend(s[last:m.start()])
                        r = repl(m) if callable(repl) else repl
                        out.extend(units_of(r))
                        last = m.end()
                        n += 1
                    out.extend(s[last:])
                    return mk(out), n
            return self.real.subn(repl, s, count)
        out = []
        n = 0
        if count:
            raise Limit('sub count')
        for pre, m in self._iter(s):
            out.extend(pre)
            if m is None:
                break
            if callable(repl):
                v = repl(m)
            elif isinstance(repl, str) and '\\' in repl:
                v = m.expand(repl)
            else:
                v = repl
            out.extend(units_of(v))
            n += 1
        return mknorm(out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def scanner(self, s, pos=0):
        return _Scan(self, s, pos)


class Match(object):
    def __init__(self, pat, units, r):
        self.re = pat
        self._u = units
        self._r = r
        self._g = dict(r[2])

    @property
    def string(self):
        return mknorm(self._u)

    @property
    def lastindex(self):
        # the last closed group: highest end, outermost last closed
        if not self._r[2]:
            return None
        return self._r[2][-1][0]

    @property
    def lastgroup(self):
        i = self.lastindex
        for k, v in self.re.groupindex.items():
            if v == i:
                return k
        return None

    def _span(self, g):
        if g == 0:
            return (self._r[0], self._r[1])
        if not isinstance(g, int):
            g = self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError('no such group')
        return self._g.get(g)

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            s = self._span(g)
            out.append(None if s is None else mknorm(self._u[s[0]:s[1]]))
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(i) if self._span(i) is not None else default
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: (self.group(v) if self._span(v) is not None else default)
                for k, v in self.re.groupindex.items()}

    def start(self, g=0):
        s = self._span(g)
        return -1 if s is None else strs.ulen(self._u[:s[0]])

    def end(self, g=0):
        s = self._span(g)
        return -1 if s is None else strs.ulen(self._u[:s[1]])

    def span(self, g=0):
        return (self.start(g), self.end(g))

    def expand(self, template):
        t = _sp.parse_template(template, self.re.real)
        out = []
        if isinstance(t, tuple):        # older layout
            raise Limit('template')
        for x in t:
            if isinstance(x, int):
                v = self.group(x)
                out.extend(units_of(v) if v is not None else ())
            elif x:
                out.extend(x)
        return mk(out)

    def __bool__(self):
        return True


class _Scan(object):
    def __init__(self, pat, s, pos):
        self.pat, self.s, self.pos = pat, s, pos

    def match(self):
        m = self.pat.match(self.s, self.pos)
        if m is not None:
            self.pos = m.end()
        return m

    def search(self):
        m = self.pat.search(self.s, self.pos)
        if m is not None:
            self.pos = m.end()
        return m


_SCANNERS = {}


class Scanner(object):
    """re.Scanner"""

    def __init__(self, lexicon, flags=0):
        flags = flags if isinstance(flags, int) else flags.value
        self.lexicon = lexicon
        self.flags = flags
        self.key = tuple(p for p, _ in lexicon)
        self.match = None
        c = _SCANNERS.get((self.key, flags))
        if c is None:
            real = _re.Scanner([(p, None) for p, _ in lexicon], flags)
            codes = []
            for p, _ in lexicon:
                t = _sp.parse(p, flags)
                # re.Scanner compiles without the UNICODE flag
                codes.append(_compile_seq(t, flags & ~_re.UNICODE))
            c = _SCANNERS[(self.key, flags)] = (
                real, codes, _lengths(self.key, flags))
        self.real, self.codes, self.ks = c

    def scan(self, string):
        if not isinstance(string, SymStr):
            return self._scan_concrete(string)
        return self._scan_sym(string)

    def _scan_concrete(self, s):
        out = []
        i = 0
        sc = self.real.scanner
        sn = sc.scanner(s)
        match = sn.match
        while True:
            m = match()
            if not m:
                break
            j = m.end()
            if i == j:
                break
            action = self.lexicon[m.lastindex - 1][1]
            if callable(action):
                self.match = m
                action = action(self, m.group())
            if action is not None:
                out.append(action)
            i = j
        return out, s[i:]

    def _scan_sym(self, s):
        out = []
        units = s.u
        i = 0
        codes = self.codes
        while True:
            start = i

            def fn(w):
                for k, c in enumerate(codes):
                    r = c(w, start, (), lambda j, g: (j, g))
                    if r is not None:
                        return (k, r[0], r[1])
                return None

            reps = any(type(u) is Rep for u in units)
            if not reps:
                # only the suffix (and one character of context) matters
                lo = max(0, start - 1)
                sub = units[lo:]
                st = start - lo

                def fn2(w, st=st):
                    for k, c in enumerate(codes):
                        r = c(w, st, (), lambda j, g: (j, g))
                        if r is not None:
                            return (k, r[0] - st)
                    return None
                sub = tuple(strs.resolve(u) if type(u) is Ch else u
                            for u in sub)
                if all(type(u) is str for u in sub):
                    m = self.real.scanner.scanner(''.join(sub), st).match()
                    r = None if m is None else (m.lastindex - 1, m.end() - st)
                else:
                    r = _run((self.key, self.flags, st, 'rel'), fn2, sub)
                if r is None:
                    break
                k, n = r
            else:
                r = self._scan_rep(units, start)
                units, r = r
                if r is None:
                    break
                k, n = r
            if n == 0:
                break
            j = start + n
            action = self.lexicon[k][1]
            if callable(action):
                action = action(self, mknorm(units[start:j]))
            if action is not None:
                out.append(action)
            i = j
        return out, mknorm(units[i:])

    def _scan_rep(self, units, start):
        codes = self.codes
        while True:
            lo = max(0, start - 1)
            res = []
            for k in self.ks:
                ex, pos = _expand(units[lo:], k)
                st = pos[start - lo]
                if lo == start:
                    st = 0

                def fn(w, st=st):
                    for q, c in enumerate(codes):
                        r = c(w, st, (), lambda j, g: (j, g))
                        if r is not None:
                            return (q, r[0])
                    return None
                r = _run((self.key, self.flags, st, 'abs'), fn, ex)
                back = {p: i for i, p in enumerate(pos)}
                if r is None:
                    res.append(None)
                elif r[1] in back:
                    res.append((r[0], back[r[1]] - (start - lo)))
                else:
                    res.append('split')
            short = _stable(res)
            if short == 1:
                return units, res[0]
            # decide lengths of the runs in the neighbourhood
            changed = False
            for i in range(lo, len(units)):
                u = units[i]
                if type(u) is Rep:
                    n = mkint(u.n)
                    if isinstance(n, int) or n < (short or 3):
                        v = n if isinstance(n, int) else n.__index__()
                        units = units[:i] + (u.c,) * v + units[i + 1:]
                        if i < start:
                            start += v - 1
                        changed = True
                        break
            if changed:
                continue
            if short:
                return units, res[0]
            raise Limit('token boundary inside a run')


# ---------------------------------------------------------------- module face
class FakeRe(object):
    """stands in for the re module inside transformed code"""

    def __init__(self):
        self.cache = {}
        for n in ('IGNORECASE', 'I', 'MULTILINE', 'M', 'DOTALL', 'S', 'VERBOSE',
                  'X', 'ASCII', 'A', 'UNICODE', 'U', 'LOCALE', 'L', 'error',
                  'DEBUG', 'RegexFlag', 'PatternError'):
            if hasattr(_re, n):
                setattr(self, n, getattr(_re, n))
        self.Scanner = Scanner
        self.Pattern = Pattern
        self.Match = Match
        self.__name__ = 're'

    def compile(self, p, flags=0):
        if isinstance(p, Pattern):
            return p
        if is_sym(p):
            p = p.concretize()
        k = (p, int(flags))
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = Pattern(p, flags)
        return r

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def sub(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).sub(r, s, count)

    def subn(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).subn(r, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def escape(self, s):
        if isinstance(s, SymStr):
            s = s.concretize()
        return _re.escape(s)

    def purge(self):
        pass
