"""Module-level state of the code under test.  Every path starts from the
state the modules had after import: without this, a value cached at module
level (a dictionary, an attribute of a class, a mutable default) would carry
symbolic values of one path into another."""
import collections
import functools
import itertools
import operator
import sys
import types

BUILTIN = (dict, list, set, collections.deque)
SKIP = (types.ModuleType,)


class Base(object):
    """what to put back: for each container a copy of its members, for each
    module, class and object its attributes"""

    def __init__(self):
        self.con = {}      # id -> [container, shallow copy]
        self.ns = {}       # id -> [owner, dict of attributes]
        self.prefix = ('cmakelang',)
        self.started = False
        self.views, self.flat = None, None

    # -- collecting
    def owner(self, o):
        if id(o) in self.ns:
            return
        d = {k: v for k, v in vars(o).items() if not skipped(k, v)}
        self.ns[id(o)] = [o, d]
        for v in list(d.values()):
            self.value(v)

    def value(self, v):
        t = type(v)
        if t in BUILTIN or isinstance(v, BUILTIN):
            if id(v) in self.con:
                return
            self.con[id(v)] = [v, shallow(v)]
            if isinstance(v, dict):
                for x in list(v.values()):
                    self.value(x)
            elif not isinstance(v, set):
                for x in list(v):
                    self.value(x)
        elif t is tuple:
            for x in v:
                self.value(x)
        elif isinstance(v, types.FunctionType):
            if not str(v.__module__).startswith(self.prefix):
                return
            if id(v) in self.ns:
                return
            self.ns[id(v)] = [v, dict(v.__dict__)]
            for x in list(v.__dict__.values()) + list(v.__defaults__ or ()) \
                    + list((v.__kwdefaults__ or {}).values()):
                self.value(x)
            for c in v.__closure__ or ():
                try:
                    x = c.cell_contents
                except ValueError:
                    continue
                if id(c) not in self.ns:
                    self.ns[id(c)] = [c, x]
                    self.value(x)
        elif isinstance(v, (staticmethod, classmethod)):
            self.value(v.__func__)
        elif isinstance(v, Memo):
            self.value(v.fn)
        elif isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                if f is not None:
                    self.value(f)
        elif isinstance(v, type):
            if str(v.__module__).startswith(self.prefix):
                self.owner(v)
        elif str(getattr(t, '__module__', '')).startswith(self.prefix) and \
                hasattr(v, '__dict__'):
            self.owner(v)

    # -- putting back
    def restore(self):
        if self.views is not None and sum(map(len, self.views)) == len(self.flat) and \
                all(map(operator.is_, itertools.chain.from_iterable(
                    self.views), self.flat)):
            return
        for c, copy in self.con.values():
            if not same(c, copy):
                refill(c, copy)
        for o, d in self.ns.values():
            if not isinstance(o, types.CellType):
                self.owner_back(o, d)
            elif o.cell_contents is not d:
                o.cell_contents = d
        self.scan()

    def scan(self):
        """all members as they are now, for a cheap comparison"""
        cells = [o for o, _ in self.ns.values()
                 if isinstance(o, types.CellType)]
        self.views = [c.values() if isinstance(c, dict) else c
                      for c, _ in self.con.values()] + [
            o.__dict__.values() for o, _ in self.ns.values()
            if not isinstance(o, types.CellType)] + [
            Cell(o) for o in cells]
        self.flat = list(itertools.chain.from_iterable(self.views))

    def owner_back(self, o, d):
        cur = o.__dict__
        for k, v in list(cur.items()):
            if k not in d and not skipped(k, v):
                try:
                    delattr(o, k)
                except (AttributeError, TypeError):
                    pass
        for k, v in d.items():
            if k not in cur or cur[k] is not v:
                try:
                    if isinstance(o, (type, types.ModuleType)):
                        setattr(o, k, v)
                    else:
                        cur[k] = v
                except (AttributeError, TypeError):
                    pass

    def members(self):
        """the current members of everything known (for `adopt`)"""
        return ({i: shallow(c) for i, (c, _) in self.con.items()},
                {i: dict(o.__dict__) for i, (o, _) in self.ns.items()
                 if not isinstance(o, types.CellType)})

    def adopt(self, before):
        """an import happened during a path: what it changed stays"""
        con, ns = before
        for i, pre in con.items():
            c, base = self.con[i]
            if same(c, pre):
                continue
            if isinstance(c, dict):
                for k, v in c.items():
                    if k not in pre or pre[k] is not v:
                        base[k] = v
                        self.value(v)
            elif isinstance(c, set):
                base |= c - pre
            else:
                new = list(c)[len(pre):]
                base.extend(new)
                for v in new:
                    self.value(v)
        for i, pre in ns.items():
            o, base = self.ns[i]
            for k, v in list(o.__dict__.items()):
                if not skipped(k, v) and (k not in pre or pre[k] is not v):
                    base[k] = v
                    self.value(v)


def skipped(k, v):
    return isinstance(v, SKIP) or k in (
        '__dict__', '__weakref__', '__builtins__', '__warningregistry__') \
        or k.startswith('_sx_')


class Cell(object):
    def __init__(self, cell):
        self.cell = cell

    def __len__(self):
        return 1

    def __iter__(self):
        return iter((self.cell.cell_contents,))


def shallow(c):
    if isinstance(c, dict):
        return dict(c)
    if isinstance(c, set):
        return set(c)
    return list(c)


def same(c, copy):
    if len(c) != len(copy):
        return False
    if isinstance(c, dict):
        for (k, v), (k2, v2) in zip(c.items(), copy.items()):
            if k is not k2 or v is not v2:
                return False
        return True
    if isinstance(c, set):
        ids = set(map(id, copy))
        return all(id(x) in ids for x in c)
    for a, b in zip(c, copy):
        if a is not b:
            return False
    return True


def refill(c, copy):
    c.clear()
    if isinstance(c, dict):
        for k, v in copy.items():
            dict.__setitem__(c, k, v)
    elif isinstance(c, set):
        c.update(copy)
    else:
        c.extend(copy)


BASE = Base()


# -- functools

class Memo(object):
    """lru_cache/cache: remembers within one path, compares by =="""

    def __init__(self, fn, maxsize, typed):
        self.__wrapped__ = fn
        self.fn, self.maxsize, self.typed = fn, maxsize, typed
        self.data = []
        MEMOS.append(self)
        for k in ('__name__', '__doc__', '__module__', '__qualname__'):
            try:
                setattr(self, k, getattr(fn, k))
            except AttributeError:
                pass

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *a, **k):
        key = a + tuple(x for kv in sorted(k.items()) for x in kv)
        for x in key:
            if isinstance(x, (list, dict, set, bytearray)):
                raise TypeError("unhashable type: '%s'" % type(x).__name__)
        for n, old, r in self.data:
            if n == len(a) and len(old) == len(key) and \
                    all(alike(x, y, self.typed) for x, y in zip(key, old)):
                return r
        r = self.fn(*a, **k)
        if self.maxsize != 0:
            self.data.append((len(a), key, r))
            if self.maxsize and len(self.data) > self.maxsize:
                del self.data[0]
        return r

    def cache_clear(self):
        del self.data[:]

    def cache_info(self):
        return functools._CacheInfo(0, 0, self.maxsize, len(self.data))


MEMOS = []


def alike(x, y, typed):
    if x is y:
        return True
    if typed and type(x) is not type(y):
        return False
    return bool(x == y)


class FFunctools(object):
    def __getattr__(self, name):
        return getattr(functools, name)

    def lru_cache(self, maxsize=128, typed=False):
        if callable(maxsize):
            return Memo(maxsize, 128, typed)
        return lambda fn: Memo(fn, maxsize, typed)

    def cache(self, fn):
        return Memo(fn, None, False)


def capture():
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] == 'cmakelang':
            BASE.owner(m)
    BASE.started, BASE.views = True, None


def fresh():
    BASE.restore()
    for m in MEMOS:
        del m.data[:]
