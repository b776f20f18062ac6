"""Loads the real source of /repo (and of a few standard library modules it
leans on) with operations on built-in types routed through helpers that accept
symbolic values.  The program text itself is otherwise unchanged; it is read
from the working tree on every run."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import io as _io
import logging as _logging
import math as _math
import os
import sys
import types

from . import core, strs, regex, state
from .core import SymInt, SymBool, Limit, mkint, mkbool
from .strs import (SymStr, SymBytes, is_sym, deep_sym, units_of, mk, to_str,
                   repr_)

REPO = os.environ.get('CMF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# ---------------------------------------------------------------- builtins


def b_len(x):
    if type(x) is SymStr or type(x) is SymBytes:
        return x.sym_len()
    return len(x)


def _flat(c):
    if isinstance(c, tuple):
        for x in c:
            for y in _flat(x):
                yield y
    else:
        yield c


_SYMT = frozenset((SymStr, SymInt, SymBool, SymBytes))


def b_isinstance(x, c):
    t = type(x)
    if t not in _SYMT:
        return isinstance(x, c)
    if t is SymStr:
        return any(k is str or k is object or k is SymStr for k in _flat(c))
    if t is SymInt:
        return any(k is int or k is object or k is SymInt or
                   getattr(k, '__name__', '') in ('Integral', 'Number')
                   for k in _flat(c))
    if t is SymBool:
        return any(k in (int, bool, object, SymBool) for k in _flat(c))
    if t is SymBytes:
        return any(k in (bytes, bytearray, object) for k in _flat(c))
    return isinstance(x, c)


def b_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return {SymStr: str, SymInt: int, SymBool: bool, SymBytes: bytes}.get(
            t, t)
    return type(*a)


def b_str(*a):
    if len(a) == 1:
        return to_str(a[0])
    return str(*a)


def b_int(*a):
    if len(a) == 1 and type(a[0]) is SymInt:
        return a[0]
    a = [x.concretize() if type(x) is SymStr else x for x in a]
    return int(*a)


def b_repr(x):
    t = type(x)
    if t in (str, int, bool, type(None), float):
        return repr(x)
    if deep_sym(x):
        return repr_(x)
    m = t.__repr__
    if isinstance(m, types.FunctionType):
        return m(x)
    return repr(x)


def b_ord(x):
    if type(x) is SymStr:
        x = x.concretize()
    return ord(x)


def b_max(*a, **k):
    return _mm(max, 1, a, k)


def b_min(*a, **k):
    return _mm(min, -1, a, k)


def _mm(fn, sign, a, k):
    if k.get('key') is None:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if any(type(x) is SymInt for x in xs):
            ok = all(type(x) in (int, SymInt, bool) for x in xs)
            if ok and 'default' not in k or ok and xs:
                return core.E.maximum(xs, sign)
        if len(a) == 1:
            return fn(xs, **k)
    return fn(*a, **k)


def b_bytes(*a):
    if a and type(a[0]) is SymStr:
        return SymBytes(a[0].u)
    if a and type(a[0]) is SymBytes:
        return a[0]
    return bytes(*a)


def b_bytearray(*a):
    if a and type(a[0]) is SymStr:
        return SymBytes(a[0].u)
    if a and type(a[0]) is SymBytes:
        return a[0]
    return bytearray(*a)


def _cname(n):
    return n.concretize() if type(n) is SymStr else n


def b_getattr(o, n, *d):
    return getattr(o, _cname(n), *d)


def b_setattr(o, n, v):
    return setattr(o, _cname(n), v)


def b_hasattr(o, n):
    return hasattr(o, _cname(n))


def b_divmod(a, b):
    return divmod(a, b)


def b_bool(x=False):
    return bool(x)


def b_open(*a, **k):
    return IO.open(*a, **k)


def b_print(*a, **k):
    f = k.get('file')
    out = strs.join(k.get('sep', ' '), [to_str(x) for x in a]) + k.get(
        'end', '\n')
    (f if f is not None else SYS.stdout).write(out)


def b_map(f, *its):
    f = {str: b_str, len: b_len, int: b_int, repr: b_repr}.get(f, f)
    return map(f, *its)


def b_sorted(it, **k):
    kk = k.get('key')
    if kk is str.lower:
        k['key'] = lambda s: s.lower()
    elif kk is len:
        k['key'] = b_len
    return sorted(it, **k)


BUILTINS = {'len': b_len, 'isinstance': b_isinstance, 'type': b_type,
            'str': b_str, 'int': b_int, 'repr': b_repr, 'ord': b_ord,
            'max': b_max, 'min': b_min, 'bytes': b_bytes,
            'bytearray': b_bytearray, 'getattr': b_getattr,
            'setattr': b_setattr, 'hasattr': b_hasattr, 'open': b_open,
            'print': b_print, 'map': b_map, 'sorted': b_sorted,
            'exec': lambda src, *a: x_exec(src, *a)}

# ---------------------------------------------------------------- containers


def find_key(d, k):
    """the key of d (dict or set) equal to k, or None; forks.  k symbolic or d
    has symbolic keys"""
    if type(k) is SymStr:
        for x in d:
            if type(x) is str or type(x) is SymStr:
                f = strs.eq_formula(k.u, units_of(x))
                if f is True or (f is not False and core.E.branch(f)):
                    return x
        return None
    if type(k) is tuple:
        for x in d:
            if type(x) is tuple and len(x) == len(k) and x == k:
                return x
        return None
    for x in d:
        if type(x) is SymStr or type(x) is SymInt or type(x) is tuple:
            if x == k:
                return x
    return None


def is_symkey(k):
    t = type(k)
    if t is str or t is int:
        return False
    return t is SymStr or t is SymInt or t is SymBool or (
        t is tuple and deep_sym(k))


def _dictlike(d):
    return isinstance(d, (dict, set, frozenset)) or isinstance(
        d, (type({}.keys()),))


def norm_key(d, k):
    """key to use for access to d"""
    if is_symkey(k) and _dictlike(d):
        if type(k) in (SymInt, SymBool):
            return k.__index__()
        x = find_key(d, k)
        if x is not None:
            return x
        return conc_key(k)
    return k


class Missing(object):
    def __hash__(self):
        return 99

    def __eq__(self, o):
        return self is o


def conc_key(k):
    if type(k) is SymStr:
        return k.concretize()
    if type(k) is tuple:
        return tuple(conc_key(x) if is_symkey(x) else x for x in k)
    if is_sym(k):
        return k.__index__()
    return k


def x_in(a, b):
    t = type(b)
    if t is SymStr:
        return a in b
    if t is str:
        if type(a) is SymStr:
            return SymStr(tuple(b)).__contains__(a) if b else not a
        return a in b
    if is_symkey(a) and _dictlike(b):
        if type(a) in (SymInt, SymBool):
            return a.__index__() in b
        return find_key(b, a) is not None
    if t is regex.Match or not hasattr(t, '__contains__'):
        return a in b
    return a in b


def x_notin(a, b):
    return not x_in(a, b)


def x_get(o, k):
    if is_symkey(k):
        if isinstance(o, dict):
            if type(k) in (SymInt, SymBool):
                return o[k.__index__()]
            x = find_key(o, k)
            if x is None:
                if hasattr(type(o), '__missing__'):
                    return o[conc_key(k)]
                raise KeyError(k)
            return o[x]
        if type(k) is SymInt and type(o) in (str,):
            return SymStr(tuple(o))[k] if o else o[k.__index__()]
    elif type(k) is slice and type(o) is str and (
            is_sym(k.start) or is_sym(k.stop)):
        return SymStr(tuple(o))[k]
    elif type(k) is slice and type(o) in (bytes, bytearray) and (
            is_sym(k.start) or is_sym(k.stop)):
        try:
            return SymBytes(tuple(o.decode('utf-8')))[k]
        except UnicodeDecodeError:
            return o[k]
    return o[k]


def x_mod(a, b):
    if type(a) is SymStr or (type(a) is str and (deep_sym(b) or not isinstance(
            b, (str, int, float)))):
        return strs.percent(a, b)
    return a % b


def x_fstr(parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            out.append(strs._apply_spec(v, spec, conv))
        else:
            out.append(p)
    return strs.join('', out)


STRM = {'join', 'format', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip',
        'split', 'rsplit', 'replace', 'find', 'rfind', 'index', 'rindex', 'count',
        'partition', 'rpartition', 'ljust', 'rjust', 'center', 'zfill',
        'translate', 'splitlines', 'encode', 'format_map', 'expandtabs'}
DICTM = {'get', 'pop', 'setdefault', 'add', 'discard', 'remove', 'update',
         'has_key', 'append', 'issubset', 'union', 'intersection'}
METHODS = STRM | DICTM


def x_m(o, name, *a, **k):
    t = type(o)
    if t is list and name == 'append':
        return o.append(*a)
    if o is str:
        return x_strm(name)(*a, **k)
    if t is str:
        if name == 'join':
            xs = a[0] if type(a[0]) in (list, tuple) else list(a[0])
            for x in xs:
                if type(x) is SymStr:
                    return strs.join(o, xs)
            return o.join(xs)
        if name == 'format':
            for x in a:
                if type(x) not in (str, int):
                    return strs.fmt(o, a, k)
            for x in k.values():
                if type(x) not in (str, int):
                    return strs.fmt(o, a, k)
            return o.format(*a, **k)
        if name == 'format_map':
            return strs.fmt(o, (), a[0])
        for x in a:
            if is_sym(x) or type(x) is tuple and deep_sym(x):
                if not o:
                    return getattr(SymStr(()), name)(*a, **k)
                r = getattr(SymStr(tuple(o)), name)(*a, **k)
                if type(r) is SymStr:
                    return strs.mknorm(r.u)
                return r
        return getattr(o, name)(*a, **k)
    if a and is_symkey(a[0]) and isinstance(o, (dict, set, frozenset)):
        key = a[0]
        if type(key) in (SymInt, SymBool):
            return getattr(o, name)(key.__index__(), *a[1:])
        if name in ('get', 'pop', 'setdefault', 'discard', 'remove', 'add'):
            x = find_key(o, key)
            if x is None:
                if name == 'get':
                    return a[1] if len(a) > 1 else None
                if name == 'pop':
                    if len(a) > 1:
                        return a[1]
                    raise KeyError(key)
                if name == 'discard':
                    return None
                if name == 'remove':
                    raise KeyError(key)
                key = conc_key(key)
            else:
                key = x
            return getattr(o, name)(key, *a[1:], **k)
    if (t is bytes or t is bytearray) and any(is_sym(x) for x in a):
        return getattr(SymBytes(tuple(o.decode('utf-8'))), name)(*a, **k)
    return getattr(o, name)(*a, **k)


#: methods of str that are used as functions
UNBOUND = {n for n in dir(str) if not n.startswith('_')} - {'maketrans'}
#: built-in functions that are used as values
VALUEFN = {'len', 'repr', 'ord', 'max', 'min', 'getattr', 'hasattr', 'sorted'}
_STRM = {}


def x_strm(name):
    """str.NAME as a function"""
    f = _STRM.get(name)
    if f is None:
        def f(s, *a, **k):
            if type(s) is str or type(s) is SymStr:
                return x_m(s, name, *a, **k)
            return getattr(str, name)(s, *a, **k)
        f.__name__ = name
        _STRM[name] = f
    return f


# ---------------------------------------------------------------- transform
class Tx(ast.NodeTransformer):
    def __init__(self, fakes, bound=()):
        self.fakes = fakes
        self.bound = bound

    def _call(self, name, *args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in BUILTINS:
            node.func = ast.copy_location(
                ast.Name(id='_sx_' + f.id, ctx=ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr in METHODS:
            # super().update(...) style calls keep working through getattr
            node = ast.copy_location(ast.Call(
                func=ast.Name(id='_sx_m', ctx=ast.Load()),
                args=[f.value, ast.Constant(f.attr)] + node.args,
                keywords=node.keywords), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) \
                and node.value.id == 'str' and node.attr in UNBOUND and \
                'str' not in self.bound:
            return ast.copy_location(
                self._call('_sx_strm', ast.Constant(node.attr)), node)
        return node

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id in VALUEFN and \
                node.id not in self.bound:
            return ast.copy_location(
                ast.Name(id='_sx_' + node.id, ctx=ast.Load()), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        s = node.slice
        if isinstance(node.ctx, ast.Load):
            if isinstance(s, ast.Constant) or (
                    isinstance(s, ast.UnaryOp) and
                    isinstance(s.operand, ast.Constant)):
                return node
            if isinstance(s, ast.Slice):
                def simple(x):
                    return x is None or isinstance(x, ast.Constant) or (
                        isinstance(x, ast.UnaryOp) and
                        isinstance(x.operand, ast.Constant))
                if simple(s.lower) and simple(s.upper) and simple(s.step):
                    return node
                none = ast.Constant(None)
                s = self._call('_sx_slice', s.lower or none, s.upper or none,
                               s.step or none)
            return ast.copy_location(self._call('_sx_get', node.value, s), node)
        if isinstance(s, (ast.Constant, ast.Slice)):
            return node
        if isinstance(node.value, (ast.Name, ast.Attribute)):
            import copy
            v = copy.deepcopy(node.value)
            for n in ast.walk(v):
                if hasattr(n, 'ctx'):
                    n.ctx = ast.Load()
            node.slice = self._call('_sx_key', v, s)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            n = '_sx_in' if isinstance(node.ops[0], ast.In) else '_sx_notin'
            return ast.copy_location(
                self._call(n, node.left, node.comparators[0]), node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(node.comparators[0], ast.Constant) and \
                node.comparators[0].value in (True, False) and isinstance(node.comparators[0].value, bool):
            r = self._call('_sx_is', node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.IsNot):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                self._call('_sx_mod', node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        els = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                conv = {115: 's', 114: 'r', 97: 'a'}.get(v.conversion)
                spec = v.format_spec or ast.Constant('')
                els.append(ast.Tuple([v.value, ast.Constant(conv), spec],
                                     ast.Load()))
            else:
                els.append(v)
        return ast.copy_location(
            self._call('_sx_fstr', ast.List(els, ast.Load())), node)

    def _fake(self, name):
        return name in self.fakes

    def visit_Import(self, node):
        out = []
        for al in node.names:
            if self._fake(al.name):
                out.append(ast.copy_location(ast.Assign(
                    targets=[ast.Name(id=(al.asname or al.name),
                                      ctx=ast.Store())],
                    value=self._call('_sx_fake', ast.Constant(al.name))), node))
            else:
                out.append(ast.copy_location(ast.Import(names=[al]), node))
        return out

    def visit_ImportFrom(self, node):
        if node.module and self._fake(node.module) and node.level == 0:
            out = []
            for al in node.names:
                out.append(ast.copy_location(ast.Assign(
                    targets=[ast.Name(id=(al.asname or al.name),
                                      ctx=ast.Store())],
                    value=self._call('_sx_from', ast.Constant(node.module),
                                     ast.Constant(al.name))), node))
            return out
        return node


# ---------------------------------------------------------------- fake modules
class FStringIO(object):
    def __init__(self, init='', newline='\n'):
        self.head = []          # in front of the position
        self.tail = init if init is not None else ''
        self.newline = newline
        self.closed = False
        self.encoding = 'utf-8'

    def _head(self):
        v = strs.join('', self.head)
        self.head = [v]
        return v

    def write(self, s):
        if not (type(s) is SymStr or isinstance(s, str)):
            raise TypeError('string argument expected, got %r' % type(s))
        n = b_len(s)
        if type(self.tail) is SymStr or self.tail:
            self.tail = x_get(self.tail, slice(n, None))
        self.head.append(s)
        return n

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def getvalue(self):
        return self._head() + self.tail

    def read(self, n=-1):
        t = self.tail
        if n is None or n < 0:
            self.tail = ''
        else:
            t, self.tail = x_get(t, slice(0, n)), x_get(t, slice(n, None))
        self.head.append(t)
        return t

    def readline(self, size=-1):
        a, b, c = self.tail.partition('\n')
        self.head.append(a + b)
        self.tail = c
        return a + b

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def readable(self):
        return True

    writable = seekable = readable

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def seek(self, pos, whence=0):
        v = self.getvalue()
        if whence == 2:
            self.head, self.tail = [v], ''
        elif whence == 0:
            self.head, self.tail = [x_get(v, slice(0, pos))], x_get(v, slice(pos, None))
        return self.tell()

    def tell(self):
        return b_len(self._head())

    def truncate(self, n=None):
        if n is None:
            self.tail = ''
        else:
            # the position is not moved; a later write there is outside
            v = x_get(self.getvalue(), slice(0, n))
            self.head, self.tail = [v], ''
        return self.tell()

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('fileno')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class FBytesIO(object):
    def __init__(self, init=b''):
        self.v = bytes(init) if isinstance(init, bytearray) else init
        self.pos = 0

    def write(self, b):
        self.v = self.v + b

    def getvalue(self):
        return self.v

    def seek(self, pos, whence=0):
        if whence == 1:
            pos = self.pos + pos
        elif whence == 2:
            pos = b_len(self.v) + pos
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        end = b_len(self.v)
        a = self.pos
        if a >= end:
            return b''
        b = end
        if n is not None and n >= 0:
            b = a + n
            if b > end:
                b = end
        self.pos = b
        return x_get(self.v, slice(a, b))

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FIO(object):
    __name__ = 'io'
    StringIO = FStringIO
    BytesIO = FBytesIO
    TextIOWrapper = _io.TextIOWrapper
    SEEK_SET, SEEK_CUR, SEEK_END = 0, 1, 2
    UnsupportedOperation = _io.UnsupportedOperation
    IOBase = _io.IOBase
    hook = None

    def open(self, *a, **k):
        if self.hook is not None:
            return self.hook(*a, **k)
        raise Limit('open')

    def __getattr__(self, n):
        return getattr(_io, n)


IO = FIO()


class _NullLogger(object):
    level = 0
    disabled = False
    handlers = ()
    name = 'null'
    propagate = False

    def __init__(self):
        self.records = []

    sink = None

    def _put(self, level, msg, a):
        if self.sink is not None:
            self.sink.add(level, x_mod(msg, a) if a else to_str(msg))

    def debug(self, msg, *a, **k):
        self._put('debug', msg, a)

    def info(self, msg, *a, **k):
        self._put('info', msg, a)

    def warning(self, msg, *a, **k):
        self._put('warning', msg, a)

    def error(self, msg, *a, **k):
        self._put('error', msg, a)

    def critical(self, msg, *a, **k):
        self._put('critical', msg, a)

    def log(self, level, msg, *a, **k):
        self._put('log', msg, a)
    warn = warning
    fatal = critical
    exception = error

    def setLevel(self, *a):
        pass

    def addHandler(self, *a):
        pass

    def isEnabledFor(self, *a):
        return False

    def getEffectiveLevel(self):
        return 50

    def getChild(self, n):
        return self


class FLogging(object):
    __name__ = 'logging'
    _l = _NullLogger()

    def __getattr__(self, n):
        if n.isupper():
            return getattr(_logging, n)
        if n in ('getLogger',):
            return lambda *a: self._l
        if n in ('debug', 'info', 'warning', 'warn', 'error', 'exception',
                 'critical', 'log', 'basicConfig', 'disable', 'shutdown',
                 'captureWarnings'):
            f = getattr(self._l, n, None)
            if f is not None:
                return f
            return lambda *a, **k: None
        return getattr(_logging, n)


class FMath(object):
    __name__ = 'math'

    def __getattr__(self, n):
        f = getattr(_math, n)
        if not callable(f):
            return f

        def g(*a):
            return f(*[x.__index__() if isinstance(x, SymInt) else x for x in a])
        return g

    def ceil(self, x):
        return x if isinstance(x, SymInt) else _math.ceil(x)

    def floor(self, x):
        return x if isinstance(x, SymInt) else _math.floor(x)


class FSys(object):
    """sys with replaceable streams"""
    __name__ = 'sys'

    def __init__(self):
        self.reset()

    def reset(self):
        self.stdout = FStringIO()
        self.stderr = FStringIO()
        self.stdin = FStringIO()
        self.argv = ['prog']

    def __getattr__(self, n):
        return getattr(sys, n)


SYS = FSys()
_TRACE = []


class FTraceback(object):
    def __getattr__(self, n):
        import traceback
        return lambda *a, **k: ''


FAKES = {'re': regex.FakeRe(), 'io': IO, 'logging': FLogging(), 'math': FMath(),
         'sys': SYS, 'functools': state.FFunctools()}
LAZY = {}     # fake modules created by transforming standard library sources


class FPath(object):
    pass


def html_escape(s, quote=True):
    s = x_m(s, 'replace', '&', '&amp;')
    s = s.replace('<', '&lt;')
    s = s.replace('>', '&gt;')
    if quote:
        s = s.replace('"', '&quot;')
        s = s.replace('\'', '&#x27;')
    return s


#: standard packages executed from their Python sources; their C accelerators
#: are left out
PKG = {'json': 'sx_json', 'yaml': 'sx_yaml'}
NOACCEL = {'_json', 'sx_yaml.cyaml'}
LITERALS = []
ESC = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', "'": "'", '"': '"',
       'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v', '\n': ''}


def x_is(x, c):
    if type(x) is SymBool:
        x = bool(x)
    return x is c


def x_exec(src, *a):
    """exec of a program with unknown characters inside its string literals:
    each literal is decoded to a value and stands for itself in the tree; every
    other character is decided (forking) and parsed as usual"""
    if type(src) is not SymStr:
        return exec(src, *a)
    chars = list(src)
    out, i, n = [], 0, len(chars)

    def at(j):
        return chars[j] if j < n else ''

    def known(c):
        return c if isinstance(c, str) else c.concretize()
    del LITERALS[:]
    while i < n:
        c = known(chars[i])
        if c == '#':
            while i < n and not chars[i] == '\n':
                i += 1
            continue
        if c not in ('"', "'"):
            out.append(c)
            i += 1
            continue
        if out and (out[-1].isalnum() or out[-1] == '_'):
            raise SyntaxError('prefixed literal')
        i += 1
        if at(i) == c and at(i + 1) == c:
            raise NotImplementedError('triple quoted literal')
        val = []
        while True:
            if i >= n or chars[i] == '\n':
                raise SyntaxError('unterminated string literal')
            if chars[i] == c:
                i += 1
                break
            if chars[i] == '\\':
                e = known(at(i + 1))
                i += 2
                if e in ESC and e:
                    val.append(ESC[e])
                elif e in 'xuU':
                    k = {'x': 2, 'u': 4, 'U': 8}[e]
                    h = ''.join(known(q) for q in chars[i:i + k])
                    if len(h) != k:
                        raise SyntaxError('truncated escape')
                    try:
                        val.append(chr(int(h, 16)))
                    except ValueError:
                        raise SyntaxError('escape')
                    i += k
                elif e in '01234567':
                    h = e
                    while len(h) < 3 and i < n and known(chars[i]) in '01234567':
                        h += known(chars[i])
                        i += 1
                    val.append(chr(int(h, 8)))
                elif e == 'N' or not e:
                    raise NotImplementedError('escape ' + e)
                else:
                    val += ['\\', e]
                continue
            val.append(chars[i])
            i += 1
        v = strs.join('', val)
        if type(v) is SymStr:
            LITERALS.append(v)
            v = '\ue000%d\ue001' % (len(LITERALS) - 1)
        out.append(repr(v))
    tree = ast.parse(''.join(out))

    class Lit(ast.NodeTransformer):
        def visit_Constant(self, node):
            if isinstance(node.value, str) and '\ue000' in node.value:
                return ast.copy_location(ast.Call(
                    func=ast.Name(id='_sx_lit', ctx=ast.Load()),
                    args=[node], keywords=[]), node)
            return node
    tree = ast.fix_missing_locations(Lit().visit(tree))
    import re
    lits = list(LITERALS)

    def lit(s):
        parts = re.split('\ue000([0-9]+)\ue001', s)
        return strs.join('', [lits[int(x)] if k % 2 else x
                              for k, x in enumerate(parts)])
    builtins._sx_lit = lit
    return exec(compile(tree, '<config>', 'exec'), *a)


STD = {'textwrap', 'html', 'pprint', 'xml.sax.saxutils', 'shlex', 'string'}


def fake(name):
    m = FAKES.get(name)
    if name in PKG:
        return importlib.import_module(PKG[name])
    if m is None and name in STD:
        m = FAKES[name] = load_std(name)
    if m is None:
        raise ImportError(name)
    return m


def fake_from(modname, name):
    if modname in NOACCEL:
        raise ImportError(modname)
    m = fake(modname)
    try:
        return getattr(m, name)
    except AttributeError:
        if modname in PKG:
            return importlib.import_module(PKG[modname] + '.' + name)
        raise ImportError('%s.%s' % (modname, name))


def load_std(name):
    spec = importlib.util.find_spec(name)
    mod = types.ModuleType(name)
    mod.__file__ = spec.origin
    run_source(mod, open(spec.origin, encoding='utf-8').read(), spec.origin)
    return mod


def fakeset():
    return set(FAKES) | (STD - {'string'}) | set(PKG) | {'_json'}


def helpers():
    d = {'_sx_' + k: v for k, v in BUILTINS.items()}
    d.update(_sx_m=x_m, _sx_get=x_get, _sx_key=norm_key, _sx_in=x_in,
             _sx_notin=x_notin, _sx_mod=x_mod, _sx_fstr=x_fstr,
             _sx_slice=slice, _sx_strm=x_strm, _sx_fake=fake, _sx_from=fake_from, _sx_is=x_is)
    return d


def run_source(mod, src, path, post=None):
    tree = ast.parse(src, path)
    # keep real builtins behind aliases so local redefinitions stay in force
    bound = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            bound.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            bound.add(n.id)
        elif isinstance(n, ast.arg):
            bound.add(n.arg)
    tree = Tx(fakeset(), bound).visit(tree)
    ast.fix_missing_locations(tree)
    h = helpers()
    mod.__dict__.update(h)
    code = compile(tree, path, 'exec')
    exec(code, mod.__dict__)
    return mod


class Loader(importlib.abc.Loader):
    def __init__(self, path, pkg):
        self.path, self.pkg = path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        # a default argument, which is not a call
        src = src.replace('_intstr=int.__repr__', '_intstr=_sx_str') \
            if mod.__name__ == 'sx_json.encoder' else src
        outer = not DEPTH
        before = state.BASE.members() if outer else None
        DEPTH.append(mod)
        try:
            run_source(mod, src, self.path)
        finally:
            DEPTH.pop()
        if mod.__name__ == 'cmakelang.parse.printer' and hasattr(
                mod, 'tree_string'):
            # only used for messages; building them would fork on every
            # character
            mod.tree_string = lambda *a, **k: '<tree>'
        elif mod.__name__ == 'cmakelang.parse.funs' and not NOMEMO:
            memo_funs(mod)
        LOADED[mod.__name__] = self.path
        if outer and state.BASE.started:
            state.BASE.adopt(before)
            state.capture()


LOADED = {}
DEPTH = []


NOMEMO = bool(os.environ.get('SYMEX_NOMEMO'))


def memo_funs(mod):
    """the table of built-in command parsers does not depend on the input:
    build it once per process"""
    if hasattr(mod, 'get_parse_db'):
        real = mod.get_parse_db
        cache = []

        def get_parse_db():
            if not cache:
                cache.append(real())
            return dict(cache[0])
        mod.get_parse_db = get_parse_db
    if hasattr(mod, 'get_funtree'):
        real2 = mod.get_funtree
        memo = {}

        def get_funtree(spec):
            if getattr(spec, 'sx_shared', False):
                r = memo.get(id(spec))
                if r is None:
                    r = memo[id(spec)] = (spec, real2(spec))
                return dict(r[1])
            return real2(spec)
        mod.get_funtree = get_funtree


class Finder(importlib.abc.MetaPathFinder):
    roots = {'cmakelang': REPO, 'harness': VERIF}

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if name in NOACCEL:
            raise ImportError(name)
        if top in PKG.values():
            real = [k for k, v in PKG.items() if v == top][0]
            base = os.path.join(os.path.dirname(importlib.util.find_spec(
                real).origin), *name.split('.')[1:])
        elif top not in self.roots:
            return None
        else:
            base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isdir(base) and os.path.exists(
                os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p, True),
                submodule_search_locations=[base])
        p = base + '.py'
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p, False))
        return None


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.setrecursionlimit(20000)
    for p in ('/opt/venv/lib/python3.12/site-packages',):
        if p not in sys.path:
            sys.path.append(p)
    sys.meta_path.insert(0, Finder())


def mod(name):
    install()
    return importlib.import_module(name)
