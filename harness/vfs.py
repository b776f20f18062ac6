"""A file system held in memory, put underneath the programs at the level of the
standard library (os, os.path, io, open, stat).  Contents, existence, mode bits
and the position of an injected fault may be unknown values.  Everything below
/v and every path in `files` is virtual; other paths reach the real system, for
reading only."""
import argparse
import builtins
import codecs
import errno
import io
import json
import os
import stat
import sys

from symex import rt

DEBUG = bool(os.environ.get('VFS_DEBUG'))


class Unsupported(Exception):
    pass


class File(object):
    def __init__(self, text='', enc='utf-8', mode=0o644, exists=True):
        self.text = text
        self.enc = enc
        self.mode = mode
        self.exists = exists
        self.torn = False


def enc_name(e):
    name = codecs.lookup(e or 'utf-8').name
    return {'iso8859-1': 'latin-1'}.get(name, name)


def newlines(text, newline):
    """translation done by a text stream opened for writing"""
    if newline in ('\r\n', '\r'):
        return text.replace('\n', newline)
    return text


class Handle(object):
    """an open file"""

    def __init__(self, fs, path, mode, encoding, newline):
        self.fs, self.path, self.mode = fs, path, mode
        self.encoding = enc_name(encoding)
        self.newline = newline
        self.name = path
        self.closed = False
        self.binary = 'b' in mode
        self.parts = []
        self.pos = None

    # reading
    def _content(self):
        f = self.fs.files[self.path]
        text = f.text
        if self.binary:
            return to_bytes(text, f.enc)
        if self.encoding != f.enc:
            text = recode(text, f.enc, self.encoding)
        if self.newline is None:
            text = text.replace('\r\n', '\n').replace('\r', '\n')
        return text

    def read(self, n=-1):
        self.fs.step('read', self.path)
        if self.pos is None:
            self.pos = self._content()
        if n is None or n < 0:
            r, self.pos = self.pos, self.pos[:0]
        else:
            r, self.pos = self.pos[:n], self.pos[n:]
        return r

    def readlines(self):
        t = self.read()
        return t.splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def readline(self):
        raise Unsupported('readline')

    # writing
    def write(self, data):
        if self.closed or not ('w' in self.mode or 'a' in self.mode or
                               'x' in self.mode or '+' in self.mode):
            raise ValueError('not writable')
        if not self.binary:
            check_encodable(data, self.encoding)
        self.fs.step('write', self.path)
        self.parts.append(data)
        self.fs.mutated('write', self.path)
        return len(data)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        if self.parts:
            self.fs.step('flush', self.path)

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        return False

    def close(self):
        if self.closed:
            return
        self.closed = True
        if 'r' in self.mode and '+' not in self.mode:
            return
        self.fs.step('close', self.path)
        f = self.fs.files.get(self.path)
        if f is None:
            return
        if self.binary:
            data = b''
            for p in self.parts:
                data = data + p
            f.text, f.enc = from_bytes(data), 'utf-8'
        else:
            old = f.text if 'a' in self.mode else ''
            f.text = old + newlines(''.join(self.parts), self.newline)
            f.enc = self.encoding
        f.torn = False
        self.fs.mutated('close', self.path)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def from_bytes(b):
    return b.decode('utf-8')


def to_bytes(text, enc):
    if rt.symbolic():
        if enc != 'utf-8':
            text = rt.conc(text)
        return text.encode(enc)
    return text.encode(enc)


def is_ascii(text):
    return rt.is_ascii(text)


def check_encodable(text, enc):
    if enc.startswith('utf-'):
        return
    if not is_ascii(text):
        rt.conc(text).encode(enc)


def recode(text, enc, enc2):
    """what a reader assuming enc2 sees"""
    if is_ascii(text) and not (enc + enc2).count('16'):
        return text
    return rt.conc(text).encode(enc).decode(enc2)


class Stat(object):
    def __init__(self, mode, size):
        self.st_mode, self.st_size = mode, size
        self.st_mtime = self.st_atime = self.st_ctime = 0.0
        self.st_mtime_ns = self.st_atime_ns = 0
        self.st_uid = self.st_gid = 0
        self.st_ino = self.st_dev = 1
        self.st_nlink = 1
        self.st_flags = 0


class StdStream(object):
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self, fs, fd):
        self.fs, self.fd = fs, fd
        self.buffer = self

    def fileno(self):
        return self.fd

    def write(self, s):
        self.fs.stdout.append((s, 'utf-8'))
        return len(s)

    def read(self, n=-1):
        return self.fs.stdin.text

    def flush(self):
        pass

    def isatty(self):
        return False


class StdHandle(object):
    """result of io.open(fd)"""

    def __init__(self, fs, fd, mode, encoding, newline):
        self.fs, self.fd, self.mode = fs, fd, mode
        self.encoding, self.newline = enc_name(encoding), newline
        self.closed = False

    def write(self, s):
        check_encodable(s, self.encoding)
        self.fs.stdout.append((newlines(s, self.newline), self.encoding))
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def read(self, n=-1):
        f = self.fs.stdin
        text = f.text
        if self.encoding != f.enc:
            text = recode(text, f.enc, self.encoding)
        if self.newline is None:
            text = text.replace('\r\n', '\n').replace('\r', '\n')
        return text

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class VFS(object):
    def __init__(self, cwd='/v'):
        self.files = {}
        self.dirs = {'/', '/v'}
        self.cwd = cwd
        self.stdout = []
        self.stdin = File('')
        self.fault = None
        self.steps = 0
        self.faulted = False
        self.hook = None
        self.log = []
        self.tmpcount = 0

    def add(self, path, text='', **kw):
        self.files[path] = File(text, **kw)
        d = os.path.dirname(path)
        while d not in self.dirs:
            self.dirs.add(d)
            d = os.path.dirname(d)

    # -- helpers
    def norm(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        if not path.startswith('/'):
            path = self.cwd + '/' + path
        path = os.path.normpath(path)
        return '/' + path.lstrip('/')

    def mine(self, path):
        if not isinstance(path, (str, os.PathLike)):
            return None
        p = self.norm(path)
        if p == '/v' or p.startswith('/v/') or p in self.files:
            return p
        return None

    def step(self, kind, path):
        self.steps += 1
        if self.fault is not None and not self.faulted and self.fault == self.steps:
            self.faulted = True
            raise OSError(errno.EIO, 'injected fault', path)

    def mutated(self, kind, path):
        self.log.append((kind, path))
        if self.hook is not None:
            self.hook(kind, path)

    def has(self, p):
        f = self.files.get(p)
        if f is None:
            return False
        return f.exists

    def need(self, p):
        if not self.has(p):
            raise FileNotFoundError(errno.ENOENT, 'No such file', p)
        return self.files[p]

    # -- os level operations (p is normalised)
    def open(self, p, mode='r', encoding=None, newline=None):
        if p in self.dirs:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', p)
        if os.path.dirname(p) not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, 'No such directory', p)
        self.step('open ' + mode, p)
        if 'r' in mode:
            self.need(p)
            return Handle(self, p, mode, encoding, newline)
        if 'x' in mode and self.has(p):
            raise FileExistsError(errno.EEXIST, 'exists', p)
        if not self.has(p):
            self.files[p] = File('', enc_name(encoding))
        f = self.files[p]
        if 'a' not in mode:
            f.text = ''
        f.torn = True
        self.mutated('open ' + mode, p)
        return Handle(self, p, mode, encoding, newline)

    def rename(self, a, b):
        self.step('rename', a)
        if a in self.dirs or b in self.dirs:
            raise OSError(errno.EISDIR, 'directory', b)
        f = self.need(a)
        del self.files[a]
        self.files[b] = f
        self.mutated('rename', b)

    def unlink(self, p):
        self.step('unlink', p)
        self.need(p)
        del self.files[p]
        self.mutated('unlink', p)

    def chmod(self, p, mode):
        self.step('chmod', p)
        self.need(p).mode = mode
        self.mutated('chmod', p)

    def stat(self, p):
        if p in self.dirs:
            return Stat(0o040755, 4096)
        f = self.need(p)
        self.step('stat', p)
        return Stat(f.mode + 0o100000, len(f.text))

    def access(self, p, mode):
        """as the superuser"""
        if p in self.dirs:
            return True
        if not self.has(p):
            return False
        if mode & os.X_OK:
            m = self.files[p].mode
            return rt.disj([m % 2 == 1, m // 8 % 2 == 1, m // 64 % 2 == 1])
        return True

    def snapshot(self):
        return {p: (f.text, f.enc, f.mode, f.torn) for p, f in self.files.items()
                if not (f.exists is False)}


def run_main(main, argv, fs, values=None):
    """Run a program's main() on the virtual file system.

    values: {marker: value}; a command-line value or configuration value equal
    to the marker is replaced by the (possibly unknown) value.  Returns
    (status, exception name or None)."""
    values = values or {}
    saved = []

    def patch(obj, name, new):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, new)

    def one(obj, name, fn):
        """fn(p, *args) for virtual paths, the original otherwise"""
        orig = getattr(obj, name)

        def repl(path, *a, **k):
            p = fs.mine(path)
            if p is None:
                return orig(path, *a, **k)
            return fn(p, *a, **k)
        patch(obj, name, repl)

    def deny(obj, name):
        if not hasattr(obj, name):
            return

        def repl(*a, **k):
            raise Unsupported(name)
        patch(obj, name, repl)

    real_open = builtins.open

    def vopen(file, mode='r', buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
        if isinstance(file, int) and file in (1001, 1000):
            return StdHandle(fs, file, mode, encoding, newline)
        p = fs.mine(file) if not isinstance(file, int) else None
        if p is None:
            if 'r' not in mode or '+' in mode:
                raise Unsupported('write to a real path')
            return real_open(file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
        return fs.open(p, mode, encoding, newline)

    def subst(v):
        if isinstance(v, list):
            return [subst(x) for x in v]
        if isinstance(v, dict):
            return {k: subst(x) for k, x in v.items()}
        if isinstance(v, (str, int)) and not isinstance(v, bool) and v in values:
            return values[v]
        return v

    real_parse = argparse.ArgumentParser.parse_args

    def parse_args(self, args=None, namespace=None):
        ns = real_parse(self, list(argv), namespace)
        for k, v in list(vars(ns).items()):
            setattr(ns, k, subst(v))
        return ns

    real_loads = json.loads

    def json_load(fp, *a, **k):
        return subst(real_loads(fp.read(), *a, **k))

    def json_loads(s, *a, **k):
        return subst(real_loads(s, *a, **k))
    real_imode = stat.S_IMODE

    def s_imode(m):
        try:
            return real_imode(m)
        except TypeError:
            return m - 0o100000
    real_ifmt = stat.S_IFMT

    def s_ifmt(m):
        try:
            return real_ifmt(m)
        except TypeError:
            return 0o100000

    def mkstemp(suffix='', prefix='tmp', dir=None, text=False):
        raise Unsupported('mkstemp')

    osp = os.path
    try:
        patch(builtins, 'open', vopen)
        patch(io, 'open', vopen)
        one(osp, 'exists', lambda p: True if p in fs.dirs else fs.has(p))
        one(osp, 'lexists', lambda p: True if p in fs.dirs else fs.has(p))
        one(osp, 'isfile', lambda p: False if p in fs.dirs else fs.has(p))
        one(osp, 'isdir', lambda p: p in fs.dirs)
        one(osp, 'islink', lambda p: False)
        one(osp, 'realpath', lambda p, **k: p)
        one(osp, 'getsize', lambda p: len(fs.need(p).text))
        one(osp, 'getmtime', lambda p: 0.0)
        patch(osp, 'samefile', lambda a, b: fs.norm(a) == fs.norm(b))
        one(os, 'stat', lambda p, **k: fs.stat(p))
        one(os, 'lstat', lambda p, **k: fs.stat(p))
        one(os, 'chmod', lambda p, mode, **k: fs.chmod(p, mode))
        one(os, 'utime', lambda p, *a, **k: None)
        one(os, 'unlink', lambda p, **k: fs.unlink(p))
        one(os, 'remove', lambda p, **k: fs.unlink(p))
        one(os, 'rename', lambda p, q, **k: fs.rename(p, fs.norm(q)))
        one(os, 'replace', lambda p, q, **k: fs.rename(p, fs.norm(q)))
        one(os, 'access', lambda p, mode, **k: fs.access(p, mode))
        one(os, 'listdir', lambda p='.': sorted(
            os.path.basename(x) for x in fs.files if os.path.dirname(x) == p))
        if hasattr(os, 'listxattr'):
            one(os, 'listxattr', lambda p, **k: [])
        patch(os, 'getcwd', lambda: fs.cwd)
        patch(os, 'dup', lambda fd: fd)
        for name in ('rmdir', 'removedirs', 'mkdir', 'makedirs', 'link',
                     'symlink', 'truncate', 'open', 'chown', 'system', 'mkfifo',
                     'mknod', 'chdir', 'kill', 'fchmod', 'ftruncate'):
            deny(os, name)
        patch(stat, 'S_IMODE', s_imode)
        patch(stat, 'S_IFMT', s_ifmt)
        for name, flag in (('REG', 'REG'), ('DIR', 'DIR'), ('LNK', 'LNK'),
                           ('FIFO', 'IFO'), ('SOCK', 'SOCK'), ('CHR', 'CHR'),
                           ('BLK', 'BLK')):
            patch(stat, 'S_IS' + name,
                  lambda m, _v=getattr(stat, 'S_IF' + flag): s_ifmt(m) == _v)
        patch(json, 'load', json_load)
        patch(json, 'loads', json_loads)
        try:
            import yaml
            real_yaml = yaml.load
            patch(yaml, 'load', lambda s, *a, **k: subst(real_yaml(
                s.read() if hasattr(s, 'read') else s, *a, **k)))
        except ImportError:
            pass
        patch(argparse.ArgumentParser, 'parse_args', parse_args)
        patch(sys, 'stdout', StdStream(fs, 1001))
        patch(sys, 'stdin', StdStream(fs, 1000))
        try:
            status = main()
            exc = None
        except SystemExit as ex:
            status, exc = ex.code, None
        except rt.Bad:
            raise
        except Unsupported:
            raise
        except (Exception, KeyboardInterrupt) as ex:
            if type(ex).__module__.startswith('symex'):
                raise
            if DEBUG:
                import traceback
                traceback.print_exc()
            status, exc = 1, type(ex).__name__
    finally:
        for obj, name, old in reversed(saved):
            setattr(obj, name, old)
    if status is None:
        status = 0
    return status, exc
