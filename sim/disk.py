"""The simulated disk: every file operation of the library while a Disk is mounted.

Files opened through open()/io.open/pathlib/shutil get a raw layer of ours under Python's real buffering and
text layers. The raw layer decides by the scenario alone which call is short, fails, or is the last one before
a crash. Writes are confined: a path outside the writable directories is never touched, it is reported.
"""
import builtins
import errno
import io
import os
import shutil
import sys

from sim import core
from sim.core import Rng, SimCrash, Violation

REAL = {n: getattr(os, n) for n in ('open', 'read', 'write', 'close', 'stat', 'lstat', 'rename', 'replace', 'remove',
                                    'unlink', 'mkdir', 'rmdir', 'chmod', 'utime', 'listdir', 'scandir', 'link',
                                    'symlink', 'truncate', 'access')}
REAL_OPEN = io.open
ERR = {'eio': errno.EIO, 'enospc': errno.ENOSPC, 'eacces': errno.EACCES, 'emfile': errno.EMFILE,
       'edquot': errno.EDQUOT}
_tls = None


class Raw(io.FileIO):
    """Raw file of the simulated disk."""

    def __init__(self, disk, path, mode, opener=None):
        self._disk = None
        io.FileIO.__init__(self, path, mode, opener=opener)
        self._disk = disk
        self._path = path
        self._leaked = False
        disk.handles.append(self)

    def _dealloc_warn(self, source):       # closed by the garbage collector only
        self._leaked = True
        if self._disk is not None:
            self._disk.leaked.append(self._path)

    def readinto(self, b):
        n = self._disk.amount('read', len(b))
        if n < len(b):
            data = io.FileIO.read(self, n)
            b[:len(data)] = data
            return len(data)
        return io.FileIO.readinto(self, b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        n = self._disk.amount('read', size)
        return io.FileIO.read(self, n)

    def readall(self):
        out = []
        while True:
            n = self._disk.amount('read', 65536)
            d = io.FileIO.read(self, n)
            if not d:
                return b''.join(out)
            out.append(d)

    def write(self, b):
        size = memoryview(b).nbytes
        n = self._disk.amount('write', size)
        return io.FileIO.write(self, bytes(memoryview(b).cast('B')[:n]))

    def truncate(self, size=None):
        self._disk.point('truncate')
        return io.FileIO.truncate(self, size)

    def close(self):
        if self._disk is None or self.closed:
            return io.FileIO.close(self)
        writing = self.writable()
        try:
            if writing:
                self._disk.point('close')
        finally:
            io.FileIO.close(self)


class Disk(object):
    """faults: [(call number, kind)]; short: None or (seed, probability)."""

    def __init__(self, writable=(), overlay=None, faults=(), short=None, ctx=None):
        self.writable = [os.path.realpath(w) for w in writable]
        self.overlay = overlay or {}
        self.faults = {}
        for n, kind in faults:
            self.faults[n] = kind
        self.short = (Rng(short[0]), short[1]) if short else None
        self.ctx = ctx or core.Ctx()
        self.calls = 0
        self.fired = []
        self.dead = False
        self.enospc = False
        self.handles = []
        self.leaked = []
        self.escapes = []
        self.opened = []
        self.active = True
        self.no_shorten = False

    # -- faults
    def point(self, what):
        """One disk call: returns the kind of fault that strikes it, after raising the ones that raise."""
        if not self.active:
            return None
        if self.dead:
            raise SimCrash('the process is dead')
        self.calls += 1
        self.ctx.steps += 1
        kind = self.faults.get(self.calls)
        if kind is None:
            return None
        if kind == 'crash':
            self.dead = True
            self._fire(kind, what)
            raise SimCrash('crash at disk call %d (%s)' % (self.calls, what))
        if kind == 'interrupt':
            self._fire(kind, what)
            raise core.SimInterrupt('interrupt at disk call %d (%s)' % (self.calls, what))
        if kind == 'torn':
            if what == 'write':
                return 'torn'
            kind = 'eio'
        if kind in ('enospc', 'edquot') and what == 'read':
            return None
        if kind in ERR:
            self._fire(kind, what)
            raise OSError(ERR[kind], 'injected %s at disk call %d (%s)' % (kind, self.calls, what))
        return None

    def _fire(self, kind, what):
        self.fired.append((self.calls, kind, what))
        self.ctx.fault('disk_%s_%s' % (kind, what))

    def amount(self, what, size):
        """How many of `size` bytes this call moves."""
        torn = self.point(what)
        if torn == 'torn' and size > 1:      # part of the data arrives, the next call fails
            self._fire('torn', what)
            self.faults[self.calls + 1] = 'enospc' if what == 'write' else 'eio'
            return max(1, size // 2)
        if self.short and self.active and size > 1:
            r, p = self.short
            if r.random() < p:
                n = r.choice([1, 7, size // 3, size // 2, size - 1])
                self.ctx.fault('disk_short_' + what)
                return max(1, min(n, size))
        return size

    # -- paths
    def xlate(self, path):
        if isinstance(path, int) or not self.active:
            return path
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        a = os.path.abspath(p)
        for src, dst in self.overlay.items():
            if a == src or a.startswith(src + '/'):
                return dst + a[len(src):]
        return path

    def guard(self, path, what):
        """A destructive call on `path`: refuse it outside the writable directories."""
        if isinstance(path, int) or not self.active:
            return path
        p = self.xlate(path)
        a = os.path.realpath(os.path.dirname(os.path.abspath(os.fsdecode(os.fspath(p)))))
        if not any(a == w or a.startswith(w + '/') for w in self.writable):
            self.escapes.append((what, str(path)))
            raise PermissionError(errno.EACCES, 'simulated disk: %s outside the destination' % what, str(path))
        return p

    # -- mounting
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        self.point('open')
        binary, text = 'b' in mode, 'b' not in mode
        rawmode = ''.join(c for c in mode if c in 'rwxa+')
        if set(rawmode) & set('wxa+'):
            file = self.guard(file, 'open for writing')
        else:
            file = self.xlate(file)
        if binary and (encoding or errors or newline):
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)   # raises
        raw = Raw(self, file, rawmode, opener)
        self.opened.append(os.fsdecode(os.fspath(file)))
        try:
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if '+' in rawmode:
                buf = io.BufferedRandom(raw, size)
            elif 'r' in rawmode:
                buf = io.BufferedReader(raw, size)
            else:
                buf = io.BufferedWriter(raw, size)
            if binary:
                return buf
            t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
            t.mode = mode
            return t
        except BaseException:
            io.FileIO.close(raw)
            raise

    def __enter__(self):
        global MOUNTED
        MOUNTED = self
        self._cp = getattr(shutil, '_USE_CP_SENDFILE', None)
        if self._cp is not None:
            shutil._USE_CP_SENDFILE = False
        return self

    def __exit__(self, *a):
        global MOUNTED
        self.active = False
        MOUNTED = None
        if self._cp is not None:
            shutil._USE_CP_SENDFILE = self._cp
        return False

    # -- afterwards
    def unclosed(self):
        return [h._path for h in self.handles if not h.closed]

    def release(self):
        """Process death or the end of a call: close what is left without touching the disk's content."""
        for h in self.handles:
            h._disk = None
            try:
                io.FileIO.close(h)
            except OSError:
                pass


def _library_calls():
    """Is library code on the stack? (The harness and the interpreter use the real disk.)"""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith(core.REPO + '/'):
            return True
        f = f.f_back
    return False


# --------------------------------------------------------------------------- seams, installed once before the library
MOUNTED = None


def _disk(path=None):
    d = MOUNTED
    if d is None or not d.active or isinstance(path, int) or not _library_calls():
        return None
    return d


def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = _disk(file)
    return (d.open if d else REAL_OPEN)(file, mode, buffering, encoding, errors, newline, closefd, opener)


def _one(name, destructive):
    real = REAL[name]

    def call(path='.', *a, **kw):
        d = _disk(path)
        if d:
            if destructive:
                path = d.guard(path, name)
                d.point(name)
            else:
                path = d.xlate(path)
        return real(path, *a, **kw)
    call.__name__ = name
    return call


def _two(name):
    real = REAL[name]

    def call(src, dst, *r, **kw):
        d = _disk(src)
        if d:
            src = d.guard(src, name) if name in ('rename', 'replace') else d.xlate(src)
            dst = d.guard(dst, name)
            d.point(name)
        return real(src, dst, *r, **kw)
    call.__name__ = name
    return call


def _os_open(path, flags, *a, **kw):
    d = _disk(path)
    if d:
        d.point('open')
        path = d.guard(path, 'os.open') if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) \
            else d.xlate(path)
    return REAL['open'](path, flags, *a, **kw)


def _os_read(fd, n):
    d = _disk()
    return REAL['read'](fd, d.amount('read', n) if d else n)


def _os_write(fd, b):
    d = _disk()
    return REAL['write'](fd, bytes(b)[:d.amount('write', len(b))] if d else b)


def install():
    builtins.open = io.open = _open
    new = {'open': _os_open, 'read': _os_read, 'write': _os_write}
    for n in ('stat', 'lstat', 'listdir', 'scandir', 'access'):
        new[n] = _one(n, False)
    for n in ('remove', 'unlink', 'mkdir', 'rmdir', 'chmod', 'utime', 'truncate'):
        new[n] = _one(n, True)
    for n in ('rename', 'replace', 'link', 'symlink'):
        new[n] = _two(n)
    for n, f in new.items():
        setattr(os, n, f)
        for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks, os.supports_effective_ids):
            if REAL[n] in s:
                s.add(f)


install()
