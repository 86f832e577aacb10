"""A scratch directory behind a faulty disk: every open / write / flush-to-raw / close / fsync / rename is one I/O operation,
and the plan says which operation fails and how."""
import errno
import io
import os
from . import core

KINDS = {
    'open': ['EACCES', 'ENOSPC', 'EIO', 'KeyboardInterrupt'],
    'write': ['ENOSPC', 'EIO', 'torn_ENOSPC', 'torn_EIO', 'short', 'short1', 'KeyboardInterrupt', 'torn_KeyboardInterrupt'],
    'close': ['EIO', 'ENOSPC', 'KeyboardInterrupt'],
    'fsync': ['EIO'],
    'rename': ['EIO', 'ENOSPC', 'EACCES'],
    'truncate': ['EIO'],
}


class SimRaw(io.RawIOBase):
    def __init__(self, fs, f, name, mode):
        self._fs, self._f, self.name, self._mode = fs, f, name, mode

    @property
    def mode(self):
        return self._mode

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self._f.fileno()

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, *a):
        self._fs.op('truncate')
        return self._f.truncate(*a)

    def readinto(self, b):
        return self._f.readinto(b)

    def write(self, b):
        n = len(b)
        k = self._fs.op('write', n)
        if k is None:
            return self._f.write(b)
        if k.startswith('torn') or k in ('short', 'short1'):
            m = 1 if k == 'short1' else max(1, n // 2)
            if n:
                self._f.write(bytes(b)[:m])
            if k in ('short', 'short1'):
                return m if n else 0
            self._fs.throw(k.split('_', 1)[1])
        self._fs.throw(k)

    def close(self):
        if self.closed:
            return
        k = self._fs.op('close')
        self._f.close()
        super().close()
        if k:
            self._fs.throw(k)


class SimFS:
    def __init__(self, root, W):
        self.root, self.W = os.path.realpath(root) + os.sep, W
        self.ops = []
        self.plan = {}
        self.real = {n: getattr(os, n) for n in ('rename', 'replace', 'fsync', 'link', 'unlink', 'remove')}
        self.on = True
        os.rename = lambda a, b, **k: self._move('rename', a, b, **k)
        os.replace = lambda a, b, **k: self._move('replace', a, b, **k)
        os.link = lambda a, b, **k: self._move('link', a, b, **k)
        os.fsync = self._fsync

    def restore(self):
        for n, f in self.real.items():
            setattr(os, n, f)

    def owns(self, file):
        if not self.on or isinstance(file, int):
            return False
        try:
            p = os.path.realpath(os.fsdecode(os.fspath(file)))
        except TypeError:
            return False
        return p.startswith(self.root)

    def op(self, kind, n=0):
        if not self.on:
            return None
        i = len(self.ops)
        self.ops.append(kind)
        k = self.plan.get(i)
        self.W.event(f'io {i} {kind} {n}' + (f' fault {k}' if k else ''))
        if k is not None:
            self.W.fault(f'{kind}_{k}')
        return k

    def throw(self, k):
        if k == 'KeyboardInterrupt':
            raise KeyboardInterrupt('injected')
        e = getattr(errno, k)
        raise OSError(e, 'injected: ' + os.strerror(e))

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        k = self.op('open')
        if k:
            self.throw(k)
        text = 'b' not in mode
        raw = SimRaw(self, core.REAL_OPEN(file, mode.replace('t', '').replace('b', '') + 'b', buffering=0), file, mode)
        if buffering == 0:
            return raw
        if '+' in mode:
            f = io.BufferedRandom(raw)
        elif 'r' in mode:
            f = io.BufferedReader(raw)
        else:
            f = io.BufferedWriter(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        return io.TextIOWrapper(f, encoding, errors, newline) if text else f

    def _move(self, how, a, b, **kw):
        if self.owns(b):
            k = self.op('rename')
            if k:
                self.throw(k)
        return self.real[how](a, b, **kw)

    def _fsync(self, fd):
        k = self.op('fsync')
        if k:
            self.throw(k)
        return self.real['fsync'](fd)
