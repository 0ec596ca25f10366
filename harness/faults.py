"""Fault and crash machinery: an operating-system-level trace of what is
written to files, and write failures at any byte."""
import builtins
import contextlib
import io
import os
import resource
import signal


@contextlib.contextmanager
def size_limit(n):
    """No file can grow beyond n bytes."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    handler = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, handler)


class Traced(object):
    """Records the effects on files below c.tmp, in order:
      ('write', fileno-identity, offset, bytes), ('truncate', id, size),
      ('rename', a, b), ('link', a, b), ('unlink', a), ('create', path, id),
      ('fsync', id).
    Everything opened while it is active is traced, also after it ends."""

    def __init__(self, c):
        self.c = c
        self.root = c.tmp
        self.events = []
        self.on = True

    def inside(self, name):
        return isinstance(name, str) and os.path.abspath(name).startswith(
            self.root + os.sep)

    def event(self, *e):
        if self.on:
            self.events.append(e)

    def __enter__(self):
        t = self
        self.saved = (builtins.open, io.open, os.rename, os.link, os.unlink,
                      os.fsync, os.replace, os.remove, os.ftruncate, os.open)
        real_open = builtins.open

        class TraceIO(io.FileIO):
            def __init__(self, name, mode):
                existed = os.path.exists(name)
                super().__init__(name, mode)
                self.trace_id = os.fstat(self.fileno()).st_ino
                if not existed or 'w' in mode:
                    t.event('create', os.path.abspath(name), self.trace_id)

            def write(self, b):
                b = bytes(b)
                at = self.tell()
                n = super().write(b)
                t.event('write', self.trace_id, at, b[:n])
                return n

            def truncate(self, size=None):
                n = super().truncate(size)
                t.event('truncate', self.trace_id, n)
                return n

        def traced_open(name, mode='r', buffering=-1, *args, **kw):
            if not t.inside(name) or 'b' not in mode or (
                    'r' in mode and '+' not in mode):
                return real_open(name, mode, buffering, *args, **kw)
            raw = TraceIO(name, mode.replace('b', ''))
            if buffering == 0:
                return raw
            if not raw.readable():
                return io.BufferedWriter(raw)
            return io.BufferedRandom(raw)
        builtins.open = io.open = traced_open

        def wrap(fname, tag, n):
            real = getattr(os, fname)
            def f(*a, **k):
                result = real(*a, **k)
                if any(t.inside(x) for x in a[:n]):
                    t.event(tag, *[os.path.abspath(x) for x in a[:n]])
                return result
            setattr(os, fname, f)
        wrap('rename', 'rename', 2)
        wrap('replace', 'rename', 2)
        wrap('link', 'link', 2)
        wrap('unlink', 'unlink', 1)
        wrap('remove', 'unlink', 1)
        real_fsync = os.fsync
        def fsync(f):
            fd = f if isinstance(f, int) else f.fileno()
            t.event('fsync', os.fstat(fd).st_ino)
            # the real call is not needed, and it is slow
        os.fsync = fsync
        if hasattr(os, 'fdatasync'):
            self.fdatasync = os.fdatasync
            os.fdatasync = fsync
        real_ftruncate = os.ftruncate
        def ftruncate(fd, n):
            real_ftruncate(fd, n)
            t.event('truncate', os.fstat(fd).st_ino, n)
        os.ftruncate = ftruncate
        return self

    def __exit__(self, *exc):
        (builtins.open, io.open, os.rename, os.link, os.unlink, os.fsync,
         os.replace, os.remove, os.ftruncate, os.open) = self.saved
        if hasattr(self, 'fdatasync'):
            os.fdatasync = self.fdatasync


class Disk(object):
    """A directory as the operating system would have it after a prefix of
    the traced events."""
    def __init__(self, names, blobs):
        self.names = dict(names)    # path -> id
        self.blobs = dict(blobs)    # id -> bytes

    @classmethod
    def snapshot(cls, root):
        names, blobs = {}, {}
        for n in os.listdir(root):
            p = os.path.join(root, n)
            if os.path.isfile(p):
                i = os.stat(p).st_ino
                names[p] = i
                with open(p, 'rb') as f:
                    blobs[i] = f.read()
        return cls(names, blobs)

    def copy(self):
        return Disk(self.names, self.blobs)

    def apply(self, e, part=None):
        """part: only so many bytes of a write."""
        k = e[0]
        if k == 'create':
            self.names[e[1]] = e[2]
            self.blobs[e[2]] = b''
        elif k == 'write':
            b = self.blobs.get(e[1], b'')
            data = e[3] if part is None else e[3][:part]
            if not data:
                return
            if len(b) < e[2]:
                b = b + bytes(e[2] - len(b))
            self.blobs[e[1]] = b[:e[2]] + data + b[e[2] + len(data):]
        elif k == 'truncate':
            b = self.blobs.get(e[1], b'')
            self.blobs[e[1]] = b[:e[2]] + bytes(max(0, e[2] - len(b)))
        elif k == 'rename':
            if e[1] in self.names:
                self.names[e[2]] = self.names.pop(e[1])
        elif k == 'link':
            if e[1] in self.names:
                self.names[e[2]] = self.names[e[1]]
        elif k == 'unlink':
            self.names.pop(e[1], None)

    def materialize(self, root, new_root):
        if not os.path.isdir(new_root):
            os.mkdir(new_root)
        for n in os.listdir(new_root):
            os.unlink(os.path.join(new_root, n))
        by_id = {}
        for p, i in self.names.items():
            q = os.path.join(new_root, os.path.relpath(p, root))
            if i in by_id:
                os.link(by_id[i], q)
            else:
                with open(q, 'wb') as f:
                    f.write(self.blobs[i])
                by_id[i] = q
