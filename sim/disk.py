"""Simulated disk.

A run owns a scratch directory.  While a Disk is active, every file below that
directory that is opened through open()/io.open()/pathlib, h5py.File or soundfile goes
through SimFileIO: real Python buffering and real HDF5/libsndfile code on top, a
simulated system-call layer below.  The system-call layer slices reads and writes,
fails them, runs out of space, or kills the process at the n-th mutating call.
Durable state is what reached write(2): buffers that were not flushed die with the
process (process-crash model; the code under test never calls fsync, so it makes no
promise about power loss and none is checked).
"""
import builtins
import errno
import inspect
import io
import os
import pathlib
import random

from .core import SimCrash
from . import sched as _sched

_real_open = builtins.open
_real_io_open = io.open
_active = None
_installed = False


class Disk(object):
    def __init__(self, ctx, root, io_cfg=None, faults=()):
        self.ctx = ctx
        self.root = os.path.realpath(root)
        cfg = io_cfg or {}
        self.rng = random.Random('disk:%s' % cfg.get('seed', 0))
        self.slice_reads = cfg.get('slice_reads', 0.0)     # probability a read is cut short
        self.slice_writes = cfg.get('slice_writes', 0.0)
        self.vary_buf = cfg.get('vary_buf', False)
        # True: one write of a text index goes to disk in one piece, as a small write(2) to
        # a regular file does when only the process (not the machine) dies
        self.atomic_index = cfg.get('atomic_index', False)
        self.faults = [dict(f) for f in faults]
        self.n_mut = 0         # mutating system calls so far
        self.n_read = 0
        self.n_open = 0
        self.bytes_written = 0
        self.crashed = False
        self.failed = []       # injected errors that reached the caller's syscall
        self.limit = None
        self.files = []
        for f in self.faults:
            if f['kind'] == 'enospc':
                self.limit = f['after']

    # ---- activation -------------------------------------------------------
    def __enter__(self):
        global _active
        install()
        self._prev = _active
        _active = self
        return self

    def __exit__(self, *a):
        global _active
        _active = self._prev
        # the process is gone: whatever is still buffered must not reach the disk
        # later from a destructor
        for ref in self.files:
            ref.dead = True
        return False

    def owns(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def rel(self, path):
        p = os.path.abspath(os.fspath(path))
        return os.path.relpath(p, self.root)

    # ---- system calls -----------------------------------------------------
    def _alive(self):
        if self.crashed:
            raise SimCrash()

    def crash(self):
        self.crashed = True
        self.ctx.ev('crash', self.n_mut)
        raise SimCrash()

    def mutate(self, what, path, size=0):
        """One mutating system call.  Returns (bytes to write or None for all,
        crash_after)."""
        self._alive()
        self.n_mut += 1
        self.ctx.ev(what, self.rel(path), size)
        keep, after = None, False
        for f in self.faults:
            if f['kind'] == 'crash' and f['n'] == self.n_mut:
                self.ctx.fault('crash')
                self.ctx.state('crash', what, self.n_mut)
                k = f.get('keep', 0.0)
                if what == 'write' and 0 < k < 1 and not self._index_file(path):
                    self.ctx.fault('torn-write')
                    return int(size * k), True
                if k >= 1:
                    return None, True
                self.crash()
            elif f['kind'] == 'eio_write' and f['n'] == self.n_mut and \
                    not (what == 'mkdir' and os.path.isdir(path)):   # EEXIST comes first
                self.ctx.fault('eio-write')
                self.ctx.state('eio-write', self.n_mut)
                self.failed.append(('eio_write', self.rel(path)))
                self.ctx.ev('eio_write')
                raise OSError(errno.EIO, 'Input/output error (simulated)')
        if what == 'write' and self.limit is not None:
            room = self.limit - self.bytes_written
            if room <= 0:
                self.ctx.fault('enospc')
                self.ctx.state('enospc', self.n_mut)
                self.failed.append(('enospc', self.rel(path)))
                self.ctx.ev('enospc')
                raise OSError(errno.ENOSPC, 'No space left on device (simulated)')
            if size > room:
                self.ctx.fault('short-write')
                keep = room
        if keep is None and what == 'write' and size > 1 and self.slice_writes and \
                not (self.atomic_index and self._index_file(path)) and self.rng.random() < self.slice_writes:
            keep = self.rng.randint(1, size - 1)
            self.ctx.fault('sliced-write')
        return keep, after

    @staticmethod
    def _index_file(path):
        p = str(path)
        return p.endswith('.scp') or p.endswith('.csv')

    def read_len(self, path, size):
        """One read system call of at most size bytes; returns how many to give."""
        self._alive()
        self.n_read += 1
        for f in self.faults:
            if f['kind'] == 'eio_read' and f['n'] <= self.n_read < f['n'] + f.get('times', 1):
                self.ctx.fault('eio-read')
                self.ctx.state('eio-read', self.n_read)
                self.failed.append(('eio_read', self.rel(path)))
                self.ctx.ev('eio_read', self.rel(path))
                raise OSError(errno.EIO, 'Input/output error (simulated)')
        if size > 1 and self.slice_reads and self.rng.random() < self.slice_reads:
            size = self.rng.randint(1, size - 1)
            self.ctx.fault('sliced-read')
        self.ctx.ev('read', self.rel(path), size)
        return size

    def bufsize(self, path=''):
        if not self.vary_buf or (self.atomic_index and self._index_file(path)):
            return io.DEFAULT_BUFFER_SIZE
        return self.rng.choice([16, 17, 31, 64, 100, 257, 1024, 4096, 8192, 65536])


class SimFileIO(io.FileIO):
    """Raw file below the Python buffers."""

    def __init__(self, disk, path, mode, opener=None):
        self._d = disk
        self._p = os.path.abspath(os.fspath(path))
        self.dead = False
        self.quiet = False        # below HDF5: its global lock is held, no task switch here
        _sched.yield_point('open')
        disk._alive()
        disk.n_open += 1
        if mode[0] in 'wxa' or '+' in mode:
            _, after = disk.mutate('open-' + mode.replace('b', ''), path)
        else:
            after = False
            disk.ctx.ev('open', disk.rel(path))
        super().__init__(path, mode, opener=opener)
        disk.files.append(self)
        if after:
            disk.crash()

    def readinto(self, b):
        if self.dead:
            return 0
        if not self.quiet:
            _sched.yield_point('read')
        mv = memoryview(b).cast('B')
        n = self._d.read_len(self._p, len(mv))
        return super().readinto(mv[:n])

    def read(self, size=-1):
        if self.dead:
            return b''
        if not self.quiet:
            _sched.yield_point('read')
        if size is None or size < 0:
            return self.readall()
        n = self._d.read_len(self._p, size)
        return super().read(n)

    def readall(self):
        if self.dead:
            return b''
        out = []
        while True:
            n = self._d.read_len(self._p, 65536)
            c = super().read(n)
            if not c:
                break
            out.append(c)
        return b''.join(out)

    def write(self, b):
        mv = memoryview(b).cast('B')
        if self.dead:
            return len(mv)          # destructors of a killed process reach nothing
        if not self.quiet:
            _sched.yield_point('write')
        keep, after = self._d.mutate('write', self._p, len(mv))
        n = len(mv) if keep is None else keep
        if n:
            n = super().write(mv[:n])
        self._d.bytes_written += n
        if after or (keep is not None and self._crash_now(keep, len(mv))):
            self._d.crash()
        return n

    def _crash_now(self, keep, size):
        d = self._d
        return any(f['kind'] == 'crash' and f['n'] == d.n_mut for f in d.faults)

    def truncate(self, size=None):
        if self.dead:
            return size or 0
        _, after = self._d.mutate('truncate', self._p, size or 0)
        r = super().truncate(size)
        if after:
            self._d.crash()
        return r

    def close(self):
        # closing never blocks: the descriptor must be released even in a dead process
        try:
            super().close()
        except OSError:
            pass


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    d = _active
    if d is None or isinstance(file, int) or not d.owns(file):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    rawmode = mode.replace('t', '').replace('b', '').replace('U', '')
    raw = SimFileIO(d, file, rawmode or 'r', opener=opener)
    if buffering == 0:
        if not binary:
            raw.close()
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line_buffering = False
    if buffering == 1 and not binary:
        line_buffering = True
        buffering = -1
    bs = buffering if buffering > 1 else d.bufsize(file)
    if '+' in rawmode:
        buf = io.BufferedRandom(raw, bs)
    elif rawmode[0] in 'wxa':
        buf = io.BufferedWriter(raw, bs)
    else:
        buf = io.BufferedReader(raw, bs)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    text.mode = mode
    return text


# ---------------------------------------------------------------------------
def _patch_os():
    def wrap(name, paths):
        real = getattr(os, name)

        def f(*a, **k):
            d = _active
            if d is None or not any(d.owns(a[i]) for i in range(min(paths, len(a)))):
                return real(*a, **k)
            _sched.yield_point(name)
            _, after = d.mutate(name, a[0])
            r = real(*a, **k)
            if after:
                d.crash()
            return r
        f.__name__ = name
        f.__wrapped__ = real
        setattr(os, name, f)
    for n, p in (('rename', 2), ('replace', 2), ('remove', 1), ('unlink', 1), ('mkdir', 1)):
        wrap(n, p)


def _patch_h5py():
    import h5py
    real = h5py.File

    class File(real):
        def __init__(self, name, mode='r', driver=None, **kwds):
            d = _active
            if d is not None and driver is None and \
                    isinstance(name, (str, bytes, os.PathLike)) and d.owns(name):
                path = os.fspath(name)
                if isinstance(path, bytes):
                    path = os.fsdecode(path)
                if mode in ('r', None):
                    raw = SimFileIO(d, path, 'r')
                elif mode == 'r+':
                    raw = SimFileIO(d, path, 'r+')
                elif mode == 'a':
                    ex = os.path.exists(path)
                    raw = SimFileIO(d, path, 'r+' if ex else 'w+')
                    mode = 'r+' if ex else 'w'
                elif mode == 'w':
                    raw = SimFileIO(d, path, 'w+')
                else:
                    raw = SimFileIO(d, path, 'x+')
                    mode = 'w'
                raw.quiet = True
                self._sim_raw = raw
                self._sim_name = path
                try:
                    super().__init__(H5Adapter(raw), mode, **kwds)
                except BaseException:
                    raw.close()
                    raise
                _after_h5(self)
            else:
                self._sim_raw = None
                super().__init__(name, mode, driver, **kwds)

        @property
        def filename(self):
            n = getattr(self, '_sim_name', None)
            return n if n is not None else super().filename

        def close(self):
            try:
                super().close()
            finally:
                raw = getattr(self, '_sim_raw', None)
                if raw is not None:
                    raw.close()
            _after_h5(self)

        def flush(self):
            super().flush()
            _after_h5(self)

        def create_dataset(self, *a, **k):
            if self._sim_raw is not None:
                _sched.yield_point('h5-write')
            r = super().create_dataset(*a, **k)
            _after_h5(self)
            return r

    File.__module__ = real.__module__
    File.__qualname__ = 'File'
    h5py.File = File
    import h5py._hl.files as hf
    hf.File = File


def _after_h5(f):
    raw = getattr(f, '_sim_raw', None)
    if raw is not None and raw._d.crashed and raw._d is _active:
        raise SimCrash()


class H5Adapter(object):
    """What the fileobj driver of HDF5 needs; loops over short reads and writes the way
    HDF5's own POSIX driver does.  A kill inside an HDF5 call freezes the disk instead of
    unwinding through the C library (which would corrupt it for later runs): nothing
    further reaches the disk, and SimCrash is raised as soon as HDF5 returns (see File)
    or at the next system call."""

    def __init__(self, raw):
        self.raw = raw

    def tell(self):
        return self.raw.tell()

    def seek(self, *a):
        return self.raw.seek(*a)

    def read(self, n=-1):
        return self.raw.read(n)

    def readinto(self, b):
        mv = memoryview(b).cast('B')
        n = 0
        while n < len(mv):
            k = self.raw.readinto(mv[n:])
            if not k:
                mv[n:] = bytes(len(mv) - n)     # sec2 driver zero-fills past end of file
                break
            n += k
        return len(mv)

    def write(self, b):
        mv = memoryview(b).cast('B')
        n = 0
        try:
            while n < len(mv):
                n += self.raw.write(mv[n:])
        except SimCrash:
            self.raw.dead = True
        return len(mv)

    def truncate(self, size=None):
        try:
            return self.raw.truncate(size)
        except SimCrash:
            self.raw.dead = True
            return size

    def flush(self):
        return None


def _patch_sf():
    import soundfile as sf
    real_write, real_read, real_info = sf.write, sf.read, sf.info

    def write(file, data, samplerate, subtype=None, endian=None, format=None, *a, **k):
        d = _active
        if d is not None and isinstance(file, (str, os.PathLike)) and d.owns(file):
            if format is None:
                format = os.path.splitext(os.fspath(file))[1][1:].upper()
            bio = io.BytesIO()
            real_write(bio, data, samplerate, subtype=subtype, endian=endian, format=format,
                       *a, **k)
            with sim_open(file, 'wb', buffering=0) as f:
                b = memoryview(bio.getvalue())
                n = 0
                while n < len(b):
                    n += f.write(b[n:n + 8192])
            return None
        return real_write(file, data, samplerate, subtype, endian, format, *a, **k)

    def read(file, *a, **k):
        d = _active
        if d is not None and isinstance(file, (str, os.PathLike)) and d.owns(file):
            with sim_open(file, 'rb') as f:
                bio = io.BytesIO(f.read())
            d.ctx.ev('sf.read', d.rel(file))
            return real_read(bio, *a, **k)
        return real_read(file, *a, **k)

    def info(file, *a, **k):
        d = _active
        if d is not None and isinstance(file, (str, os.PathLike)) and d.owns(file):
            with sim_open(file, 'rb') as f:
                bio = io.BytesIO(f.read())
            return real_info(bio, *a, **k)
        return real_info(file, *a, **k)

    sf.write, sf.read, sf.info = write, read, info
    real_file = sf.SoundFile

    class SoundFile(real_file):
        """A sound file opened by its name is read from, and written to, the simulated disk."""
        _out = None

        def __init__(self, file, *args, **kwargs):
            d = _active
            if d is None or not isinstance(file, (str, os.PathLike)) or not d.owns(file):
                super().__init__(file, *args, **kwargs)
                return
            b = inspect.signature(real_file.__init__).bind(self, file, *args, **kwargs)
            b.apply_defaults()
            mode, bio = b.arguments['mode'] or 'r', io.BytesIO()
            if mode == 'r' or '+' in mode:
                with sim_open(file, 'rb') as f:
                    bio = io.BytesIO(f.read())
                d.ctx.ev('sf.read', d.rel(file))
            if mode != 'r':
                if b.arguments['format'] is None:
                    b.arguments['format'] = os.path.splitext(os.fspath(file))[1][1:].upper()
                self._out = (sim_open(file, 'wb', buffering=0), bio)
            b.arguments['file'] = bio
            super().__init__(*b.args[1:], **b.kwargs)

        def close(self):
            super().close()
            if self._out is not None:
                (f, bio), self._out = self._out, None
                with f:
                    b = memoryview(bio.getvalue())
                    n = 0
                    while n < len(b):
                        n += f.write(b[n:n + 8192])

        def __exit__(self, *args):
            self.close()

    sf.SoundFile = SoundFile


def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    try:
        pathlib.io.open = sim_open
    except AttributeError:
        pass
    _patch_os()
    _patch_h5py()
    _patch_sf()


def active():
    return _active
