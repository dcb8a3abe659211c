"""A file system with faults, in front of a real scratch directory.

Every operation of the code under test on paths below the scratch directory -
through tf.io.gfile, builtins.open or os - is one numbered step.  The plan says
at which step the process dies, or which step fails and how.  Writes are
buffered as in the real libraries: what was not flushed when the process dies
is kept only up to a drawn prefix.  Nothing outside the directory is touched.
"""
import builtins
import errno
import glob as glob_lib
import io
import os

from sim import core


READS = ('open_r', 'read', 'exists', 'glob', 'listdir')


class FaultFS:
  """Installed with `with fs.installed():`; one per simulated process."""

  def __init__(self, root, ctx=None):
    self.root = os.path.realpath(root)
    self.ctx = ctx
    self.n = 0              # operations seen so far
    self.crash_at = None    # dies at this operation ...
    self.crash_in = 'any'   # ... counted among these ('read', 'write', 'any')
    self.counts = {'read': 0, 'write': 0}
    self.keep = 0.5         # share of the unflushed data that survives a crash
    self.errors = {}        # operation number -> kind of error
    self.read_error = None  # (countdown, kind): fails the n-th read operation
    self.write_error = None  # (countdown, kind): fails the n-th write operation
    self.dead = False
    self.log = []           # the last operation
    self.open_writers = []
    self.error_raised = None
    self.frozen = False

  # -- steps ---------------------------------------------------------------

  def mine(self, path):
    try:
      p = os.path.realpath(os.fspath(path))
    except TypeError:
      return False
    if isinstance(p, bytes):
      p = os.fsdecode(p)
    return p == self.root or p.startswith(self.root + os.sep)

  def kill(self):
    """The process dies now: open files keep what was written, or part of it."""
    self.dead = True
    for w in list(self.open_writers):
      w.die()
    raise core.SimCrash('killed')

  def step(self, kind, path, gfile=True):
    if self.frozen:
      return
    if self.dead:
      raise core.SimCrash('dead')
    self.n += 1
    self.log = [(kind, path)]
    cls = 'read' if kind in READS else 'write'
    self.counts[cls] += 1
    n = self.n if self.crash_in == 'any' else self.counts[self.crash_in]
    if self.crash_at is not None and n >= self.crash_at:
      if self.ctx:
        self.ctx.fault('crash_at_fs_' + kind)
      self.kill()
    err = self.errors.pop(self.n, None)
    attr = cls + '_error'
    pending = getattr(self, attr)
    if pending is not None:
      left, what = pending
      if left <= 0:
        setattr(self, attr, None)
        err = what
      else:
        setattr(self, attr, (left - 1, what))
    if err is not None:
      if self.ctx:
        self.ctx.fault(f'io_error_{cls}_{err}')
      e = self.make_error(err, path, gfile)
      self.error_raised = (kind, os.path.basename(os.fspath(path)), err)
      raise e

  def make_error(self, kind, path, gfile):
    code = {'enospc': errno.ENOSPC, 'eio': errno.EIO,
            'eacces': errno.EACCES, 'eagain': errno.EAGAIN}[kind]
    if not gfile:
      return OSError(code, os.strerror(code), os.fspath(path))
    import tensorflow as tf
    cls = {'enospc': tf.errors.ResourceExhaustedError,
           'eio': tf.errors.UnknownError,
           'eacces': tf.errors.PermissionDeniedError,
           'eagain': tf.errors.UnavailableError}[kind]
    return cls(None, None, f'{os.fspath(path)}; {os.strerror(code)}')

  # -- installation --------------------------------------------------------

  def installed(self):
    return _Installed(self)


class Writer:
  """A file being written: unflushed data is lost or torn by a crash."""

  def __init__(self, fs, path, mode, gfile):
    self.fs, self.name, self.mode, self.gfile = fs, path, mode, gfile
    self.text = 'b' not in mode
    self.buf = bytearray()
    self.closed = False
    self.created = False
    self.encoding = 'utf-8'
    if not gfile:
      self._create()
    fs.open_writers.append(self)

  def _create(self):
    if not self.created:
      if not os.path.isdir(os.path.dirname(os.path.realpath(self.name))):
        raise self._missing()
      flags = 'ab' if 'a' in self.mode else ('xb' if 'x' in self.mode else 'wb')
      _REAL['open'](self.name, flags).close()
      self.created = True

  def _missing(self):
    if self.gfile:
      import tensorflow as tf
      return tf.errors.NotFoundError(
          None, None, f'{self.name}; No such file or directory')
    return FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), self.name)

  def write(self, data):
    if self.closed:
      raise ValueError('I/O operation on closed file.')
    if isinstance(data, str):
      raw = data.encode()
    else:
      if self.text and not self.gfile:
        raise TypeError('write() argument must be str, not bytes')
      raw = bytes(data)
    if self.fs.dead:
      raise core.SimCrash('dead')
    try:
      self.fs.step('write', self.name, self.gfile)
    except core.SimCrash:
      raise
    except Exception:
      # A short write: part of it got to the disk.
      self._create()
      self.buf += raw[:int(len(raw) * self.fs.keep)]
      self._put(len(self.buf))
      raise
    self._create()
    self.buf += raw
    return len(data)

  def writelines(self, lines):
    for l in lines:
      self.write(l)

  def _put(self, k):
    with _REAL['open'](self.name, 'ab') as f:
      f.write(bytes(self.buf[:k]))
    del self.buf[:k]

  def flush(self):
    if self.fs.dead:
      raise core.SimCrash('dead')
    if self.closed:
      return
    self.fs.step('flush', self.name, self.gfile)
    if self.created:
      self._put(len(self.buf))

  def close(self):
    if self.closed:
      return
    if self.fs.dead:
      self.closed = True
      return
    try:
      self.fs.step('close', self.name, self.gfile)
    except core.SimCrash:
      raise
    except Exception:
      self._create()
      self._put(int(len(self.buf) * self.fs.keep))
      self._done()
      raise
    if not self.created:
      self._create()
    self._put(len(self.buf))
    self._done()

  def _done(self):
    self.closed = True
    self.buf = bytearray()
    if self in self.fs.open_writers:
      self.fs.open_writers.remove(self)

  def die(self):
    if not self.closed:
      if self.created:
        self._put(int(len(self.buf) * self.fs.keep))
      self._done()

  def size(self):
    return os.path.getsize(self.name) + len(self.buf)

  def tell(self):
    return (os.path.getsize(self.name) if self.created else 0) + len(self.buf)

  def seekable(self):
    return False

  def readable(self):
    return False

  def writable(self):
    return True

  def fileno(self):
    raise io.UnsupportedOperation('fileno')

  def isatty(self):
    return False

  def __enter__(self):
    return self

  def __exit__(self, *exc):
    self.close()


class Reader:
  """A file being read; every read is a step."""

  def __init__(self, fs, path, f, gfile):
    self._fs, self._path, self._f, self._gfile = fs, path, f, gfile

  def _step(self):
    self._fs.step('read', self._path, self._gfile)

  def read(self, *a, **k):
    self._step()
    return self._f.read(*a, **k)

  def readline(self, *a, **k):
    self._step()
    return self._f.readline(*a, **k)

  def readlines(self, *a, **k):
    self._step()
    return self._f.readlines(*a, **k)

  def readinto(self, b):
    data = self.read(len(b))
    b[:len(data)] = data
    return len(data)

  def __iter__(self):
    self._step()
    return iter(self._f)

  def __enter__(self):
    return self

  def __exit__(self, *exc):
    self._f.close()

  def __getattr__(self, name):
    return getattr(self._f, name)


_REAL = {}


class _Installed:

  def __init__(self, fs):
    self.fs = fs
    self.saved = []

  def put(self, mod, name, new):
    self.saved.append((mod, name, getattr(mod, name)))
    setattr(mod, name, new)

  def __enter__(self):
    import tensorflow as tf
    fs, g = self.fs, tf.io.gfile
    if not _REAL:
      _REAL['open'] = builtins.open
    real_gfile, real_open = g.GFile, builtins.open

    def gfile(name, mode='r'):
      if not fs.mine(name):
        return real_gfile(name, mode)
      if '+' in mode:
        fs.step('open_w', name)
        return real_gfile(name, mode)
      if 'w' in mode or 'a' in mode:
        fs.step('open_w', name)
        return Writer(fs, os.fspath(name), mode, True)
      fs.step('open_r', name)
      return Reader(fs, name, real_gfile(name, mode), True)

    def open_(file, mode='r', *a, **k):
      if isinstance(file, int) or not fs.mine(file):
        return real_open(file, mode, *a, **k)
      if '+' in mode:
        fs.step('open_w', file, False)
        return real_open(file, mode, *a, **k)
      if 'w' in mode or 'a' in mode or 'x' in mode:
        fs.step('open_w', file, False)
        return Writer(fs, os.fspath(file), mode, False)
      fs.step('open_r', file, False)
      return Reader(fs, file, real_open(file, mode, *a, **k), False)

    def wrap(mod, name, kind, is_gfile, nargs=1):
      real = getattr(mod, name, None)
      if real is None:
        return

      def op(*a, **k):
        p = a[0] if a else next(iter(k.values()), None)
        if p is None or isinstance(p, (int, list, tuple)) or not fs.mine(p):
          return real(*a, **k)
        fs.step(kind, p, is_gfile)
        return real(*a, **k)
      self.put(mod, name, op)

    self.put(g, 'GFile', gfile)
    if hasattr(g, 'Open'):
      self.put(g, 'Open', gfile)
    self.put(builtins, 'open', open_)
    self.put(io, 'open', open_)
    for name, kind in (('exists', 'exists'), ('isdir', 'exists'),
                       ('glob', 'glob'), ('listdir', 'listdir'),
                       ('remove', 'remove'), ('rename', 'rename'),
                       ('copy', 'rename'), ('makedirs', 'makedirs'),
                       ('mkdir', 'makedirs'), ('rmtree', 'remove'),
                       ('stat', 'exists')):
      wrap(g, name, kind, True)
    for name, kind in (('remove', 'remove'), ('unlink', 'remove'),
                       ('rename', 'rename'), ('replace', 'rename'),
                       ('makedirs', 'makedirs')):
      wrap(os, name, kind, False)
    wrap(glob_lib, 'glob', 'glob', False)
    return fs

  def __exit__(self, *exc):
    for mod, name, old in reversed(self.saved):
      setattr(mod, name, old)
    return False
