"""Seams: the only places where the code under test meets the outside world.

Installed once per worker process, before the library is imported.  With no
active World they all fall through to the real implementation.
"""
import builtins
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import random
import sys
import weakref
import threading

from . import simfs
from .simfs import ROOT, SimFS, make_error

REPO = os.environ.get('DST_REPO', '/repo')
PKG = 'oelint_parser'

WORLD = None
_real = {}


class SimHang(BaseException):
    """The code under test waited without any bound on a slow operation."""


class StepBudget(BaseException):
    """The code under test exceeded its deterministic step budget."""


def same(a, b):
    """Two spellings of one path."""
    return a == b or bool(a and b) and os.path.normpath(a) == os.path.normpath(b)


class World:
    """One simulated execution: file system, clock, faults, event log."""

    def __init__(self, salt=0, chunk_seed=0, chunk_max=64, dir_order='sorted',
                 locale='utf-8', faults=None, log=False):
        self.fs = SimFS(self)
        self.salt = salt
        self.chunk_rng = random.Random(chunk_seed)
        self.chunk_max = chunk_max
        self.dir_order = dir_order
        self.locale = locale
        self.now = 0.0              # simulated seconds
        self.clock_base = 1.7e9     # what the wall clock shows at the start
        self.opens = 0
        self.faults = []
        self.counters = {}
        self.fired_kinds = {}
        self._digest = hashlib.sha256()
        self.nevents = 0
        self.log = [] if log else None
        self._hash = {}
        self.regex_calls = 0
        self.regex_log = None       # list of (index, func, string) when recording
        self.timeout_strings = []
        self.stdout = []
        self.print_calls = 0
        self.muted = 0
        self.slow_regex = None      # seconds every regex takes, when set
        self.sched = None
        self.seam_ops = 0           # every call that leaves the library
        self.cwd = None             # simulated working directory
        self.effects = []           # attempts to change anything outside the process
        self.guard = False          # stop such attempts outside /sim, too
        self.handles = []           # every stream that was opened
        self.forgotten = []         # and was left to the collector
        if faults:
            self.arm(faults)

    # -- faults -------------------------------------------------------------
    def arm(self, faults):
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f.setdefault('nth', 1)
            f['seen'] = 0

    def disarm(self):
        self.faults = []

    def fired(self, kind):
        self.fired_kinds[kind] = self.fired_kinds.get(kind, 0) + 1

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def tick(self, op, path=None):
        """One more call left the library; interruptions are planned by their number."""
        self.seam_ops += 1
        for f in self.faults:
            if f['op'] == 'seam' and f['nth'] == self.seam_ops and not f.get('done'):
                f['done'] = True
                self.fired('%s:%s' % (op, f['kind']))
                self.event('fault', op, path, f['kind'])
                raise make_error(f['kind'])

    def fire(self, op, path):
        """Count an operation and raise the fault planned for it, if any."""
        if self.muted:
            return 0
        self.tick(op, path)
        key = 'n:%s:%s' % (op, path)
        n = self.counters[key] = self.counters.get(key, 0) + 1
        for f in self.faults:
            if (f['op'] == op and same(f.get('path'), path) or f['op'] == op + '#') and not f.get('done'):
                f['seen'] += 1
                if f['seen'] == f['nth']:
                    f['done'] = True
                    if f['kind'] == 'VANISH':
                        self.fs.remove(os.path.normpath(path))
                        while f.get('dirs') and os.path.dirname(path) != path:
                            # directories that hold nothing else go with it
                            path = os.path.dirname(path)
                            if not self.fs.is_empty_dir(path):
                                break
                            self.fs.remove(path)
                        self.fired(op + ':VANISH')
                        continue
                    self.fired(op + ':' + f['kind'])
                    self.event('fault', op, path, f['kind'])
                    raise make_error(f['kind'], path)
        return n

    def read_faults(self, path, _nth):
        res = []
        for f in self.faults:
            if f['op'] == 'read' and same(f.get('path'), path) and not f.get('done'):
                f['seen'] += 1
                if f['seen'] == f['nth']:
                    res.append(f)
        return res

    def on_regex(self, func, string, timeout):
        """A regex operation starts; returns an exception to raise or None."""
        if self.muted:
            return None
        self.tick('regex')
        self.regex_calls += 1
        n = self.regex_calls
        self.event('regex', func, n)
        if self.regex_log is not None:
            self.regex_log.append((n, func, string if isinstance(string, str) else ''))
        took = None
        for f in self.faults:
            if f['op'] == 'regex' and f['nth'] == n and not f.get('done'):
                f['done'] = True
                if f['kind'] == 'TIMEOUT':
                    took = f.get('secs', 60.0)
                    self.fired('regex:TIMEOUT')
                    self.timeout_strings.append(string)
                else:
                    self.fired('regex:' + f['kind'])
                    return make_error(f['kind'])
        if took is None and self.slow_regex is not None:
            took = self.slow_regex
            self.fired('regex:SLOW')
        if took is not None:
            if timeout is None or timeout > 1e6:
                raise SimHang('regex operation %s without a time limit' % func)
            if took > timeout:
                self.now += timeout
                return TimeoutError('regex timed out')
            self.now += took
        else:
            self.now += 1e-6
        return None

    def on_write(self, text):
        if self.muted:
            return
        self.tick('stdout')
        self.print_calls += 1
        self.event('write', text)
        for f in self.faults:
            if f['op'] == 'stdout' and not f.get('done'):
                f['seen'] += 1
                if f['seen'] == f['nth']:
                    f['done'] = True
                    self.fired('stdout:' + f['kind'])
                    raise make_error(f['kind'])
        self.stdout.append(text)

    # -- environment ----------------------------------------------------------
    def chunk(self, _path):
        return self.chunk_rng.randint(1, self.chunk_max)

    def order_names(self, path, names):
        names.sort()
        if self.dir_order == 'sorted':
            return names
        if self.dir_order == 'reversed':
            return names[::-1]
        random.Random('%s|%s' % (self.dir_order, path)).shuffle(names)
        return names

    def item_hash(self, obj):
        ent = self._hash.get(id(obj))
        if ent is None:
            n = len(self._hash) + 1
            h = (n * 0x9E3779B97F4A7C15 + self.salt * 0xC2B2AE3D27D4EB4F) & ((1 << 61) - 1)
            h ^= h >> 29
            if self.salt == 0:
                h = n * 7
            ent = self._hash[id(obj)] = (h, obj)   # keeps obj alive: ids stay unique
        return ent[0]

    # -- event log --------------------------------------------------------------
    def event(self, *what):
        self.nevents += 1
        s = repr(what)
        self._digest.update(s.encode('utf-8', 'backslashreplace'))
        if self.log is not None:
            self.log.append(s)

    def digest(self):
        return self._digest.hexdigest()[:16]


class muted:
    """Oracle code running library calls that must not disturb the schedule."""

    def __enter__(self):
        if WORLD is not None:
            WORLD.muted += 1

    def __exit__(self, *a):
        if WORLD is not None:
            WORLD.muted -= 1
        return False


def set_world(w):
    global WORLD
    WORLD = w


def _sim_path(path):
    if WORLD is None or isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p.startswith('//') and not p.startswith('///'):
        p = p[1:]           # POSIX leaves exactly two slashes to the system, Linux ignores one
    if WORLD.cwd and not p.startswith('/'):
        p = WORLD.cwd + '/' + p if p else p
    if p == ROOT or p.startswith(ROOT + '/'):
        return p
    return None


# -- file system calls -----------------------------------------------------------
def _open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
          closefd=True, opener=None):
    p = _sim_path(file)
    if p is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if set(mode) & set('wax+'):
        WORLD.effects.append('open %s for %s' % (p, mode))
        raise make_error('EACCES', p)
    raw = WORLD.fs.open_raw(p)
    WORLD.handles.append(weakref.ref(raw))
    buf = io.BufferedReader(raw, buffer_size=max(16, WORLD.chunk_max))
    if 'b' in mode:
        return raw if buffering == 0 else buf
    enc = encoding
    if enc is None or enc == 'locale':
        enc = WORLD.locale
    return SimText(buf, encoding=enc, errors=errors, newline=newline)


class SimText(io.TextIOWrapper):
    """knows whether it was closed or only forgotten"""

    def close(self):
        if getattr(self, '_finalizing', False) and not self.closed and WORLD is not None:
            WORLD.forgotten.append(str(self.name))
        super().close()


def _stat(path, *, dir_fd=None, follow_symlinks=True):
    p = _sim_path(path)
    if p is None:
        return _real['stat'](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    return WORLD.fs.stat(p)


def _lstat(path, *, dir_fd=None):
    p = _sim_path(path)
    if p is None:
        return _real['lstat'](path, dir_fd=dir_fd)
    return WORLD.fs.stat(p)


def _listdir(path='.'):
    p = _sim_path(path)
    if p is None:
        return _real['listdir'](path)
    return WORLD.fs.listdir(p)[0]


def _scandir(path='.'):
    p = _sim_path(path)
    if p is None:
        return _real['scandir'](path)
    names, node = WORLD.fs.listdir(p)
    return simfs.SimScandir([simfs.SimDirEntry(p, n, node.kids[n]) for n in names])


def _access(path, mode, **kw):
    p = _sim_path(path)
    if p is None:
        return _real['access'](path, mode, **kw)
    return WORLD.fs.access(p, mode)


def _readlink(path, **kw):
    p = _sim_path(path)
    if p is None:
        return _real['readlink'](path, **kw)
    WORLD.fs.lookup(p)
    raise OSError(22, 'Invalid argument', p)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = _sim_path(path)
    if p is None:
        return _real['os_open'](path, flags, mode, dir_fd=dir_fd)
    if flags & WRITING:
        WORLD.effects.append('os.open %s for writing' % p)
        raise make_error('EACCES', p)
    raw = WORLD.fs.open_raw(p)
    data = raw.read()
    fd = os.memfd_create('sim')
    os.write(fd, data)
    os.lseek(fd, 0, 0)
    return fd


def _chdir(path):
    p = _sim_path(path)
    if p is None:
        return _real['chdir'](path)
    p = os.path.normpath(p)
    if not isinstance(WORLD.fs.lookup(p), simfs.Dir):
        raise make_error('ENOTDIR', p)
    WORLD.cwd = p


def _getcwd():
    return WORLD.cwd if WORLD is not None and WORLD.cwd else _real['getcwd']()


WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_EFFECTS = ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.truncate', 'os.utime', 'os.putenv',
            'os.unsetenv', 'os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'os.forkpty', 'os.kill', 'os.killpg', 'subprocess.Popen', 'socket.connect',
            'socket.bind', 'socket.sendto', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'os.setxattr', 'os.removexattr', 'os.chflags', 'os.lockf', 'resource.setrlimit',
            'os.chdir', 'os.fchdir', 'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'signal.pthread_kill', 'ctypes.dlopen')
_audited = []


def _audit(event, args):
    w = WORLD
    if w is None or not w.guard:
        return
    if event in _EFFECTS or event == 'open' and isinstance(args[2], int) and args[2] & WRITING and args[0] != os.devnull:
        w.effects.append('%s %s' % (event, [a for a in args if isinstance(a, (str, bytes, int))]))
        raise PermissionError(13, 'not in a simulated world', event)


def guard(world):
    """From now on the world also notices effects outside /sim, and stops them."""
    if not _audited:
        _audited.append(True)
        sys.addaudithook(_audit)
    world.guard = True


# -- regex -------------------------------------------------------------------------
class SimPattern:
    """Compiled pattern whose operations pass through the simulated clock."""
    __slots__ = ('_p',)

    def __init__(self, p):
        self._p = p

    def __getattr__(self, name):
        return getattr(self._p, name)

    def __hash__(self):
        return hash(self._p)

    def __eq__(self, o):
        return self._p == (o._p if isinstance(o, SimPattern) else o)

    def __repr__(self):
        return repr(self._p)


def _unwrap(p):
    return p._p if isinstance(p, SimPattern) else p


def _lazy(exc, it):
    if exc is not None:
        raise exc
    yield from it


def _string_arg(func, a, k):
    idx = 1 if func in ('sub', 'subn', 'subf', 'subfn') else 0
    if 'string' in k:
        return k['string']
    return a[idx] if len(a) > idx else ''


def _wrap_regex(name, fn):
    lazy = name in ('finditer', 'splititer')

    def f(pattern, *a, **k):
        pattern = _unwrap(pattern)
        if WORLD is None:
            return fn(pattern, *a, **k)
        exc = WORLD.on_regex(name, _string_arg(name, a, k), k.get('timeout'))
        if lazy:
            return _lazy(exc, fn(pattern, *a, **k))
        if exc is not None:
            raise exc
        return fn(pattern, *a, **k)
    f.__name__ = name
    return f


def _wrap_method(name):
    lazy = name in ('finditer', 'splititer')

    def f(self, *a, **k):
        real = getattr(self._p, name)
        if WORLD is None:
            return real(*a, **k)
        exc = WORLD.on_regex(name, _string_arg(name, a, k), k.get('timeout'))
        if lazy:
            return _lazy(exc, real(*a, **k))
        if exc is not None:
            raise exc
        return real(*a, **k)
    return f


_REGEX_FUNCS = ('match', 'prefixmatch', 'fullmatch', 'search', 'sub', 'subf', 'subn', 'subfn',
                'split', 'splititer', 'findall', 'finditer')


class SimStdout(io.TextIOBase):
    def write(self, s):
        if WORLD is None:
            return _real['stdout'].write(s)
        WORLD.on_write(s)
        return len(s)

    def flush(self):
        if WORLD is None:
            _real['stdout'].flush()

    def writable(self):
        return True


class SimStderr(SimStdout):
    def write(self, s):
        if WORLD is None:
            return _real['stderr'].write(s)
        WORLD.event('stderr', s)
        return len(s)


# -- locks: cooperative under the simulated scheduler ---------------------------------
class SimLock:
    def __init__(self, reentrant=False):
        self._owner = None
        self._depth = 0
        self._re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while True:
            if self._owner is None:
                self._owner, self._depth = me, 1
                return True
            if self._re and self._owner == me:
                self._depth += 1
                return True
            if not blocking:
                return False
            s = WORLD.sched if WORLD is not None else None
            if s is None:
                raise SimHang('lock held forever')
            s.yield_blocked()

    def release(self):
        self._depth -= 1
        if self._depth <= 0:
            self._owner = None
            self._depth = 0

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


class _SimThreadingModuleProxy:
    """`threading` as seen by freshly imported library modules."""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        return getattr(self._real, n)

    @staticmethod
    def Lock():
        return SimLock()

    @staticmethod
    def RLock():
        return SimLock(True)


# -- library loading ----------------------------------------------------------------
_code_cache = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        key = (fullname, self.path)
        if key not in _code_cache:
            with _real['open'](self.path, 'rb') as i:
                src = i.read()
            _code_cache[key] = compile(src, self.path, 'exec', dont_inherit=True)
        return _code_cache[key]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'):
            return None
        rel = fullname.replace('.', '/')
        d = os.path.join(REPO, rel)
        if os.path.isfile(os.path.join(d, '__init__.py')):
            f = os.path.join(d, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(fullname, f), submodule_search_locations=[d])
        f = d + '.py'
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(fullname, f))
        return None


class Lib:
    """One freshly imported instance of the library (own caches, own constants)."""

    def __init__(self):
        for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]:
            del sys.modules[m]
        real_threading = sys.modules['threading']
        sys.modules['threading'] = _SimThreadingModuleProxy(real_threading)
        try:
            self.stash = importlib.import_module(PKG + '.cls_stash')
            self.item = importlib.import_module(PKG + '.cls_item')
            self.parser = importlib.import_module(PKG + '.parser')
            self.constants = importlib.import_module(PKG + '.constants')
            self.rpl = importlib.import_module(PKG + '.rpl_regex')
            self.inline = importlib.import_module(PKG + '.inlinerep')
        finally:
            sys.modules['threading'] = real_threading
        self.Stash = self.stash.Stash
        self.Item = self.item.Item
        self.CONSTANTS = self.constants.CONSTANTS
        if self.Item.__hash__ is object.__hash__:
            # Memory layout is a source of nondeterminism: own it.
            self.Item.__hash__ = lambda s: WORLD.item_hash(s) if WORLD is not None else object.__hash__(s)


def _clock(real, base, scale):
    def now(*a):
        if WORLD is None:
            return real(*a)
        WORLD.now += 1e-6           # time passes
        WORLD.count('clock_reads')
        t = WORLD.now + (WORLD.clock_base if base else WORLD.clock_base % 1000)
        return int(t * 1e9) if scale else t
    return now


def codes():
    """All code objects of the library (for the line-level scheduler)."""
    res = []

    def rec(c):
        res.append(c)
        for k in c.co_consts:
            if hasattr(k, 'co_code'):
                rec(k)
    for c in _code_cache.values():
        rec(c)
    return res


def install():
    if _real:
        return
    import regex
    import regex._main as rm
    _real.update(open=builtins.open, stat=os.stat, lstat=os.lstat, listdir=os.listdir,
                 scandir=os.scandir, access=os.access, readlink=os.readlink, os_open=os.open, chdir=os.chdir, getcwd=os.getcwd,
                 stdout=sys.stdout, stderr=sys.stderr)
    builtins.open = _open
    io.open = _open
    os.stat, os.lstat, os.listdir, os.scandir = _stat, _lstat, _listdir, _scandir
    os.access, os.readlink, os.open = _access, _readlink, _os_open
    os.chdir, os.getcwd = _chdir, _getcwd
    import glob
    import pathlib  # noqa: F401  (uses os.* / io.open attributes at call time)
    # glob binds os functions through the module, nothing to patch
    assert glob.os is os
    for n in _REGEX_FUNCS:
        w = _wrap_regex(n, getattr(rm, n))
        setattr(regex, n, w)
        setattr(rm, n, w)
        setattr(SimPattern, n, _wrap_method(n))
    real_compile = rm.compile

    def _compile(pattern, *a, **k):
        return SimPattern(real_compile(_unwrap(pattern), *a, **k))
    regex.compile = _compile
    regex.Regex = _compile
    import time
    for n in ('time', 'monotonic', 'perf_counter', 'process_time'):
        setattr(time, n, _clock(getattr(time, n), n == 'time', False))
        setattr(time, n + '_ns', _clock(getattr(time, n + '_ns'), n == 'time', True))
    sys.meta_path.insert(0, _Finder())
    sys.stdout = SimStdout()
    sys.stderr = SimStderr()
