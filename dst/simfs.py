"""In-memory file system mounted at /sim, with seeded fault injection.

Everything the library does to a path below /sim (stat, listing, open, read)
ends up here; paths outside go to the real operating system untouched.
"""
import errno
import io
import os
import posixpath
import stat as stat_mod

ROOT = '/sim'

_ERR = {
    'EIO': (OSError, errno.EIO), 'EACCES': (PermissionError, errno.EACCES),
    'ENOENT': (FileNotFoundError, errno.ENOENT), 'EMFILE': (OSError, errno.EMFILE),
    'EISDIR': (IsADirectoryError, errno.EISDIR), 'ENOMEM': (OSError, errno.ENOMEM),
    'ELOOP': (OSError, errno.ELOOP), 'ENOTDIR': (NotADirectoryError, errno.ENOTDIR),
    'EPIPE': (BrokenPipeError, errno.EPIPE), 'ESTALE': (OSError, errno.ESTALE),
    'ENOSPC': (OSError, errno.ENOSPC), 'ETIMEDOUT': (OSError, errno.ETIMEDOUT),
}


class InjectedInterrupt(KeyboardInterrupt):
    """Cancellation of the calling program at a seam."""


def make_error(kind, path=None):
    if kind == 'INTR':
        return InjectedInterrupt('injected cancellation')
    if kind == 'NOMEM':
        return MemoryError('injected allocation failure')
    cls, no = _ERR[kind]
    return cls(no, os.strerror(no), path) if path else cls(no, os.strerror(no))


def oserr(no, path):
    # OSError() picks FileNotFoundError & co. by errno
    return OSError(no, os.strerror(no), path)


class Dir:
    __slots__ = ('kids',)

    def __init__(self):
        self.kids = {}


class File:
    __slots__ = ('data', 'deny')

    def __init__(self, data, deny=False):
        self.data = data
        self.deny = deny


class SimFS:
    def __init__(self, world):
        self.world = world
        self.root = Dir()
        self.version = 0

    # -- construction -----------------------------------------------------
    @staticmethod
    def _parts(path):
        assert path == ROOT or path.startswith(ROOT + '/'), path
        return [p for p in path[len(ROOT):].split('/') if p]

    def mkdir(self, path):
        node = self.root
        for p in self._parts(path):
            nxt = node.kids.get(p)
            if nxt is None:
                nxt = node.kids[p] = Dir()
            if not isinstance(nxt, Dir):
                nxt = node.kids[p] = Dir()
            node = nxt
        return node

    def write(self, path, data, deny=False):
        if isinstance(data, str):
            data = data.encode('utf-8')
        d = self.mkdir(posixpath.dirname(path))
        d.kids[posixpath.basename(path)] = File(bytes(data), deny)

    def remove(self, path):
        parts = self._parts(path)
        node = self.root
        for p in parts[:-1]:
            node = node.kids.get(p) if isinstance(node, Dir) else None
            if node is None:
                return
        if isinstance(node, Dir):
            node.kids.pop(parts[-1], None)

    def is_empty_dir(self, path):
        node = self.root
        parts = self._parts(path)
        for p in parts:
            node = node.kids.get(p) if isinstance(node, Dir) else None
        return bool(parts) and isinstance(node, Dir) and not node.kids

    def read_bytes(self, path):
        n = self.lookup(path)
        return n.data

    # -- resolution ---------------------------------------------------------
    def lookup(self, path):
        """Component-wise walk, the way the kernel does it (no symlinks)."""
        if '\0' in path:
            raise ValueError('embedded null byte')
        stack = [self.root]
        comps = path[len(ROOT):].split('/')
        for p in comps:
            if p in ('', '.'):
                if not isinstance(stack[-1], Dir):
                    raise oserr(errno.ENOTDIR, path)
                continue
            if not isinstance(stack[-1], Dir):
                raise oserr(errno.ENOTDIR, path)
            if p == '..':
                if len(stack) > 1:
                    stack.pop()
                continue
            if len(p.encode('utf-8', 'surrogateescape')) > 255:
                raise oserr(errno.ENAMETOOLONG, path)
            nxt = stack[-1].kids.get(p)
            if nxt is None:
                raise oserr(errno.ENOENT, path)
            stack.append(nxt)
        return stack[-1]

    # -- system calls ---------------------------------------------------------
    def stat(self, path):
        self.world.event('stat', path)
        self.world.fire('stat', path)
        node = self.lookup(path)
        return self._st(node)

    @staticmethod
    def _st(node):
        if isinstance(node, Dir):
            return os.stat_result((stat_mod.S_IFDIR | 0o755, 1, 1, 2, 0, 0, 4096, 0, 0, 0))
        mode = 0o000 if node.deny else 0o644
        return os.stat_result((stat_mod.S_IFREG | mode, 1, 1, 1, 0, 0, len(node.data), 0, 0, 0))

    def listdir(self, path):
        self.world.event('list', path)
        self.world.fire('list', path)
        node = self.lookup(path)
        if not isinstance(node, Dir):
            raise oserr(errno.ENOTDIR, path)
        return self.world.order_names(path, list(node.kids)), node

    def access(self, path, _mode):
        try:
            node = self.lookup(path)
        except OSError:
            return False
        return not (isinstance(node, File) and node.deny)

    def open_raw(self, path):
        self.world.event('open', path)
        nth = self.world.fire('open', path)
        node = self.lookup(path)
        if isinstance(node, Dir):
            raise oserr(errno.EISDIR, path)
        if node.deny:
            raise oserr(errno.EACCES, path)
        self.world.opens += 1
        return SimRaw(self.world, path, node.data, nth)


class SimRaw(io.RawIOBase):
    """Raw byte stream with short reads and read faults."""

    def __init__(self, world, path, data, nth_open):
        super().__init__()
        self.world = world
        self.name = path
        self.mode = 'rb'
        self.data = data
        self.pos = 0
        self.nth_open = nth_open
        self.faults = world.read_faults(path, nth_open)

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        base = {0: 0, 1: self.pos, 2: len(self.data)}[whence]
        self.pos = max(0, base + off)
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        if not self.world.muted:
            self.world.tick('read', self.name)
        n = min(len(b), self.world.chunk(self.name))
        end = min(self.pos + n, len(self.data))
        for f in self.faults:
            at = f.get('offset', 0)
            if f.get('done') or at > end or at < self.pos:
                continue
            if at > self.pos and f['kind'] != 'TORN':
                end = min(end, at)      # deliver what comes first, fail next time
                continue
            f['done'] = True
            self.world.fired('read:' + f['kind'])
            if f['kind'] == 'TORN':
                self.data = self.data[:at]
                end = min(end, at)
                continue
            self.world.event('readfault', self.name, f['kind'])
            raise make_error(f['kind'], None)
        out = self.data[self.pos:end]
        if end < len(self.data) and len(out) < len(b):
            self.world.count('short_reads')
        b[:len(out)] = out
        self.pos += len(out)
        self.world.event('read', self.name, len(out))
        return len(out)


class SimDirEntry:
    def __init__(self, dirpath, name, node):
        self.name = name
        self.path = posixpath.join(dirpath, name)
        self._node = node

    def is_dir(self, follow_symlinks=True):
        return isinstance(self._node, Dir)

    def is_file(self, follow_symlinks=True):
        return isinstance(self._node, File)

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def stat(self, follow_symlinks=True):
        return SimFS._st(self._node)

    def inode(self):
        return 1

    def __fspath__(self):
        return self.path


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass
