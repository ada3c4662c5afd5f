"""A simulated file system behind Python's own file functions.

While it is installed, `open` and the functions of `os` act on an in-memory
tree for every path under ROOT (the working directory is there, too).  The
higher layers - os.path, os.makedirs, shutil.rmtree, text and buffered files -
are the real ones and work on top of it.  Outside ROOT nothing can be written:
such a call is recorded as an escape and refused; reading is allowed, and the
places in `watched` take part in the fault plan.

Every operation is numbered by kind.  A fault plan says what happens to the
n-th operation of a kind; a crash stops the process there: nothing done later
has an effect, and data that was not yet on the disk may be torn.
"""

import builtins
import errno
import io
import os
import posixpath
import shutil
import stat as statmod
import time

ROOT = "/vfs"
ERR = {n: getattr(errno, n) for n in (
    "EIO", "ENOSPC", "EACCES", "ENOENT", "EMFILE", "EROFS", "EDQUOT",
    "ENOMEM", "EINTR", "ESTALE", "EBUSY")}

KINDS = ("stat", "open_r", "read", "list", "mkdir", "open_w", "write",
         "close", "unlink", "rmdir", "rename")


class SimCrash(BaseException):
    pass


class Node:
    def __init__(self, ino):
        self.ino = ino


class File(Node):
    mode = statmod.S_IFREG | 0o644

    def __init__(self, ino, data=b""):
        super().__init__(ino)
        self.data = bytearray(data)


class Dir(Node):
    mode = statmod.S_IFDIR | 0o755

    def __init__(self, ino):
        super().__init__(ino)
        self.ch = {}


class Link(Node):
    mode = statmod.S_IFLNK | 0o777

    def __init__(self, ino, to):
        super().__init__(ino)
        self.to = to


class Raw(io.RawIOBase):
    def __init__(self, fs, node, path, r, w, append):
        self.fs, self.node, self.path = fs, node, path
        self._r, self._w = r, w
        self.append = append
        self.pos = 0
        self.wrote = False

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        base = (0, self.pos, len(self.node.data))[whence]
        self.pos = max(0, base + off)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        if not self.fs.frozen:
            d = self.node.data
            del d[size:]
            d.extend(b"\0" * (size - len(d)))
        return size

    def readinto(self, b):
        part = self.fs.op("read", self.path)
        n = len(b)
        if part is not None:
            n = max(1, min(n, part))
        d = self.node.data[self.pos:self.pos + n]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, b):
        fs = self.fs
        if fs.frozen:
            return len(b)
        b = bytes(b)
        part = fs.op("write", self.path, raw=self, data=b)
        n = len(b)
        if part is not None:
            n = max(1, min(n, part))
        if fs.room is not None:
            if n and fs.room <= 0:
                fs.fired("disk full", self.path)
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC),
                              self.path)
            n = min(n, fs.room)
            fs.room -= n
        self.put(b[:n])
        return n

    def put(self, b):
        d = self.node.data
        if self.append:
            self.pos = len(d)
        d.extend(b"\0" * (self.pos - len(d)))
        d[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        self.fs.dirty.add(self.node)

    def close(self):
        if self.closed:
            return
        try:
            if self._w and not self.fs.frozen:
                self.fs.op("close", self.path, raw=self)
        finally:
            super().close()


class Entry:
    """What os.scandir gives."""

    def __init__(self, fs, base, name, node):
        self.fs, self.name, self.node = fs, name, node
        self.path = posixpath.join(base, name)

    def __fspath__(self):
        return self.path

    def is_symlink(self):
        return isinstance(self.node, Link)

    def is_junction(self):
        return False

    def _get(self, follow):
        if follow and isinstance(self.node, Link):
            try:
                return self.fs.walk(self.path)
            except OSError:
                return None
        return self.node

    def is_dir(self, *, follow_symlinks=True):
        return isinstance(self._get(follow_symlinks), Dir)

    def is_file(self, *, follow_symlinks=True):
        return isinstance(self._get(follow_symlinks), File)

    def inode(self):
        return self.node.ino

    def stat(self, *, follow_symlinks=True):
        return self.fs.os_stat(self.path, follow_symlinks=follow_symlinks)


class Scan:
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class FS:
    def __init__(self, rng, cwd=ROOT, watched=(), shuffle=True):
        self.rng = rng
        self.nino = 1000
        self.root = Dir(1)
        self.cwd = cwd
        self.watched = tuple(watched)
        self.shuffle = shuffle
        self.clock = 1_600_000_000
        self.reset()

    def reset(self):
        """Before a run of a process."""
        self.count = dict.fromkeys(KINDS, 0)
        self.plan = {}              # (kind, n) -> fault
        self.room = None            # bytes left on the disk
        self.readonly = ()          # directories nothing can be changed in
        self.frozen = False
        self.dirty = set()
        self.escapes = []
        self.log = []               # faults that happened
        self.trace = []             # (kind, path)

    # -- building and looking at the tree, without faults
    def ino(self):
        self.nino += 1
        return self.nino

    def put(self, path, data):
        d, name = self._mk(path)
        if isinstance(data, str):
            data = data.encode()
        old = d.ch.get(name)
        if isinstance(old, File):
            old.data[:] = data
        else:
            d.ch[name] = File(self.ino(), data)

    def mkdirs(self, path):
        d, name = self._mk(path)
        if not isinstance(d.ch.get(name), Dir):
            d.ch[name] = Dir(self.ino())

    def symlink(self, path, to):
        d, name = self._mk(path)
        d.ch[name] = Link(self.ino(), to)

    def drop(self, path):
        try:
            d, name = self.parent(path)
            d.ch.pop(name, None)
        except OSError:
            pass

    def _mk(self, path):
        parts = self.absolute(path)[len(ROOT):].strip("/").split("/")
        d = self.root
        for p in parts[:-1]:
            n = d.ch.get(p)
            if isinstance(n, Link):
                n = self.walk(posixpath.join(ROOT, n.to))
            if not isinstance(n, Dir):
                n = d.ch[p] = Dir(self.ino())
            d = n
        return d, parts[-1]

    def snapshot(self):
        out = {}

        def go(d, base):
            for n in sorted(d.ch):
                c = d.ch[n]
                p = base + "/" + n
                if isinstance(c, Dir):
                    out[p] = ("d",)
                    go(c, p)
                elif isinstance(c, File):
                    out[p] = ("f", bytes(c.data))
                else:
                    out[p] = ("l", c.to)
        go(self.root, ROOT)
        return out

    def restore(self, snap):
        self.root = Dir(1)
        for p, v in snap.items():
            if v[0] == "d":
                self.mkdirs(p)
            elif v[0] == "f":
                self.put(p, v[1])
        for p, v in snap.items():
            if v[0] == "l":
                self.symlink(p, v[1])

    # -- names
    def absolute(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith("/"):
            path = posixpath.join(self.cwd, path)
        return path

    def virtual(self, path):
        if isinstance(path, int):
            return False
        p = posixpath.normpath(self.absolute(path))
        return p == ROOT or p.startswith(ROOT + "/")

    def seen(self, path):
        """Is the (real) place part of the simulated run?"""
        if isinstance(path, int):
            return False
        p = posixpath.normpath(self.absolute(path))
        return any(p == w or p.startswith(w + "/") for w in self.watched)

    def err(self, name, path):
        e = getattr(errno, name)
        return OSError(e, os.strerror(e), path)

    def walk(self, path, follow=True, depth=0):
        if depth > 20:
            raise self.err("ELOOP", path)
        p = self.absolute(path)
        parts = p.strip("/").split("/")
        stack = [("", self.root)]
        # the first part is ROOT itself
        parts = parts[1:]
        i = 0
        while i < len(parts):
            part = parts[i]
            i += 1
            cur = stack[-1][1]
            if part in ("", "."):
                if not isinstance(cur, Dir):
                    raise self.err("ENOTDIR", path)
                continue
            if part == "..":
                if len(stack) > 1:
                    stack.pop()
                continue
            if not isinstance(cur, Dir):
                raise self.err("ENOTDIR", path)
            if part not in cur.ch:
                raise self.err("ENOENT", path)
            n = cur.ch[part]
            if isinstance(n, Link) and (follow or i < len(parts)):
                here = ROOT + "".join("/" + s for s, _ in stack[1:])
                to = posixpath.join(here, n.to)
                rest = "/".join(parts[i:])
                return self.walk(posixpath.join(to, rest) if rest else to,
                                 follow, depth + 1)
            stack.append((part, n))
        return stack[-1][1]

    def parent(self, path):
        p = self.absolute(path).rstrip("/")
        up, name = posixpath.split(p)
        d = self.walk(up or ROOT)
        if not isinstance(d, Dir):
            raise self.err("ENOTDIR", path)
        return d, name

    def real(self, path):
        """The place without symbolic links."""
        d, name = self.parent(path)
        return d, name

    # -- faults
    def fired(self, what, path):
        self.log.append((what, path))

    def op(self, kind, path, raw=None, data=b""):
        if self.frozen:
            raise SimCrash()
        n = self.count[kind]
        self.count[kind] = n + 1
        p = posixpath.normpath(self.absolute(path))
        self.trace.append((kind, p))
        self.clock += 1
        f = self.plan.get((kind, n))
        if f is not None:
            if f[0] == "short":
                if kind in ("read", "write"):
                    self.fired("short " + kind, p)
                    return f[1]
                return None
            if f[0] == "crash":
                self.fired("crash in " + kind, p)
                if raw is not None and data:
                    raw.put(data[:f[1] % (len(data) + 1)])
                self.crash()
            if f[0] == "slow":
                self.clock += 3600
                self.fired("stall in " + kind, p)
                return None
            self.fired("%s in %s" % (f[0], kind), p)
            if raw is not None and f[1] is not None:
                if data:
                    raw.put(data[:f[1] % (len(data) + 1)])
                elif kind == "close":
                    del raw.node.data[f[1] % (len(raw.node.data) + 1):]
            raise OSError(ERR[f[0]], os.strerror(ERR[f[0]]), path)
        if self.readonly and kind in ("mkdir", "open_w", "unlink", "rmdir",
                                      "rename"):
            for d in self.readonly:
                if p.startswith(d + "/") or p == d and kind == "open_w":
                    self.fired("EACCES in " + kind, p)
                    raise OSError(errno.EACCES, os.strerror(errno.EACCES),
                                  path)
        return None

    def crash(self):
        """The process dies; what was written lately may be lost."""
        self.frozen = True
        for node in sorted(self.dirty, key=lambda n: n.ino):
            if self.rng.random() < .4:
                del node.data[self.rng.randrange(len(node.data) + 1):]
        raise SimCrash()

    def escape(self, what, path):
        self.escapes.append((what, str(path)))
        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)

    # -- the functions
    def stat_of(self, n):
        size = len(n.data) if isinstance(n, File) else 4096
        t = self.clock
        return os.stat_result((n.mode, n.ino, 99, 1, 0, 0, size, t, t, t))

    def os_stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if not self.virtual(path):
            if self.seen(path):
                self.op("stat", path)
            return REAL["stat"](path, dir_fd=dir_fd,
                                follow_symlinks=follow_symlinks)
        if not follow_symlinks:
            # never fails for a link that is there: os.path.islink() would
            # take it for a directory, and shutil.rmtree(), made to work by
            # path here, would follow it, as the real one never does
            try:
                n = self.walk(path, False)
            except OSError:
                n = None
            if isinstance(n, Link):
                self.clock += 1
                return self.stat_of(n)
        self.op("stat", path)
        return self.stat_of(self.walk(path, follow_symlinks))

    def os_lstat(self, path, *, dir_fd=None):
        return self.os_stat(path, follow_symlinks=False)

    def os_readlink(self, path, *, dir_fd=None):
        if not self.virtual(path):
            return REAL["readlink"](path)
        n = self.walk(path, False)
        if not isinstance(n, Link):
            raise self.err("EINVAL", path)
        return n.to

    def os_access(self, path, mode, **kw):
        if not self.virtual(path):
            return REAL["access"](path, mode, **kw)
        try:
            self.op("stat", path)
            self.walk(path)
        except OSError:
            return False
        return True

    def os_listdir(self, path="."):
        if not self.virtual(path):
            r = REAL["listdir"](path)
            if not self.seen(path):
                return r
            self.op("list", path)
            r.sort()
        else:
            self.op("list", path)
            n = self.walk(path)
            if not isinstance(n, Dir):
                raise self.err("ENOTDIR", path)
            r = sorted(n.ch)
        if self.shuffle:
            self.rng.shuffle(r)
        return r

    def os_scandir(self, path="."):
        if not self.virtual(path):
            return REAL["scandir"](path)
        self.op("list", path)
        n = self.walk(path)
        if not isinstance(n, Dir):
            raise self.err("ENOTDIR", path)
        names = sorted(n.ch)
        if self.shuffle:
            self.rng.shuffle(names)
        return Scan([Entry(self, os.fspath(path), x, n.ch[x])
                     for x in names])

    def os_mkdir(self, path, mode=0o777, *, dir_fd=None):
        if not self.virtual(path):
            self.escape("mkdir", path)
        self.op("mkdir", path)
        d, name = self.parent(path)
        if name in d.ch or name == "":
            raise self.err("EEXIST", path)
        d.ch[name] = Dir(self.ino())

    def os_rmdir(self, path, *, dir_fd=None):
        if not self.virtual(path):
            self.escape("rmdir", path)
        self.op("rmdir", path)
        d, name = self.parent(path)
        n = d.ch.get(name)
        if n is None:
            raise self.err("ENOENT", path)
        if not isinstance(n, Dir):
            raise self.err("ENOTDIR", path)
        if n.ch:
            raise self.err("ENOTEMPTY", path)
        del d.ch[name]

    def os_unlink(self, path, *, dir_fd=None):
        if not self.virtual(path):
            self.escape("unlink", path)
        self.op("unlink", path)
        d, name = self.parent(path)
        n = d.ch.get(name)
        if n is None:
            raise self.err("ENOENT", path)
        if isinstance(n, Dir):
            raise self.err("EISDIR", path)
        del d.ch[name]

    def os_rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        if not (self.virtual(src) and self.virtual(dst)):
            self.escape("rename", dst if self.virtual(src) else src)
        self.op("rename", src)
        d, a = self.parent(src)
        if a not in d.ch:
            raise self.err("ENOENT", src)
        e, b = self.parent(dst)
        n, o = d.ch[a], e.ch.get(b)
        if o is not None and o is not n:
            if isinstance(o, Dir) and not isinstance(n, Dir):
                raise self.err("EISDIR", dst)
            if isinstance(n, Dir) and not isinstance(o, Dir):
                raise self.err("ENOTDIR", dst)
            if isinstance(o, Dir) and o.ch:
                raise self.err("ENOTEMPTY", dst)
        del d.ch[a]
        e.ch[b] = n

    def os_symlink(self, src, dst, *a, **kw):
        if not self.virtual(dst):
            self.escape("symlink", dst)
        d, name = self.parent(dst)
        if name in d.ch:
            raise self.err("EEXIST", dst)
        d.ch[name] = Link(self.ino(), src)

    def os_noeffect(self, path, *a, **kw):
        if not self.virtual(path):
            self.escape("chmod", path)
        self.walk(path)

    def os_getcwd(self):
        return self.cwd

    def os_chdir(self, path):
        self.walk(path)
        self.cwd = posixpath.normpath(self.absolute(path))

    def os_open(self, path, *a, **kw):
        if not self.virtual(path):
            if a and a[0] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                self.escape("open", path)
            return REAL["open"](path, *a, **kw)
        raise self.err("ENOSYS", path)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            return REAL_OPEN(file, mode, buffering, encoding, errors,
                             newline, closefd, opener)
        w = any(c in mode for c in "wxa+")
        if not self.virtual(file):
            if w:
                if os.fspath(file) in (os.devnull,):
                    return REAL_OPEN(file, mode, buffering, encoding, errors,
                                     newline, closefd, opener)
                self.escape("open", file)
            if not self.seen(file):
                return REAL_OPEN(file, mode, buffering, encoding, errors,
                                 newline, closefd, opener)
            self.op("open_r", file)
            with REAL_OPEN(file, "rb") as f:
                node = File(0, f.read())
        elif w:
            self.op("open_w", file)
            try:
                node = self.walk(file)
            except FileNotFoundError:
                if "r" in mode:
                    raise
                # (a dangling link is created through)
                d, name = self.parent(file)
                n = d.ch.get(name)
                while isinstance(n, Link):
                    d, name = self.parent(posixpath.join(
                        posixpath.dirname(self.absolute(file)), n.to))
                    n = d.ch.get(name)
                if self.room is not None and self.room <= 0:
                    self.fired("disk full", os.fspath(file))
                    raise self.err("ENOSPC", file)
                node = d.ch[name] = File(self.ino())
            else:
                if "x" in mode:
                    raise self.err("EEXIST", file)
            if isinstance(node, Dir):
                raise self.err("EISDIR", file)
            if "w" in mode:
                if self.room is not None:
                    self.room += len(node.data)
                del node.data[:]
                self.dirty.add(node)
        else:
            self.op("open_r", file)
            node = self.walk(file)
            if isinstance(node, Dir):
                raise self.err("EISDIR", file)
        r = "r" in mode or "+" in mode
        raw = Raw(self, node, os.fspath(file), r, w, "a" in mode)
        if "b" in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        if r and w:
            buf = io.BufferedRandom(raw, size)
        elif w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline,
                             line_buffering=buffering == 1)
        t.mode = mode
        return t

    # -- installing it
    def __enter__(self):
        self.saved = {}
        for name, f in (
                ("stat", self.os_stat), ("lstat", self.os_lstat),
                ("readlink", self.os_readlink), ("access", self.os_access),
                ("listdir", self.os_listdir), ("scandir", self.os_scandir),
                ("mkdir", self.os_mkdir), ("rmdir", self.os_rmdir),
                ("unlink", self.os_unlink), ("remove", self.os_unlink),
                ("rename", self.os_rename), ("replace", self.os_rename),
                ("symlink", self.os_symlink), ("chmod", self.os_noeffect),
                ("utime", self.os_noeffect), ("getcwd", self.os_getcwd),
                ("chdir", self.os_chdir), ("open", self.os_open)):
            self.saved[name] = getattr(os, name)
            setattr(os, name, f)
        self.fdflag = shutil._use_fd_functions
        shutil._use_fd_functions = False
        self.time = time.time
        time.time = lambda: float(self.clock)
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = REAL_OPEN
        time.time = self.time
        shutil._use_fd_functions = self.fdflag
        for name, f in self.saved.items():
            setattr(os, name, f)


REAL = {n: getattr(os, n) for n in (
    "stat", "lstat", "readlink", "access", "listdir", "scandir", "open")}
REAL_OPEN = builtins.open
