"""Simulated storage: a scratch directory whose every operation is observed.

All system calls Python code makes on paths below the directory go through this
seam (builtins.open, io.open, os.open, os.write, os.fsync, os.rename, ...).
Each is one numbered operation at which the plan may inject an error, a short
write, the death of the process or a power failure.  A shadow log of what was
written, renamed and synchronised gives the possible contents of the disk after
a power failure.
"""
import builtins
import errno
import io
import os
import shutil

from .sim import SimCrash

# os functions taking a path (or two) that change the file system
_PATH1 = ("unlink", "remove", "mkdir", "rmdir", "truncate", "chmod", "utime")
_PATH2 = ("rename", "replace", "link", "symlink")
_FD = ("fsync", "fdatasync", "ftruncate", "fchmod")
ERRORS = {"eio": errno.EIO, "enospc": errno.ENOSPC, "eacces": errno.EACCES,
          "emfile": errno.EMFILE, "erofs": errno.EROFS, "edquot": errno.EDQUOT,
          "eintr": errno.EINTR}


class SimFS:
    """``faults``: {operation number: kind}; kinds are the keys of ERRORS,
    "short", "crash", "crash-after", "power" and "power-after".  ``sticky``
    errors repeat until ``heal()``."""

    def __init__(self, ctx, root, faults=None, sticky=False, names=()):
        self.ctx = ctx
        self.root = os.path.realpath(root)
        self.faults = {int(k): v for k, v in (faults or {}).items()}
        self.sticky = sticky
        self.stuck = None
        self.n = 0
        self.dead = None
        self.log = []           # shadow operations
        self.fds = {}           # fd -> (path, inode)
        self.owned = set()      # those not owned by a file object
        self.vino = {}          # inode -> identity (inodes are reused)
        self.hit = []
        self.names = set(names)

    # ---- decisions
    def label(self, path):
        """Name of a file that is the same in every run."""
        if path == self.root or os.path.isdir(path):
            return "dir"
        name = os.path.basename(path)
        return name if name in self.names else "temp"

    def ours(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = os.path.abspath(path)
        return path == self.root or path.startswith(self.root + os.sep)

    def point(self, what):
        """One operation. Returns 'short' or None; may raise."""
        if self.dead:
            raise SimCrash(self.dead)
        kind = self.faults.get(self.n)
        self.ctx.ev("io", self.n, what)
        self.n += 1
        if self.stuck and kind is None and what.split()[0] in ("write", "fsync", "create"):
            kind = self.stuck
        if kind is None:
            return None
        self.hit.append((kind, what))
        self.ctx.fault(f"{kind} at {what.split()[0]}")
        if kind in ("crash", "power"):
            self.dead = kind
            raise SimCrash(kind)
        if kind in ("crash-after", "power-after"):
            return kind
        if kind == "short":
            return "short"
        if self.sticky:
            self.stuck = kind
        raise OSError(ERRORS[kind], os.strerror(ERRORS[kind]))

    def after(self, mark):
        if mark in ("crash-after", "power-after"):
            self.dead = mark.split("-")[0]
            raise SimCrash(self.dead)

    def heal(self):
        self.faults, self.stuck = {}, None

    def ino(self, real, new=False):
        if new or real not in self.vino:
            self.vino[real] = (real, len(self.vino), len(self.log))
        return self.vino[real]

    # ---- installation
    def __enter__(self):
        self.real = {n: getattr(os, n) for n in
                     _PATH1 + _PATH2 + _FD + ("open", "write", "writev", "pwrite", "read",
                                              "pread", "close", "sendfile", "copy_file_range",
                                              "dup") if hasattr(os, n)}
        self.real_open = io.open
        self.snapshot = self.tree()
        builtins.open = io.open = self.open
        for n in _PATH1:
            setattr(os, n, self._path1(n))
        for n in _PATH2:
            setattr(os, n, self._path2(n))
        for n in _FD:
            setattr(os, n, self._fd(n))
        os.open, os.write, os.read, os.close = self.os_open, self.os_write, self.os_read, self.os_close

        def unsupported(name):
            def f(*a, **k):
                if any(isinstance(x, int) and x in self.fds for x in a):
                    raise OSError(errno.EINVAL, "not available")    # callers fall back
                return self.real[name](*a, **k)
            return f
        for n in ("sendfile", "copy_file_range"):
            setattr(os, n, unsupported(n))
        # shutil picks its fast paths at import time
        self.fast = getattr(shutil, "_USE_CP_SENDFILE", None)
        shutil._USE_CP_SENDFILE = False
        return self

    def __exit__(self, *exc):
        builtins.open = io.open = self.real_open
        for n, f in self.real.items():
            setattr(os, n, f)
        shutil._USE_CP_SENDFILE = self.fast
        for fd in self.owned & set(self.fds):
            try:
                self.real["close"](fd)
            except OSError:
                pass
        self.fds.clear()
        return False

    def tree(self):
        out = {}
        for d, _, names in os.walk(self.root):
            for n in names:
                p = os.path.join(d, n)
                with self.real_open(p, "rb") as f:
                    out[p] = (self.ino(os.stat(p).st_ino), f.read())
        return out

    # ---- seams
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if not self.ours(file):
            return self.real_open(file, mode, buffering, encoding, errors, newline,
                                  closefd, opener)
        raw = SimRaw(self, file, "".join(c for c in mode if c not in "bt"), closefd, opener)
        try:
            if "b" in mode and buffering == 0:
                return raw
            if "+" in mode:
                buf = io.BufferedRandom(raw)
            elif any(c in mode for c in "wax"):
                buf = io.BufferedWriter(raw)
            else:
                buf = io.BufferedReader(raw)
            if "b" in mode:
                return buf
            text = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline,
                                    buffering == 1)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if not self.ours(path) or dir_fd is not None:
            return self.real["open"](path, flags, mode, dir_fd=dir_fd)
        path = os.path.abspath(os.fsdecode(path))
        creating = bool(flags & (os.O_CREAT | os.O_TRUNC))
        mark = self.point(f"{'create' if creating else 'open'} {self.label(path)}")
        existed = os.path.lexists(path)
        fd = self.real["open"](path, flags, mode)
        ino = self.ino(os.fstat(fd).st_ino, new=creating and not existed)
        self.fds[fd] = (path, ino)
        self.owned.add(fd)
        if creating and not existed:
            self.log.append(("create", path, ino))
        if flags & os.O_TRUNC:
            self.log.append(("truncate", ino, 0))
        self.after(mark)
        return fd

    def os_write(self, fd, data):
        if fd not in self.fds:
            return self.real["write"](fd, data)
        data = bytes(data)
        mark = self.point(f"write {self.label(self.fds[fd][0])}")
        if mark == "short":
            data = data[:max(1, len(data) // 2)]
        pos = os.lseek(fd, 0, os.SEEK_CUR)
        n = self.real["write"](fd, data)
        self.log.append(("write", self.fds[fd][1], pos, data[:n]))
        self.after(mark)
        return n

    def os_read(self, fd, n):
        if fd in self.fds:
            mark = self.point(f"read {self.label(self.fds[fd][0])}")
            if mark == "short":
                n = max(1, n // 7)
            got = self.real["read"](fd, n)
            self.after(mark)
            return got
        return self.real["read"](fd, n)

    def os_close(self, fd):
        if fd not in self.fds:
            return self.real["close"](fd)
        path, _ = self.fds.pop(fd)
        if self.dead:
            self.real["close"](fd)
            raise SimCrash(self.dead)
        try:
            mark = self.point(f"close {self.label(path)}")
        finally:
            self.real["close"](fd)
        self.after(mark)

    def _path1(self, name):
        def f(path, *a, **k):
            if not self.ours(path):
                return self.real[name](path, *a, **k)
            if name in ("chmod", "utime", "truncate") and isinstance(path, int):
                return self.real[name](path, *a, **k)
            path = os.path.abspath(os.fsdecode(path))
            mark = self.point(f"{name} {self.label(path)}")
            ino = self.ino(os.stat(path).st_ino) if os.path.exists(path) else None
            got = self.real[name](path, *a, **k)
            if name in ("unlink", "remove"):
                self.log.append(("unlink", path))
            elif name == "truncate":
                self.log.append(("truncate", ino, a[0]))
            self.after(mark)
            return got
        return f

    def _path2(self, name):
        def f(src, dst, **k):
            if not self.ours(dst) and not self.ours(src):
                return self.real[name](src, dst, **k)
            src, dst = (os.path.abspath(os.fsdecode(p)) for p in (src, dst))
            mark = self.point(f"rename {self.label(dst)}" if name in ("rename", "replace")
                              else f"{name} {self.label(dst)}")
            self.real[name](src, dst, **k)
            self.log.append(("link" if name in ("link", "symlink") else "rename", src, dst))
            self.after(mark)
        return f

    def _fd(self, name):
        def f(fd, *a):
            num = fd if isinstance(fd, int) else fd.fileno()
            if num not in self.fds:
                return self.real[name](fd, *a)
            path, ino = self.fds[num]
            if name.startswith("f") and name in ("fsync", "fdatasync"):
                mark = self.point(f"fsync {self.label(path)}")
                if os.path.isdir(path):
                    self.log.append(("syncdir", path))
                else:
                    self.log.append(("sync", ino))
            else:
                mark = self.point(f"{name} {self.label(path)}")
                self.real[name](num, *a)
                if name == "ftruncate":
                    self.log.append(("truncate", ino, a[0]))
            self.after(mark)
        return f

    # ---- power failure
    def power_loss(self, keep_names, keep_data):
        """Rewrite the directory to what the disk held: of the name changes not
        made durable a prefix (share keep_names in 0..1), of the data not
        synchronised per file a prefix of the writes (share keep_data)."""
        log = self.log
        names = {p: ino for p, (ino, _) in self.snapshot.items()}
        data = {ino: bytearray(b) for ino, b in self.snapshot.values()}

        # data
        inos = {o[1] for o in log if o[0] in ("write", "truncate")}
        for ino in inos:
            ops = [(i, o) for i, o in enumerate(log)
                   if (o[0] in ("write", "truncate") and o[1] == ino) or
                   (o[0] == "sync" and o[1] == ino)]
            last = max((k for k, (_, o) in enumerate(ops) if o[0] == "sync"), default=-1)
            rest = ops[last + 1:]
            cut = last + 1 + int(round(keep_data * len(rest)))
            b = data.setdefault(ino, bytearray())
            for _, o in ops[:cut]:
                if o[0] == "truncate":
                    del b[o[2]:]
                    b.extend(bytes(o[2] - len(b)))
                elif o[0] == "write":
                    if len(b) < o[2]:
                        b.extend(bytes(o[2] - len(b)))
                    b[o[2]:o[2] + len(o[3])] = o[3]
        # names, in order (journalled)
        ops = [o for o in log if o[0] in ("create", "unlink", "rename", "link", "syncdir")]
        last = max((k for k, o in enumerate(ops) if o[0] == "syncdir"), default=-1)
        rest = ops[last + 1:]
        cut = last + 1 + int(round(keep_names * len(rest)))
        for o in ops[:cut]:
            if o[0] == "create":
                names[o[1]] = o[2]
            elif o[0] == "unlink":
                names.pop(o[1], None)
            elif o[0] == "rename":
                if o[1] in names:
                    names[o[2]] = names.pop(o[1])
            elif o[0] == "link":
                if o[1] in names:
                    names[o[2]] = names[o[1]]
        for d, dirs, files in os.walk(self.root):
            for n in files:
                os.unlink(os.path.join(d, n))
        for p, ino in names.items():
            with self.real_open(p, "wb") as f:
                f.write(bytes(data.get(ino, b"")))


class SimRaw(io.FileIO):
    """A raw file whose reads, writes and close are operations of the SimFS."""

    def __init__(self, fs, file, mode, closefd=True, opener=None):
        self._fs = fs
        self._mine = False
        if isinstance(file, int):
            super().__init__(file, mode, closefd)
            self._mine = closefd
            if closefd:
                fs.owned.discard(file)
            return
        path = os.path.abspath(os.fsdecode(file))
        writing = any(c in mode for c in "wax")
        self._mark = fs.point(f"{'create' if writing else 'open'} {fs.label(path)}")
        existed = os.path.lexists(path)
        if opener is not None:
            super().__init__(path, mode, True,
                             lambda p, f: opener(p, f))
        else:
            super().__init__(path, mode)
        ino = fs.ino(os.fstat(self.fileno()).st_ino, new=writing and not existed)
        fs.owned.discard(self.fileno())
        fs.fds[self.fileno()] = (path, ino)
        self._mine = True
        if writing and not existed:
            fs.log.append(("create", path, ino))
        if "w" in mode and existed:
            fs.log.append(("truncate", ino, 0))
        if self._mark in ("crash-after", "power-after"):
            fs.after(self._mark)

    def write(self, b):
        fs = self._fs
        data = bytes(b)
        path, ino = fs.fds.get(self.fileno(), ("?", None))
        mark = fs.point(f"write {fs.label(path)}")
        if mark == "short":
            data = data[:max(1, len(data) // 2)]
        pos = self.tell()
        if "a" in self.mode:
            pos = os.fstat(self.fileno()).st_size
        n = super().write(data)
        fs.log.append(("write", ino, pos, data[:n]))
        fs.after(mark)
        return n

    def _point_read(self):
        path, _ = self._fs.fds.get(self.fileno(), ("?", None))
        return self._fs.point(f"read {self._fs.label(path)}")

    def readinto(self, b):
        mark = self._point_read()
        if mark == "short" and len(b) > 1:
            n = super().readinto(memoryview(b)[:max(1, len(b) // 7)])
        else:
            n = super().readinto(b)
        self._fs.after(mark)
        return n

    def readall(self):
        chunks = []
        while True:
            b = bytearray(8192)
            n = self.readinto(b)
            if not n:
                return b"".join(chunks)
            chunks.append(bytes(b[:n]))

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def truncate(self, size=None):
        fs = self._fs
        path, ino = fs.fds.get(self.fileno(), ("?", None))
        mark = fs.point(f"ftruncate {fs.label(path)}")
        size = self.tell() if size is None else size
        super().truncate(size)
        fs.log.append(("truncate", ino, size))
        fs.after(mark)
        return size

    def close(self):
        if self.closed or not self._mine:
            return super().close()
        fs = self._fs
        path, _ = fs.fds.pop(self.fileno(), ("?", None))
        if fs.dead:
            return super().close()
        try:
            mark = fs.point(f"close {fs.label(path)}")
        finally:
            super().close()
        fs.after(mark)
