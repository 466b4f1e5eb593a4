"""In-memory POSIX-like file system with process-kill, power-loss and I/O faults.

Paths below MOUNT live here; all other paths go to the real functions.
Durability model:
  * file data is durable as of the last fsync of that file;
  * a directory entry change (create, rename, unlink) is durable once its directory
    is fsynced; fsync of a file also makes durable the entries that point to it
    (as ext4/xfs/btrfs do); mkdir is durable at once;
  * a process kill keeps everything that reached write(2)/rename(2)/...;
  * power loss keeps, per directory, the durable entries plus a prefix of the pending
    changes, and per file the durable data, the current data, or a torn mixture.
"""
import errno
import io
import os
import stat as statmod

from .ctx import CTX, SimCrash

MOUNT = "/simfs"
FD_BASE = 1 << 20
_E = errno


def is_sim_path(p):
    if isinstance(p, int):
        return False
    try:
        p = os.fspath(p)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p == MOUNT or p.startswith(MOUNT + "/") or is_default_dir(p)


DEFAULT_DIR = "valori_data"     # where the code under test puts data nobody gave a place


def is_default_dir(p):
    if DEFAULT_DIR not in p or p.startswith(MOUNT + "/"):
        return False
    q = os.path.relpath(p) if p.startswith("/") else os.path.normpath(p)
    return q == DEFAULT_DIR or q.startswith(DEFAULT_DIR + "/")


def norm(p):
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if "\0" in p:
        raise ValueError("embedded null byte")
    trail = p.endswith("/") and p != "/"
    if is_default_dir(p):
        p = MOUNT + "/cwd/" + (os.path.relpath(p) if p.startswith("/") else p)
    parts = []
    for c in p.split("/"):
        if c in ("", "."):
            continue
        if c == "..":
            if parts:
                parts.pop()
            continue
        if len(os.fsencode(c)) > 255:
            raise OSError(_E.ENAMETOOLONG, "File name too long", p)
        parts.append(c)
    return parts, trail


class File:
    __slots__ = ("data", "durable", "low", "ino", "mtime", "nlink")

    def __init__(self, ino):
        self.data = bytearray()
        self.durable = None     # bytes once fsynced
        self.low = 0            # everything below this offset is as durable
        self.ino = ino
        self.mtime = 0.0
        self.nlink = 1


class Dir:
    __slots__ = ("entries", "durable", "pending", "ino", "mtime")

    def __init__(self, ino):
        self.entries = {}       # name -> node (current)
        self.durable = {}       # name -> node (survives power loss)
        self.pending = []       # ordered unsynced changes: list of list[(name, node|None)]
        self.ino = ino
        self.mtime = 0.0


class OpenFile:
    """An open file description."""
    __slots__ = ("node", "path", "flags", "pos", "inc", "closed")

    def __init__(self, node, path, flags, inc):
        self.node, self.path, self.flags, self.inc = node, path, flags, inc
        self.pos = 0
        self.closed = False


class SimFS:
    def __init__(self, rng, log, bufsize=8192):
        self.rng = rng              # decides listing order and power-loss outcomes
        self.log = log
        self.ino = 1
        self.root = Dir(self._ino())
        self.inc = 0                # incarnation number (bumped by each crash)
        self.frozen = False         # this incarnation is dead
        self.fds = {}
        self.next_fd = FD_BASE
        self.bufsize = bufsize
        self.opno = -1              # scenario operation currently running
        self.n_in_op = 0            # file-system calls since that operation started
        self.counts = {}            # opno -> number of calls (for placing faults)
        self.kinds = {}             # opno -> list of call kinds
        self.faults = {}            # (opno, n) -> fault dict
        self.active_err = []        # [remaining calls, error kind, fraction written]
        self.fired = {}             # fault kind -> times fired
        self.total = 0
        self.shuffle = True
        self.crash_info = None
        self.record_kinds = False
        self.quiet = 0
        self.fault_paths = set()    # paths hit by injected errors (cleared by whoever uses it)
        self.makedirs_sim("/simfs")

    # -- plumbing -----------------------------------------------------------
    def _ino(self):
        self.ino += 1
        return self.ino

    def makedirs_sim(self, p):
        """Create directories without faults or events (test set-up)."""
        parts, _ = norm(p)
        d = self.root
        for c in parts:
            if c not in d.entries:
                n = Dir(self._ino())
                d.entries[c] = n
                d.durable[c] = n
            d = d.entries[c]
        return d

    def put_file(self, p, data):
        parts, _ = norm(p)
        d = self.makedirs_sim("/" + "/".join(parts[:-1]))
        f = File(self._ino())
        f.data[:] = data
        f.durable = bytes(data)
        f.low = len(data)
        d.entries[parts[-1]] = f
        d.durable[parts[-1]] = f
        return f

    def read_file(self, p):
        """Content of a file, bypassing faults (oracle use)."""
        n = self._lookup_quiet(p)
        return bytes(n.data) if isinstance(n, File) else None

    def _lookup_quiet(self, p):
        parts, _ = norm(p)
        d = self.root
        for c in parts:
            if not isinstance(d, Dir) or c not in d.entries:
                return None
            d = d.entries[c]
        return d

    def begin_op(self, i):
        self.opno = i
        self.n_in_op = 0

    def clear_errors(self):
        self.active_err = []

    def _fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1

    def call(self, kind, path, size=0):
        """Every file-system call passes here first: yield point, fault point, event.
        Returns a fault dict for faults the caller has to carry out (torn/short writes)."""
        if self.quiet:
            return None
        if self.frozen:
            raise SimCrash()
        if CTX.sched is not None:
            CTX.sched.yield_point("fs:" + kind)
            if self.frozen:
                raise SimCrash()
        n = self.n_in_op
        self.n_in_op += 1
        self.total += 1
        op = self.opno
        self.counts[op] = n + 1
        if self.record_kinds:
            self.kinds.setdefault(op, []).append(kind)
        if CTX.clock is not None:
            CTX.clock.mono += 1e-4
        self.log.add("fs", op, n, kind, path, size)
        f = self.faults.get((op, n))
        act = None
        if f is not None:
            k = f["kind"]
            if k == "crash":
                where = f.get("where", "before")
                if where == "before" or (where == "torn" and kind != "write"):
                    self.do_crash(f)
                act = f
            elif k == "short":
                if kind in ("read", "write") and size > 1:
                    act = f
            else:
                self.active_err.append([f.get("dur", 1), k, f.get("frac", 0.5), False])
        for e in self.active_err:
            if e[0] <= 0:
                continue
            if not self._applies(e[1], kind):
                continue
            if e[1] == "enospc" and kind == "write" and not e[3] and int(size * e[2]) > 0:
                # as in a real kernel, what still fits is written and reported as a short
                # write; the next write fails
                e[3] = True
                self.log.add("fault", "disk fills up", kind, path)
                return {"kind": "short", "frac": e[2]}
            e[3] = False
            e[0] -= 1
            self._fire(e[1])
            self.log.add("fault", e[1], kind, path)
            self.fault_paths.add(path)
            raise OSError(self._errno(e[1]), os.strerror(self._errno(e[1])), path)
        return act

    @staticmethod
    def _applies(fk, kind):
        if fk == "enospc":
            return kind in ("write", "create", "mkdir", "rename")
        if fk == "emfile":
            return kind in ("open", "create", "scandir")
        if fk == "eio":
            return kind not in ("close",)
        if fk == "eio_read":
            return kind in ("read", "open", "stat", "scandir")
        if fk == "eio_write":
            return kind in ("write", "create", "fsync", "rename", "unlink", "truncate")
        return False

    @staticmethod
    def _errno(fk):
        return {"enospc": _E.ENOSPC, "emfile": _E.EMFILE}.get(fk, _E.EIO)

    def after(self, act):
        if act is not None and act.get("kind") == "crash":
            self.do_crash(act)

    def do_crash(self, f):
        self._fire("power_loss" if f.get("power") else "kill")
        self.log.add("crash", bool(f.get("power")))
        self.frozen = True
        self.crash_info = f
        raise SimCrash()

    def reboot(self):
        """Start a new incarnation after a crash."""
        f = self.crash_info or {}
        if f.get("power"):
            self._lose_power(self.root)
        self.crash_info = None
        self.frozen = False
        self.inc += 1
        self.fds = {}
        self.active_err = []
        # what was not lost is on disk now
        self._sync_all(self.root)

    def _lose_power(self, d):
        r = self.rng
        keep = r.choice([0, 0, len(d.pending), r.randint(0, len(d.pending))])
        cur = dict(d.durable)
        for group in d.pending[:keep]:
            for name, node in group:
                if node is None:
                    cur.pop(name, None)
                else:
                    cur[name] = node
        d.entries = cur
        d.durable = dict(cur)
        d.pending = []
        for name in list(cur):
            n = cur[name]
            if isinstance(n, Dir):
                self._lose_power(n)
            else:
                dur = n.durable if n.durable is not None else b""
                now = bytes(n.data)
                if dur == now:
                    continue
                c = r.randrange(4)
                if c == 0:
                    n.data[:] = dur
                elif c == 1:
                    # the durable part of the file cannot be torn by an append
                    n.data[:] = now[: r.randint(min(n.low, len(now)), len(now))]
                elif c == 2:        # size updated, data blocks lost
                    n.data[:] = (dur + b"\0" * len(now))[: len(now)]
                else:
                    n.data[:] = b"" if n.durable is None else dur
                n.durable = bytes(n.data)
                n.low = len(n.data)

    def _sync_all(self, d):
        d.durable = dict(d.entries)
        d.pending = []
        for n in d.entries.values():
            if isinstance(n, Dir):
                self._sync_all(n)
            else:
                n.durable = bytes(n.data)
                n.low = len(n.data)

    # -- path resolution ----------------------------------------------------
    def _resolve(self, path, parent=False):
        parts, trail = norm(path)
        p = os.fspath(path)
        d = self.root
        upto = parts[:-1] if parent else parts
        for c in upto:
            if not isinstance(d, Dir):
                raise NotADirectoryError(_E.ENOTDIR, "Not a directory", p)
            if c not in d.entries:
                raise FileNotFoundError(_E.ENOENT, "No such file or directory", p)
            d = d.entries[c]
        if parent:
            if not isinstance(d, Dir):
                raise NotADirectoryError(_E.ENOTDIR, "Not a directory", p)
            return d, parts[-1] if parts else ""
        if trail and not isinstance(d, Dir):
            raise NotADirectoryError(_E.ENOTDIR, "Not a directory", p)
        return d

    def _change(self, d, name, node):
        if node is None:
            d.entries.pop(name, None)
        else:
            d.entries[name] = node
        d.pending.append([(name, node)])

    def now(self):
        return CTX.clock.BASE + CTX.clock.mono if CTX.clock else 0.0

    # -- os-level calls -----------------------------------------------------
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = os.fspath(path)
        want_create = bool(flags & os.O_CREAT)
        d, name = self._resolve(p, parent=True)
        node = d if name == "" else d.entries.get(name)
        creating = node is None and want_create
        act = self.call("create" if creating else "open", p)
        # state may have moved while another simulated thread ran
        d, name = self._resolve(p, parent=True)
        node = d if name == "" else d.entries.get(name)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        if node is None:
            if not want_create:
                raise FileNotFoundError(_E.ENOENT, "No such file or directory", p)
            node = File(self._ino())
            node.mtime = self.now()
            self._change(d, name, node)
        else:
            if want_create and flags & os.O_EXCL:
                raise FileExistsError(_E.EEXIST, "File exists", p)
            if isinstance(node, Dir):
                if acc != os.O_RDONLY:
                    raise IsADirectoryError(_E.EISDIR, "Is a directory", p)
            elif flags & getattr(os, "O_DIRECTORY", 0):
                raise NotADirectoryError(_E.ENOTDIR, "Not a directory", p)
        if isinstance(node, File) and flags & os.O_TRUNC and acc != os.O_RDONLY:
            node.data[:] = b""
            node.low = 0
        of = OpenFile(node, p, flags, self.inc)
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = of
        self.after(act)
        return fd

    def _of(self, fd):
        of = self.fds.get(fd)
        if of is None:
            raise OSError(_E.EBADF, "Bad file descriptor")
        return of

    def alive(self, fd):
        return not self.frozen and fd in self.fds and self.fds[fd].inc == self.inc

    def os_close(self, fd):
        self.fds.pop(fd, None)

    def os_write(self, fd, data):
        of = self._of(fd)
        data = bytes(data)
        act = self.call("write", of.path, len(data))
        node = of.node
        n = len(data)
        if act is not None:
            k = act["kind"]
            if k == "short":
                n = max(1, min(n - 1, int(n * act.get("frac", 0.5))))
                self._fire("short_write")
            elif k == "crash" and act.get("where") == "torn":
                n = int(n * act.get("frac", 0.5))
                self._fire("torn_write")
        self._put(of, node, data[:n])
        self.after(act)
        return n

    def _put(self, of, node, data):
        if of.flags & os.O_APPEND:
            of.pos = len(node.data)
        node.low = min(node.low, of.pos, len(node.data))
        if of.pos > len(node.data):
            node.data.extend(b"\0" * (of.pos - len(node.data)))
        node.data[of.pos: of.pos + len(data)] = data
        of.pos += len(data)
        node.mtime = self.now()

    def os_read(self, fd, size):
        of = self._of(fd)
        if isinstance(of.node, Dir):
            raise IsADirectoryError(_E.EISDIR, "Is a directory", of.path)
        avail = max(0, min(size, len(of.node.data) - of.pos))
        act = self.call("read", of.path, avail)
        avail = max(0, min(size, len(of.node.data) - of.pos))
        if act is not None and act["kind"] == "short" and avail > 1:
            avail = max(1, min(avail - 1, int(avail * act.get("frac", 0.5))))
            self._fire("short_read")
        out = bytes(of.node.data[of.pos: of.pos + avail])
        of.pos += avail
        self.after(act)
        return out

    def os_lseek(self, fd, pos, how):
        of = self._of(fd)
        if how == 0:
            of.pos = pos
        elif how == 1:
            of.pos += pos
        else:
            of.pos = len(of.node.data) + pos
        if of.pos < 0:
            of.pos = 0
            raise OSError(_E.EINVAL, "Invalid argument")
        return of.pos

    def os_ftruncate(self, fd, length):
        of = self._of(fd)
        act = self.call("truncate", of.path, length)
        d = of.node.data
        of.node.low = min(of.node.low, length, len(d))
        if length < len(d):
            del d[length:]
        else:
            d.extend(b"\0" * (length - len(d)))
        self.after(act)

    def os_truncate(self, path, length):
        fd = self.os_open(path, os.O_WRONLY)
        try:
            self.os_ftruncate(fd, length)
        finally:
            self.os_close(fd)

    def os_fsync(self, fd):
        of = self._of(fd)
        act = self.call("fsync", of.path)
        node = of.node
        if isinstance(node, Dir):
            node.durable = dict(node.entries)
            node.pending = []
        else:
            node.durable = bytes(node.data)
            node.low = len(node.data)
            self._sync_links(self.root, node)
        self.after(act)

    def _sync_links(self, d, node):
        for group in list(d.pending):
            if any(n is node for _, n in group):
                for name, n in group:
                    if n is None:
                        d.durable.pop(name, None)
                    else:
                        d.durable[name] = n
                d.pending.remove(group)
        for n in d.entries.values():
            if isinstance(n, Dir):
                self._sync_links(n, node)

    def os_fstat(self, fd):
        of = self._of(fd)
        return self._stat_result(of.node)

    def _stat_result(self, node):
        if isinstance(node, Dir):
            mode, size, nlink = statmod.S_IFDIR | 0o755, 4096, 2
        else:
            mode, size, nlink = statmod.S_IFREG | 0o644, len(node.data), 1
        t = node.mtime
        return os.stat_result((mode, node.ino, 1, nlink, 0, 0, size, int(t), int(t), int(t)))

    def os_stat(self, path, *, dir_fd=None, follow_symlinks=True):
        act = self.call("stat", os.fspath(path))
        r = self._stat_result(self._resolve(path))
        self.after(act)
        return r

    def os_mkdir(self, path, mode=0o777, *, dir_fd=None):
        act = self.call("mkdir", os.fspath(path))
        d, name = self._resolve(path, parent=True)
        if name == "" or name in d.entries:
            raise FileExistsError(_E.EEXIST, "File exists", os.fspath(path))
        n = Dir(self._ino())
        d.entries[name] = n
        d.durable[name] = n
        self.after(act)

    def os_rmdir(self, path, *, dir_fd=None):
        act = self.call("unlink", os.fspath(path))
        d, name = self._resolve(path, parent=True)
        n = d.entries.get(name)
        if n is None:
            raise FileNotFoundError(_E.ENOENT, "No such file or directory", os.fspath(path))
        if not isinstance(n, Dir):
            raise NotADirectoryError(_E.ENOTDIR, "Not a directory", os.fspath(path))
        if n.entries:
            raise OSError(_E.ENOTEMPTY, "Directory not empty", os.fspath(path))
        d.entries.pop(name)
        d.durable.pop(name, None)
        self.after(act)

    def os_unlink(self, path, *, dir_fd=None):
        p = os.fspath(path)
        act = self.call("unlink", p)
        d, name = self._resolve(p, parent=True)
        n = d.entries.get(name)
        if n is None:
            raise FileNotFoundError(_E.ENOENT, "No such file or directory", p)
        if isinstance(n, Dir):
            raise IsADirectoryError(_E.EISDIR, "Is a directory", p)
        self._change(d, name, None)
        self.after(act)

    def os_rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        if is_sim_path(src) != is_sim_path(dst):
            raise OSError(_E.EXDEV, "Invalid cross-device link", os.fspath(src))
        act = self.call("rename", os.fspath(src) + " -> " + os.fspath(dst))
        d1, n1 = self._resolve(src, parent=True)
        d2, n2 = self._resolve(dst, parent=True)
        node = d1.entries.get(n1)
        if node is None:
            raise FileNotFoundError(_E.ENOENT, "No such file or directory", os.fspath(src))
        old = d2.entries.get(n2)
        if isinstance(old, Dir) and not isinstance(node, Dir):
            raise IsADirectoryError(_E.EISDIR, "Is a directory", os.fspath(dst))
        if old is not node:
            d1.entries.pop(n1)
            d2.entries[n2] = node
            if d1 is d2:
                d1.pending.append([(n1, None), (n2, node)])
            else:
                d2.pending.append([(n2, node)])
                d1.pending.append([(n1, None)])
        self.after(act)

    def os_link(self, src, dst, **kw):
        act = self.call("rename", os.fspath(src) + " => " + os.fspath(dst))
        node = self._resolve(src)
        d2, n2 = self._resolve(dst, parent=True)
        if n2 in d2.entries:
            raise FileExistsError(_E.EEXIST, "File exists", os.fspath(dst))
        self._change(d2, n2, node)
        self.after(act)

    def _names(self, path):
        act = self.call("scandir", os.fspath(path))
        d = self._resolve(path)
        if not isinstance(d, Dir):
            raise NotADirectoryError(_E.ENOTDIR, "Not a directory", os.fspath(path))
        names = sorted(d.entries)
        if self.shuffle:
            self.rng.shuffle(names)
        self.after(act)
        return d, names

    def os_listdir(self, path="."):
        return self._names(path)[1]

    def os_scandir(self, path="."):
        d, names = self._names(path)
        return ScandirIter([DirEntry(self, os.fspath(path), n, d.entries[n]) for n in names])

    def os_utime(self, path, *a, **k):
        act = self.call("stat", os.fspath(path))
        self._resolve(path)
        self.after(act)

    def os_access(self, path, mode, **kw):
        return self._lookup_quiet(path) is not None

    # -- file objects -------------------------------------------------------
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        m = set(mode)
        binary = "b" in m
        upd = "+" in m
        if "r" in m:
            flags = os.O_RDWR if upd else os.O_RDONLY
        elif "w" in m:
            flags = (os.O_RDWR if upd else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
        elif "a" in m:
            flags = (os.O_RDWR if upd else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
        elif "x" in m:
            flags = (os.O_RDWR if upd else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
        else:
            raise ValueError("invalid mode: %r" % mode)
        if isinstance(file, int):
            fd = file
            self._of(fd)
        elif opener is not None:
            fd = opener(file, flags | os.O_CLOEXEC)
            if fd < FD_BASE:
                return CTX.real["io.open"](fd, mode, buffering, encoding, errors, newline)
        else:
            fd = self.os_open(file, flags)
        of = self._of(fd)
        if isinstance(of.node, Dir):
            self.os_close(fd)
            raise IsADirectoryError(_E.EISDIR, "Is a directory", os.fspath(file))
        if "a" in m:
            of.pos = len(of.node.data)
        raw = SimRaw(self, fd, of, "r" in m or upd, "r" not in m or upd, closefd)
        raw.name = file if isinstance(file, int) else os.fspath(file)
        raw.mode = mode
        if binary and buffering == 0:
            return raw
        bs = self.bufsize if buffering in (-1, 1) else buffering
        bs = max(bs, 2)
        if upd:
            inner = io.BufferedRandom(raw, bs)
        elif raw.writable():
            inner = io.BufferedWriter(raw, bs)
        else:
            inner = io.BufferedReader(raw, bs)
        if binary:
            return SimBuffered(inner, raw)
        t = io.TextIOWrapper(inner, encoding or "utf-8", errors, newline)
        t.mode = mode
        return t


class DirEntry:
    def __init__(self, fs, base, name, node):
        self.name = name
        self.path = base.rstrip("/") + "/" + name
        self._node = node
        self._fs = fs

    def is_dir(self, *, follow_symlinks=True):
        return isinstance(self._node, Dir)

    def is_file(self, *, follow_symlinks=True):
        return isinstance(self._node, File)

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def inode(self):
        return self._node.ino

    def stat(self, *, follow_symlinks=True):
        return self._fs.os_stat(self.path)

    def __fspath__(self):
        return self.path


class ScandirIter:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class SimRaw(io.RawIOBase):
    def __init__(self, fs, fd, of, r, w, closefd=True):
        super().__init__()
        self._fs, self._fd, self._of_, self._r, self._w = fs, fd, of, r, w
        self._inc = fs.inc
        self._closefd = closefd
        self.name = ""
        self.mode = ""

    def _dead(self):
        return self._fs.frozen or self._fs.inc != self._inc

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        if self._dead():
            raise SimCrash()
        d = self._fs.os_read(self._fd, len(b))
        b[: len(d)] = d
        return len(d)

    def write(self, b):
        if self._dead():
            return len(b)       # the process is gone: its buffers never reach the disk
        return self._fs.os_write(self._fd, b)

    def seek(self, pos, how=0):
        if self._dead():
            return 0
        return self._fs.os_lseek(self._fd, pos, how)

    def tell(self):
        if self._dead():
            return 0
        return self._fs.os_lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if self._dead():
            return 0
        if size is None:
            size = self.tell()
        self._fs.os_ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            if not self._dead() and self._closefd:
                self._fs.os_close(self._fd)
            super().close()


class SimBuffered(io.BufferedIOBase):
    """Delegates to a C buffered object but is not an instance of io.BufferedWriter/Reader,
    so that numpy uses write()/read() instead of the C-level file descriptor."""

    def __init__(self, inner, raw):
        self._i = inner
        self._raw = raw

    @property
    def name(self):
        return self._raw.name

    @property
    def mode(self):
        return self._raw.mode

    @property
    def raw(self):
        return self._raw

    @property
    def closed(self):
        return self._i.closed

    def readable(self):
        return self._raw.readable()

    def writable(self):
        return self._raw.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self._raw.fileno()

    def isatty(self):
        return False

    def read(self, n=-1):
        return self._i.read(n)

    def read1(self, n=-1):
        return self._i.read1(n)

    def readinto(self, b):
        return self._i.readinto(b)

    def readline(self, n=-1):
        return self._i.readline(n)

    def peek(self, n=0):
        return self._i.peek(n)

    def write(self, b):
        return self._i.write(b)

    def flush(self):
        if self._i.closed:
            raise ValueError("I/O operation on closed file")
        if self._raw.writable():
            self._i.flush()

    def seek(self, p, how=0):
        return self._i.seek(p, how)

    def tell(self):
        return self._i.tell()

    def truncate(self, n=None):
        return self._i.truncate(n)

    def close(self):
        self._i.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            self._i.close()
        except BaseException:
            pass
