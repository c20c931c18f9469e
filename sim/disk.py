"""
The file seam of a node: a wrapper around the files of the run's scratch directory.

Real files are used, so that whatever else looks at the directory (another node, an
observer, the netCDF libraries) sees what a real process would see at that instant.
Writing is buffered in the wrapper as a real buffered file would be (what's in the buffer
is lost if the process is killed), and every system call that changes the disk is a yield
point, a crash point and a place for an error, and is recorded, so that afterwards the
states which the disk can have after a power failure can be constructed.
"""

import errno
import fcntl
import io
import os
import stat

from . import core
from .core import REAL

BUFSIZE = 8192


class SimDisk:
    def __init__(self, node, root):
        self.node = node
        self.root = os.path.realpath(root)
        self.log = []  # the system calls that change the disk, in order
        self.inode_seq = 0
        self.inodes = {}  # path -> inode number, for files created by this node
        self.n = {}
        self.sticky = None
        self.cmd_start = 0

    # ---- bookkeeping
    def begin_command(self):
        self.n = {}
        self.sticky = None
        self.cmd_start = len(self.log)

    def counts(self):
        return {f"io_{k}": v for k, v in self.n.items()}

    def rel(self, path, dir_fd=None, follow=True):
        """name relative to the scratch directory, None for a file elsewhere"""
        if isinstance(path, int):
            return None
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if dir_fd is not None:
            path = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), path)
        if follow:
            full = os.path.realpath(path)
        else:
            full = os.path.join(os.path.realpath(os.path.dirname(path) or "."), os.path.basename(path))
        if not full.startswith(self.root + os.sep):
            return None
        return full[len(self.root) + 1 :]

    def call(self, kind, name):
        """a system call is about to happen; returns a planned error, if any"""
        node = self.node
        self.n["all"] = self.n.get("all", 0) + 1
        self.n[kind] = self.n.get(kind, 0) + 1
        node.in_sim += 1
        try:
            if node.fault("crash_io", self.n["all"]):
                node.crash()
            if kind not in ("open", "read"):
                self.n["mut"] = self.n.get("mut", 0) + 1
                if node.fault("crash_mut", self.n["mut"]):
                    node.crash()
            node.event("io", kind, self.norm(name), self.n["all"])
        finally:
            node.in_sim -= 1
        node.tick()
        if kind in ("write", "create", "fsync", "rename", "open", "read"):
            self.n["int"] = self.n.get("int", 0) + 1
            f = node.fault("int_io", self.n["int"])
            if f:
                raise core.EXC[f["exc"]](f"injected {f['exc']}")
        if self.sticky and kind in ("write", "create", "fsync"):
            return OSError(self.sticky, os.strerror(self.sticky), name)
        f = node.fault("io_" + kind, self.n[kind])
        if f:
            num = getattr(errno, f["errno"])
            if f.get("sticky"):
                self.sticky = num
            err = OSError(num, os.strerror(num), name)
            err.part = f.get("part", 0.0)
            return err
        return None

    def norm(self, name):
        return name

    # ---- operations
    def open(self, path, mode, *args, **kwargs):
        rel = self.rel(path)
        if rel is None:
            return REAL["open"](path, mode, *args, **kwargs)
        writing = any(c in mode for c in "wax+")
        if "b" not in mode:
            if not writing:
                return REAL["open"](path, mode, *args, **kwargs)
            raw = self.open(path, mode.replace("t", "") + "b")
            kw = {k: v for k, v in kwargs.items() if k in ("encoding", "errors", "newline")}
            return io.TextIOWrapper(io.BufferedWriter(raw), **kw)
        if not writing:
            err = self.call("open", rel)
            if err:
                raise err
            return io.BufferedReader(SimReader(self, rel, path), 1 << 16)
        exists = os.path.exists(path)
        creates = ("w" in mode) or ("x" in mode) or ("a" in mode and not exists)
        if creates:
            err = self.call("create", rel)
        else:
            err = self.call("open", rel)
        if err:
            raise err
        raw = REAL["open"](path, mode, buffering=0)
        if creates:
            self.inode_seq += 1
            ino = self.inode_seq
            if exists and "w" in mode:
                # truncation of an existing file, keeps its inode
                old = self.inodes.get(rel)
                if old is None:
                    self.inodes[rel] = old = ino
                    self.log.append(("adopt", rel, old))
                ino = old
                self.log.append(("trunc", ino))
            else:
                self.inodes[rel] = ino
                self.log.append(("create", rel, ino))
        else:
            ino = self.inodes.get(rel)
            if ino is None:
                self.inode_seq += 1
                ino = self.inodes[rel] = self.inode_seq
                self.log.append(("adopt", rel, ino))
        return SimWriter(self, rel, raw, ino)

    def inode(self, rel):
        """the number of an existing file"""
        ino = self.inodes.get(rel)
        if ino is None:
            self.inode_seq += 1
            ino = self.inodes[rel] = self.inode_seq
            self.log.append(("adopt", rel, ino))
        return ino

    def rename(self, a, b, which="replace", src_dir_fd=None, dst_dir_fd=None):
        ra, rb = self.rel(a, src_dir_fd, False), self.rel(b, dst_dir_fd, False)
        if ra is None and rb is None:
            return REAL[which](a, b, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        if ra is None or rb is None:
            # the directory for temporary files is on a file system of its own
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), a, None, b)
        err = self.call("rename", ra)
        if err:
            raise err
        isdir = os.path.isdir(os.path.join(self.root, ra))
        REAL[which](a, b, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        if isdir:
            for name in [x for x in self.inodes if x.startswith(ra + "/")]:
                self.inodes[rb + name[len(ra) :]] = self.inodes.pop(name)
            self.log.append(("renamedir", ra, rb))
            return
        ino = self.inode(ra)
        self.inodes.pop(ra)
        self.inodes[rb] = ino
        self.log.append(("rename", ra, rb))

    def link(self, a, b, **kw):
        ra, rb = self.rel(a), self.rel(b, follow=False)
        if ra is None and rb is None:
            return REAL["link"](a, b, **kw)
        if ra is None or rb is None:
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), a, None, b)
        err = self.call("rename", ra)
        if err:
            raise err
        REAL["link"](a, b, **kw)
        self.inodes[rb] = self.inode(ra)
        self.log.append(("link", ra, rb))

    def remove(self, a, which="remove", dir_fd=None):
        ra = self.rel(a, dir_fd, False)
        if ra is None:
            return REAL[which](a, dir_fd=dir_fd)
        err = self.call("unlink", ra)
        if err:
            raise err
        REAL[which](a, dir_fd=dir_fd)
        self.inodes.pop(ra, None)
        self.log.append(("unlink", ra))

    def fsync(self, fd):
        for f in list(SimWriter.OPEN):
            if not f.closed and f.raw.fileno() == fd:
                f.flush()
        for rel, ino in self.which(fd):
            err = self.call("fsync", rel)
            if err:
                raise err
            if ino is not None:
                self.log.append(("fsync", ino))
            else:
                self.log.append(("fsyncdir",))
            return None
        return REAL["fsync"](fd)

    # ---- files by their descriptors
    def which(self, fd):
        """[(name, inode)] of an open file or directory of the scratch directory"""
        for f in list(SimWriter.OPEN):
            if not f.closed and f.raw.fileno() == fd:
                return [(f.rel, f.ino)]
        if not isinstance(fd, int) or fd < 0:
            return []
        try:
            mode = os.fstat(fd).st_mode
            if not (stat.S_ISREG(mode) or stat.S_ISDIR(mode)):
                return []
            path = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            return []
        if path.endswith(" (deleted)") or not (path + os.sep).startswith(self.root + os.sep):
            return []
        rel = path[len(self.root) + 1 :]
        return [(rel, None if stat.S_ISDIR(mode) else self.inode(rel))]

    def os_open(self, path, flags, mode=0o777, dir_fd=None):
        rel = self.rel(path, dir_fd)
        if rel is None or flags & os.O_DIRECTORY:
            return REAL["os_open"](path, flags, mode, dir_fd=dir_fd)
        full = os.path.join(self.root, rel)
        exists = os.path.exists(full)
        if os.path.isdir(full):
            return REAL["os_open"](path, flags, mode, dir_fd=dir_fd)
        creates = bool(flags & os.O_CREAT) and not exists
        writing = flags & (os.O_WRONLY | os.O_RDWR)
        err = self.call("create" if creates else "open", rel)
        if err:
            raise err
        fd = REAL["os_open"](path, flags, mode, dir_fd=dir_fd)
        if creates:
            self.inode_seq += 1
            self.inodes[rel] = self.inode_seq
            self.log.append(("create", rel, self.inode_seq))
        elif writing:
            ino = self.inode(rel)
            if flags & os.O_TRUNC:
                self.log.append(("trunc", ino))
        return fd

    def os_write(self, fd, data, at=None):
        found = self.which(fd)
        if not found or found[0][1] is None:
            return REAL["write"](fd, data) if at is None else REAL["pwrite"](fd, data, at)
        rel, ino = found[0]
        data = bytes(data)
        torn = self.node.fault("torn_write", self.n.get("write", 0) + 1)
        err = None if torn else self.call("write", rel)
        part = getattr(err, "part", 0.0) if err else torn.get("part", 0.5) if torn else 1.0
        chunk = data[: int(len(data) * part)]
        if at is not None:
            pos = at
        elif fcntl.fcntl(fd, fcntl.F_GETFL) & os.O_APPEND:
            pos = os.fstat(fd).st_size
        else:
            pos = os.lseek(fd, 0, os.SEEK_CUR)
        n = 0
        if chunk or not data:
            n = REAL["write"](fd, chunk) if at is None else REAL["pwrite"](fd, chunk, at)
            self.log.append(("write", ino, pos, chunk[:n]))
        if torn:
            self.node.crash()
        if err and not chunk:
            raise err
        return n

    def sendfile(self, out, inp, offset, count, *args, **kwargs):
        if not self.which(out):
            return REAL["sendfile"](out, inp, offset, count, *args, **kwargs)
        count = min(count, BUFSIZE)
        if offset is None:
            data = REAL["read"](inp, count)
        else:
            data = os.pread(inp, count, offset)
        return self.os_write(out, data) if data else 0

    def truncate(self, path, length):
        if isinstance(path, int):
            found = self.which(path)
        else:
            rel = self.rel(path)
            found = [] if rel is None else [(rel, None)]
        if not found:
            return REAL["truncate"](path, length)
        rel, ino = found[0]
        err = self.call("write", rel)
        if err:
            raise err
        REAL["truncate"](path, length)
        self.log.append(("setlen", self.inode(rel) if ino is None else ino, length))

    def fdopen(self, fd, mode, *args, **kwargs):
        """a file object for a descriptor"""
        if "b" not in mode or not any(c in mode for c in "wax+"):
            return REAL["open"](fd, mode, *args, **kwargs)
        found = self.which(fd)
        if not found or found[0][1] is None:
            return REAL["open"](fd, mode, *args, **kwargs)
        rel, ino = found[0]
        raw = REAL["open"](fd, mode, buffering=0, closefd=kwargs.get("closefd", True))
        return SimWriter(self, rel, raw, ino)


class SimReader(io.RawIOBase):
    """a file opened for reading"""

    def __init__(self, disk, rel, path):
        self.disk, self.rel = disk, rel
        self.raw = REAL["open"](path, "rb", buffering=0)
        self.name = path
        self.mode = "rb"
        self.short = False

    def readable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self.raw.fileno()

    def tell(self):
        return self.raw.tell()

    def seek(self, pos, whence=0):
        return self.raw.seek(pos, whence)

    def read(self, n=-1):
        err = self.disk.call("read", self.rel)
        if err:
            if err.errno == errno.ENODATA:  # stands for a file that ends early
                self.short = True
            else:
                raise err
        data = self.raw.read() if (n is None or n < 0) else self._full(n)
        if self.short:
            data = data[: len(data) // 2]
        return data

    def _full(self, n):
        out = b""
        while len(out) < n:
            chunk = self.raw.read(n - len(out))
            if not chunk:
                break
            out += chunk
        return out

    def readall(self):
        return self.read(-1)

    def readinto(self, b):
        data = self.read(len(b))
        b[: len(data)] = data
        return len(data)

    def close(self):
        if not self.closed:
            self.raw.close()
        super().close()


class SimWriter(io.RawIOBase):
    """a file opened for writing (and perhaps reading)"""

    OPEN = []

    def __init__(self, disk, rel, raw, ino):
        self.disk, self.rel, self.raw, self.ino = disk, rel, raw, ino
        self.name = os.path.join(disk.root, rel)
        self.mode = "rb+"
        self.buf = []
        self.buflen = 0
        self.pos = raw.tell()
        SimWriter.OPEN.append(self)

    def readable(self):
        return self.raw.readable()

    def writable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self.raw.fileno()

    def write(self, data):
        data = bytes(data)
        self.buf.append(data)
        self.buflen += len(data)
        if self.buflen >= BUFSIZE:
            self.flush()
        return len(data)

    def _sync(self):
        # write what's in the buffer, as one system call for each BUFSIZE bytes or so
        data = b"".join(self.buf)
        self.buf, self.buflen = [], 0
        done = 0
        step = max(BUFSIZE, (len(data) // 16 // BUFSIZE + 1) * BUFSIZE)
        while done < len(data):
            chunk = data[done : done + step]
            torn = self.disk.node.fault("torn_write", self.disk.n.get("write", 0) + 1)
            if torn:
                part = chunk[: int(len(chunk) * torn.get("part", 0.5))]
                if part:
                    self._put(part)
                self.disk.node.crash()
            err = self.disk.call("write", self.rel)
            if err:
                part = chunk[: int(len(chunk) * getattr(err, "part", 0.0))]
                if part:
                    self._put(part)
                    self.pos += len(part)
                raise err
            self._put(chunk)
            self.pos += len(chunk)
            done += len(chunk)

    def _put(self, chunk):
        self.raw.seek(self.pos)
        mv = memoryview(chunk)
        while len(mv):
            mv = mv[self.raw.write(mv) :]
        self.disk.log.append(("write", self.ino, self.pos, chunk))

    def flush(self):
        if self.closed:
            return
        if self.buf:
            self._sync()

    def seek(self, pos, whence=0):
        self.flush()
        if whence == 0:
            self.pos = pos
        elif whence == 1:
            self.pos += pos
        else:
            self.pos = self.raw.seek(0, 2) + pos
        return self.pos

    def tell(self):
        return self.pos + self.buflen

    def read(self, n=-1):
        self.flush()
        self.raw.seek(self.pos)
        data = self.raw.read() if (n is None or n < 0) else self.raw.read(n)
        self.pos += len(data)
        return data

    def readinto(self, b):
        data = self.read(len(b))
        b[: len(data)] = data
        return len(data)

    def truncate(self, size=None):
        self.flush()
        size = self.pos if size is None else size
        self.raw.truncate(size)
        self.disk.log.append(("setlen", self.ino, size))
        return size

    def close(self):
        if self.closed:
            return
        if core.CUR is None or core.CUR is not self.disk.node:
            # (a worker process has inherited this file, or the node is gone)
            self.raw.close()
            super().close()
            return
        try:
            self.flush()
            err = self.disk.call("close", self.rel)
            if err:
                raise err
        finally:
            self.buf, self.buflen = [], 0
            if self in SimWriter.OPEN:
                SimWriter.OPEN.remove(self)
            self.raw.close()
            super().close()


# ----------------------------------------------------------------------------------------
# disk states after a power failure
# ----------------------------------------------------------------------------------------
def crash_image(base, log, upto, rng, policy):
    """
    The files that may be on the disk if power fails after the first `upto` system calls.

    Operations on directories (create, rename, unlink) reach the disk in order, so that
    some prefix of them survives; data written to a file after its last fsync may reach
    the disk or not, independently of everything else, and possibly in part.

    :param base: files that were there (and durable) to begin with, name -> bytes
    :param policy: "all" (nothing lost), "none" (everything not synced is lost),
        "nodata" (directory operations survive, data doesn't), "mix" (random)
    :return: name -> bytes
    """
    ops = log[:upto]
    last_sync = {}
    synced_dirs = -1
    for i, op in enumerate(ops):
        if op[0] == "fsync":
            last_sync[op[1]] = i
        elif op[0] == "fsyncdir":
            synced_dirs = i
    dir_ops = [i for i, op in enumerate(ops) if op[0] in ("create", "rename", "renamedir", "link", "unlink", "adopt")]
    # fsync of a file makes its creation durable (and so, in order, what came before it)
    floor = sum(1 for j in dir_ops if j <= synced_dirs)
    created = {op[2]: i for i, op in enumerate(ops) if op[0] == "create"}
    for ino, i in last_sync.items():
        if ino in created:
            floor = max(floor, sum(1 for j in dir_ops if j <= created[ino]))
    n_dir = len(dir_ops)
    if policy in ("all", "nodata"):
        keep = n_dir
    elif policy == "none":
        keep = floor
    else:
        keep = rng.randint(floor, n_dir)
    survivors = set(dir_ops[:keep])

    names = {name: ("base", name) for name in base}
    content = {("base", name): bytearray(data) for name, data in base.items()}
    bind = {}  # inode -> content key
    # data first: the content of each inode
    for i, op in enumerate(ops):
        if op[0] == "adopt":
            bind.setdefault(op[2], ("base", op[1]))
        elif op[0] == "create":
            bind[op[2]] = ("ino", op[2])
            content[("ino", op[2])] = bytearray()
        elif op[0] in ("write", "trunc", "setlen"):
            key = bind.get(op[1])
            if key is None:
                continue
            data = content.setdefault(key, bytearray())
            durable = i <= last_sync.get(op[1], -1)
            if not durable:
                if policy in ("none", "nodata"):
                    continue
                if policy == "mix":
                    roll = rng.random()
                    if roll < 0.4:
                        continue
                    if roll < 0.55 and op[0] == "write":
                        op = (op[0], op[1], op[2], op[3][: rng.randrange(len(op[3]) + 1)])
            if op[0] == "trunc":
                del data[:]
            elif op[0] == "setlen":
                if len(data) > op[2]:
                    del data[op[2] :]
                else:
                    data.extend(b"\0" * (op[2] - len(data)))
            else:
                pos, chunk = op[2], op[3]
                if len(data) < pos:
                    data.extend(b"\0" * (pos - len(data)))
                data[pos : pos + len(chunk)] = chunk
    for i, op in enumerate(ops):
        if i not in survivors:
            continue
        if op[0] == "create":
            names[op[1]] = ("ino", op[2])
        elif op[0] == "rename":
            key = names.pop(op[1], None)
            if key is not None:
                names[op[2]] = key
        elif op[0] == "link":
            if op[1] in names:
                names[op[2]] = names[op[1]]
        elif op[0] == "renamedir":
            for name in [x for x in names if x.startswith(op[1] + "/")]:
                names[op[2] + name[len(op[1]) :]] = names.pop(name)
        elif op[0] == "unlink":
            names.pop(op[1], None)
    return {name: bytes(content.get(key, b"")) for name, key in names.items()}
