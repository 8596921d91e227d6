"""
Seams: every source of nondeterminism mabel can reach is replaced by a version that
consults the running simulation, and behaves as the original outside one.
Import third-party libraries before calling install().
"""

import _thread
import builtins
import datetime as _real_datetime_mod
import errno
import io
import os
import random
import sys
import tempfile
import threading
import time
import types
import uuid

from . import core
from .core import NS
from .core import Sim
from .core import SimCrash

REAL = types.SimpleNamespace()


def cur():
    s = Sim.current_sim
    if s is not None and s.current is not None:
        return s
    return None


# ------------------------------------------------------------------------ time
def _install_time():
    R = REAL
    for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns",
              "sleep", "gmtime", "localtime", "strftime", "ctime", "asctime"):
        setattr(R, n, getattr(time, n))

    def t_time_ns():
        s = cur()
        return s.wall_ns() if s else R.time_ns()

    def t_time():
        s = cur()
        return s.wall_ns() / 1e9 if s else R.time()

    def t_mono_ns():
        s = cur()
        return s.now if s else R.monotonic_ns()

    def t_mono():
        s = cur()
        return s.now / 1e9 if s else R.monotonic()

    def t_perf_ns():
        s = cur()
        return s.now if s else R.perf_counter_ns()

    def t_perf():
        s = cur()
        return s.now / 1e9 if s else R.perf_counter()

    def t_sleep(seconds):
        s = cur()
        if not s:
            return R.sleep(seconds)
        if seconds < 0:
            raise ValueError("sleep length must be non-negative")
        s.sleep_ns(int(seconds * NS))

    def t_gmtime(secs=None):
        return R.gmtime(t_time() if secs is None else secs)

    def t_localtime(secs=None):
        return R.localtime(t_time() if secs is None else secs)

    def t_strftime(fmt, t=None):
        return R.strftime(fmt, t_localtime() if t is None else t)

    def t_ctime(secs=None):
        return R.ctime(t_time() if secs is None else secs)

    def t_asctime(t=None):
        return R.asctime(t_localtime() if t is None else t)

    time.time, time.time_ns = t_time, t_time_ns
    time.monotonic, time.monotonic_ns = t_mono, t_mono_ns
    time.perf_counter, time.perf_counter_ns = t_perf, t_perf_ns
    time.sleep = t_sleep
    time.gmtime, time.localtime, time.strftime = t_gmtime, t_localtime, t_strftime
    time.ctime, time.asctime = t_ctime, t_asctime


# ------------------------------------------------------------------------ datetime
_rdt = _real_datetime_mod.datetime
_rd = _real_datetime_mod.date


def _sim_utcnow(cls):
    s = cur()
    if not s:
        return _REAL_DT["utcnow"](cls)
    us = s.wall_ns() // 1000
    return cls(1970, 1, 1) + _real_datetime_mod.timedelta(microseconds=us)


def _sim_now(cls, tz=None):
    s = cur()
    if not s:
        return _REAL_DT["now"](cls, tz)
    base = _sim_utcnow(cls)
    if tz is None:
        # each simulated host has a time zone
        return base + _real_datetime_mod.timedelta(seconds=REAL.localtime(s.wall_ns() // NS).tm_gmtoff)
    return base.replace(tzinfo=_real_datetime_mod.timezone.utc).astimezone(tz)


def _sim_dtoday(cls):
    s = cur()
    if not s:
        return _REAL_DT["dtoday"](cls)
    return _sim_now(cls)


def _sim_today(cls):
    s = cur()
    if not s:
        return _REAL_DT["today"](cls)
    d = _sim_now(_rdt)
    return cls(d.year, d.month, d.day)


_REAL_DT = {}


def patch_datetime():
    """
    Put the clock behind datetime.datetime and datetime.date themselves, so that every object
    keeps its type.  They are C types: the class dictionaries are reached through gc.
    """
    import ctypes
    import gc

    if _REAL_DT:
        return
    ddt = gc.get_referents(_rdt.__dict__)[0]
    dd = gc.get_referents(_rd.__dict__)[0]
    utcnow, now, today = _rdt.__dict__["utcnow"], _rdt.__dict__["now"], _rd.__dict__["today"]
    _REAL_DT["utcnow"] = lambda cls: utcnow.__get__(None, cls)()
    _REAL_DT["now"] = lambda cls, tz=None: now.__get__(None, cls)(tz)
    _REAL_DT["today"] = lambda cls: today.__get__(None, cls)()
    _REAL_DT["dtoday"] = lambda cls: now.__get__(None, cls)()
    ddt["utcnow"] = classmethod(_sim_utcnow)
    ddt["now"] = classmethod(_sim_now)
    ddt["today"] = classmethod(_sim_dtoday)
    dd["today"] = classmethod(_sim_today)
    for t in (_rdt, _rd):
        ctypes.pythonapi.PyType_Modified(ctypes.py_object(t))


# ------------------------------------------------------------------------ mmap
import mmap as _real_mmap  # noqa: E402


class SimMmap(_real_mmap.mmap):
    """the real mapping; creating one can fail"""

    def __new__(cls, fileno, *a, **k):
        s = cur()
        if s is not None:
            s.io_point("mmap")
            f = s.fault("mmap")
            if f is not None:
                s.log("fault", "mmap", f["kind"])
                n = errno.ENOMEM if f["kind"] == "enomem" else errno.EIO
                raise OSError(n, os.strerror(n) + " (injected)")
        return super().__new__(cls, fileno, *a, **k)


SimMmap.__name__ = SimMmap.__qualname__ = "mmap"
mmap_proxy = types.ModuleType("mmap")
for _n in dir(_real_mmap):
    if not _n.startswith("__"):
        setattr(mmap_proxy, _n, getattr(_real_mmap, _n))
mmap_proxy.mmap = SimMmap


# ------------------------------------------------------------------------ threading
class _LState:
    __slots__ = ("owner", "count", "waiters")

    def __init__(self):
        self.owner = None
        self.count = 0
        self.waiters = []


_OUT = object()


class SimLock:
    """non-reentrant lock; each simulated process sees its own copy of the state"""

    _reentrant = False

    def __init__(self):
        self._states = {}

    def _st(self, sim):
        key = sim.current.proc if sim else _OUT
        st = self._states.get(key)
        if st is None:
            st = self._states[key] = _LState()
        return st

    def acquire(self, blocking=True, timeout=-1):
        sim = cur()
        st = self._st(sim)
        me = sim.current if sim else _OUT
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if sim:
            sim.yield_point("lock")
        if self._reentrant and st.owner is me and st.count:
            st.count += 1
            return True
        if not st.count:
            st.owner = me
            st.count = 1
            return True
        if not blocking:
            return False
        if sim is None:
            raise core.HarnessError("real deadlock outside the simulation")
        sim.probe("lock_contended")
        deadline = None if timeout is None or timeout < 0 else sim.now + int(timeout * NS)
        while st.count:
            st.waiters.append(me)
            left = None if deadline is None else max(0, deadline - sim.now)
            try:
                ok = sim.block("lock", left)
            finally:
                if me in st.waiters:
                    st.waiters.remove(me)
            if not ok and st.count:
                return False
        st.owner = me
        st.count = 1
        return True

    def release(self):
        sim = cur()
        st = self._st(sim)
        me = sim.current if sim else _OUT
        if sim and sim.current.proc.dead:
            return
        if not st.count or (self._reentrant and st.owner is not me):
            raise RuntimeError("release unlocked lock" if not self._reentrant else "cannot release un-acquired lock")
        st.count -= 1
        if st.count:
            return
        st.owner = None
        if sim:
            ws, st.waiters = st.waiters, []
            for w in ws:
                sim.wake(w)
            sim.yield_point("unlock")

    def locked(self):
        return bool(self._st(cur()).count)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._states = {}

    def __repr__(self):
        return f"<sim lock at {id(self):x}>"


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        sim = cur()
        st = self._st(sim)
        return bool(st.count) and st.owner is (sim.current if sim else _OUT)

    def _release_save(self):
        sim = cur()
        st = self._st(sim)
        saved = (st.count, st.owner)
        st.count = 0
        st.owner = None
        if sim:
            ws, st.waiters = st.waiters, []
            for w in ws:
                sim.wake(w)
        return saved

    def _acquire_restore(self, saved):
        self.acquire()
        st = self._st(cur())
        st.count = saved[0]


def _install_threading():
    R = REAL
    R.Lock, R.RLock = threading.Lock, threading.RLock
    R.thread_start = threading.Thread.start
    R.thread_join = threading.Thread.join
    R.thread_is_alive = threading.Thread.is_alive
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._CRLock = SimRLock
    threading._PyRLock = SimRLock

    def start(self):
        s = cur()
        if not s:
            return R.thread_start(self)
        if getattr(self, "_sim_task", None) is not None:
            raise RuntimeError("threads can only be started once")

        def body():
            try:
                self.run()
            except SimCrash:
                raise
            except SystemExit:
                pass

        proc = s.current.proc
        if proc.dead:
            raise SimCrash()
        s._pending_thread = self
        self._sim_task = s.spawn(proc, body, f"{proc.name}.{self._sim_name(s)}")
        self._sim_task.thread_obj = self
        self._sim_task.daemon = self.daemon
        s.log("thread_start", self._sim_task.name)
        s.yield_point("thread_start")

    def _sim_name(self, s):
        n = sum(1 for t in s.tasks if t.proc is s.current.proc)
        return f"t{n}"

    def join(self, timeout=None):
        t = getattr(self, "_sim_task", None)
        s = cur()
        if t is None or not s:
            return R.thread_join(self, timeout)
        deadline = None if timeout is None else s.now + int(max(0, timeout) * NS)
        s.yield_point("join")
        while t.state != "done":
            t.waiters.append(s.current)
            left = None if deadline is None else max(0, deadline - s.now)
            ok = s.block("join", left)
            if not ok:
                return

    def is_alive(self):
        t = getattr(self, "_sim_task", None)
        if t is None:
            return R.thread_is_alive(self)
        return t.state != "done"

    threading.Thread.start = start
    threading.Thread._sim_name = _sim_name
    threading.Thread.join = join
    threading.Thread.is_alive = is_alive

    import queue

    queue.SimpleQueue = queue._PySimpleQueue
    # a lock made before locks were simulated, which is held while others are taken
    import concurrent.futures.thread

    concurrent.futures.thread._global_shutdown_lock = threading.Lock()


# ------------------------------------------------------------------------ randomness, ids
def _install_ids():
    R = REAL
    R.getpid, R.urandom, R.getnode = os.getpid, os.urandom, uuid.getnode

    def getpid():
        s = cur()
        return s.current.proc.pid if s else R.getpid()

    def urandom(n):
        s = cur()
        if not s:
            return R.urandom(n)
        return s.entropy.randbytes(n)

    def getnode():
        s = cur()
        return s.current.proc.node if s else R.getnode()

    os.getpid = getpid
    os.urandom = urandom
    random._urandom = urandom
    uuid.getnode = getnode


# ------------------------------------------------------------------------ disk
ROOT = [None]  # the scratch directory of the current run


def norm(p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not isinstance(p, str):
        return None
    p = os.path.normpath(os.path.join(REAL.cwd or REAL.getcwd(), p))
    return "/" + p.lstrip("/")


def in_root(p):
    return p is not None and ROOT[0] is not None and (p == ROOT[0] or p.startswith(ROOT[0] + "/"))


def rel(p):
    return p[len(ROOT[0]) + 1:]


def _disk_fault(s, site, path):
    """common handling of a scheduled fault at `site`; returns the fault for the caller to finish"""
    f = s.fault(site) or s.fault(f"{site}:{rel(path)}")
    if f is None:
        return None
    k = f.get("kind")
    s.log("fault", site, k, rel(path))
    if k == "memory":
        raise MemoryError("injected")
    if k == "crash":
        s.kill(s.current.proc)
        raise SimCrash()
    if k == "slow":
        s.sleep_ns(int(f.get("delay_ns", 50_000_000)))
        return None
    if k in ("eio", "enospc", "eacces", "emfile", "eintr"):
        code = getattr(errno, k.upper())
        if not f.get("torn"):
            raise OSError(code, os.strerror(code), path)
    return f


class SimRaw(io.RawIOBase):
    def __init__(self, path, flags, mode, opener=None, fd=None, closefd=True):
        self._path = path
        self._closefd = closefd
        self.name = path
        self.mode = mode
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        s = cur()
        self._sim = s
        self._proc = s.current.proc
        s.io_point("open")
        if fd is None:
            _disk_fault(s, "disk.open_w" if self._w else "disk.open_r", path)
        if fd is not None:
            self._fd = fd
        elif opener is not None:
            self._fd = opener(path, flags)
        else:
            self._fd = REAL.os_open(path, flags, 0o666)
        if self._w:
            s.log("open_w", rel(path))
            s.disk_writes += 1
        self._wrote = 0
        s.io_point("opened")

    def fileno(self):
        return self._fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def _alive(self):
        s = cur()
        if self._proc.dead or s is None or s is not self._sim:
            raise SimCrash()
        return s

    def readinto(self, b):
        s = self._alive()
        s.io_point("read")
        f = _disk_fault(s, "disk.read", self._path)
        n = len(b)
        if f is not None and f.get("kind") == "short" and n > 1:
            n = max(1, int(n * f.get("frac", 0.5)))
        data = REAL.os_read(self._fd, n)
        b[: len(data)] = data
        return len(data)

    def readall(self):
        chunks = []
        while True:
            b = bytearray(1 << 16)
            n = self.readinto(b)
            if not n:
                break
            chunks.append(bytes(b[:n]))
        return b"".join(chunks)

    def write(self, b):
        s = self._alive()
        data = bytes(b)
        s.io_point("write")
        f = _disk_fault(s, "disk.write", self._path)
        if f is not None:
            k = f.get("kind")
            frac = f.get("frac", 0.5)
            cut = min(len(data), max(0, int(len(data) * frac)))
            if f.get("line"):  # what lands ends with a whole line
                cut = data.rfind(b"\n", 0, cut) + 1 or data.find(b"\n") + 1 or cut
            if k in ("eio", "enospc"):
                if cut:
                    REAL.os_write(self._fd, data[:cut])
                code = getattr(errno, k.upper())
                raise OSError(code, os.strerror(code), self._path)
            if k == "torncrash":
                if cut:
                    REAL.os_write(self._fd, data[:cut])
                s.kill(s.current.proc)
                raise SimCrash()
            if k == "short":
                data = data[: max(1, cut)]
            if k == "piecewise":
                # the write lands in two pieces with other threads in between
                REAL.os_write(self._fd, data[:cut])
                s.log("piece", rel(self._path), cut)
                s.sleep_ns(int(f.get("delay_ns", 20_000_000)))
                self._alive()
                n = cut + (REAL.os_write(self._fd, data[cut:]) if cut < len(data) else 0)
                return n
        n = REAL.os_write(self._fd, data) if data else 0
        self._wrote += n
        s.io_point("wrote")
        return n

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        self._alive()
        if size is None:
            size = self.tell()
        os.ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                try:
                    if self._closefd:
                        self._sim.fds.pop(self._fd, None)
                        REAL.os_close(self._fd)
                except OSError:
                    pass
            s = cur()
            if s and not self._proc.dead and self._w:
                s.log("close_w", rel(self._path))
                s.io_point("closed")


def _dead_check(s):
    if s.current.proc.dead:
        raise SimCrash()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = cur()
    if s is not None and isinstance(file, int) and file in s.fds:
        # a file opened with os.open (mkstemp), what is done to it can fail like any other
        return _wrap(SimRaw(s.fds[file], 0, mode.replace("b", "").replace("t", ""), fd=file, closefd=closefd), mode, buffering, encoding, errors, newline)
    if s is None or isinstance(file, int):
        if Sim.current_sim is None and ROOT[0] and not isinstance(file, int) and any(c in mode for c in "wax+"):
            # leftovers of an ended run must not touch anything
            raise SimCrash()
        return REAL.io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    p = norm(file)
    writing = any(c in mode for c in "wax+")
    if not in_root(p):
        if writing and not (p or "").startswith("/dev/"):
            raise PermissionError(errno.EACCES, "outside the simulated disk", p)
        return REAL.io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    _dead_check(s)
    flags = os.O_CLOEXEC
    if "+" in mode:
        flags |= os.O_RDWR
    elif writing:
        flags |= os.O_WRONLY
    if "w" in mode:
        flags |= os.O_CREAT | os.O_TRUNC
    elif "x" in mode:
        flags |= os.O_CREAT | os.O_EXCL
    elif "a" in mode:
        flags |= os.O_CREAT | os.O_APPEND
    return _wrap(SimRaw(p, flags, mode.replace("b", "").replace("t", ""), opener), mode, buffering, encoding, errors, newline)


def _wrap(raw, mode, buffering, encoding, errors, newline):
    writing = any(c in mode for c in "wax+")
    binary = "b" in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = 8192 if buffering in (-1, 1) else buffering
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def _install_disk():
    R = REAL
    R.io_open = io.open
    R.getcwd = os.getcwd
    R.cwd = None
    for n in ("open", "read", "write", "close"):
        setattr(R, "os_" + n, getattr(os, n))
    for n in ("mkdir", "rmdir", "rename", "replace", "remove", "unlink", "link", "symlink", "scandir",
              "listdir", "stat", "fsync", "fdatasync", "truncate", "chmod", "utime"):
        setattr(R, n, getattr(os, n))
    io.open = sim_open
    # tempfile and pathlib look `open` up on the io module
    import pathlib

    def guard(name, site, mutating, log=True):
        real = getattr(R, name)

        def wrapper(path, *a, **k):
            s = cur()
            if s is None:
                if Sim.current_sim is None and ROOT[0] and mutating and in_root(norm(path)):
                    raise SimCrash()
                return real(path, *a, **k)
            p = norm(path)
            if not in_root(p):
                if mutating:
                    raise PermissionError(errno.EACCES, "outside the simulated disk", p)
                return real(path, *a, **k)
            _dead_check(s)
            s.io_point(name)
            if site:
                _disk_fault(s, site, p)
            res = real(path, *a, **k)
            if mutating and log:
                extra = ()
                if a and isinstance(a[0], (str, os.PathLike)):
                    q = norm(a[0])
                    extra = (rel(q) if in_root(q) else str(q),)
                s.log(name, rel(p), *extra)
            s.io_point(name + ".")
            return res

        wrapper.__name__ = name
        setattr(os, name, wrapper)

    guard("mkdir", "disk.mkdir", True)
    guard("rmdir", None, True)
    guard("remove", "disk.unlink", True)
    guard("unlink", "disk.unlink", True)
    guard("truncate", None, True)
    guard("chmod", None, True, False)
    guard("utime", None, True, False)
    guard("stat", None, False)

    def two(name, site):
        real = getattr(R, name)

        def wrapper(src, dst, *a, **k):
            s = cur()
            if s is None:
                if Sim.current_sim is None and ROOT[0] and in_root(norm(dst)):
                    raise SimCrash()
                return real(src, dst, *a, **k)
            p, q = norm(src), norm(dst)
            if not in_root(q) or (name != "symlink" and not in_root(p)):
                raise PermissionError(errno.EACCES, "outside the simulated disk", p)
            _dead_check(s)
            s.io_point(name)
            f = _disk_fault(s, site, q)
            if s.before_rename is not None:
                s.before_rename(p, q)
            res = real(src, dst, *a, **k)
            s.log(name, rel(p) if in_root(p) else p, rel(q))
            s.io_point(name + ".")
            f = s.fault(site + ".after")
            if f is not None and f.get("kind") == "crash":
                s.kill(s.current.proc)
                raise SimCrash()
            return res

        wrapper.__name__ = name
        setattr(os, name, wrapper)

    two("rename", "disk.rename")
    two("replace", "disk.rename")
    two("link", "disk.rename")
    two("symlink", "disk.rename")

    def order(s, names):
        # directory order is arbitrary: pick one from the run's seed
        import hashlib

        return sorted(names, key=lambda n: hashlib.blake2b(f"{s.cfg['seed']}|{n}".encode(), digest_size=8).digest())

    def scandir(path="."):
        s = cur()
        if s is None or isinstance(path, int):
            return R.scandir(path)
        p = norm(path)
        if not in_root(p):
            return R.scandir(path)
        _dead_check(s)
        s.io_point("scandir")
        _disk_fault(s, "disk.scandir", p)
        with R.scandir(path) as it:
            entries = list(it)
        by = {e.name: e for e in entries}
        s.io_point("scandir.")
        return _Scan([by[n] for n in order(s, by)])

    def listdir(path="."):
        s = cur()
        if s is None or isinstance(path, int):
            return R.listdir(path)
        p = norm(path)
        if not in_root(p):
            return R.listdir(path)
        _dead_check(s)
        s.io_point("listdir")
        _disk_fault(s, "disk.scandir", p)
        names = R.listdir(path)
        return order(s, names)

    os.scandir, os.listdir = scandir, listdir

    def os_open(path, flags, mode=0o777, **k):
        s = cur()
        if s is None:
            return R.os_open(path, flags, mode, **k)
        p = norm(path)
        mutating = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if not in_root(p):
            if mutating and not (p or "").startswith("/dev/null"):
                raise PermissionError(errno.EACCES, "outside the simulated disk", p)
            return R.os_open(path, flags, mode, **k)
        _dead_check(s)
        s.io_point("os.open")
        _disk_fault(s, "disk.open_w" if mutating else "disk.open_r", p)
        fd = R.os_open(path, flags, mode, **k)
        s.fds[fd] = p
        return fd

    def os_write(fd, data):
        s = cur()
        if s is None or fd not in s.fds:
            return R.os_write(fd, data)
        _dead_check(s)
        s.io_point("os.write")
        f = _disk_fault(s, "disk.write", s.fds[fd])
        data = bytes(data)
        if f is not None:
            k = f.get("kind")
            cut = int(len(data) * f.get("frac", 0.5))
            if k in ("eio", "enospc"):
                if cut:
                    R.os_write(fd, data[:cut])
                code = getattr(errno, k.upper())
                raise OSError(code, os.strerror(code))
            if k == "torncrash":
                if cut:
                    R.os_write(fd, data[:cut])
                s.kill(s.current.proc)
                raise SimCrash()
            if k == "short":
                data = data[: max(1, cut)]
        n = R.os_write(fd, data)
        s.io_point("os.write.")
        return n

    def os_close(fd):
        s = cur()
        if s is not None:
            s.fds.pop(fd, None)
        return R.os_close(fd)

    def fsync(fd):
        s = cur()
        if s is None:
            return R.fsync(fd)
        _dead_check(s)
        s.io_point("fsync")
        f = s.fault("disk.fsync")
        if f is not None and f.get("kind") in ("eio", "enospc"):
            code = getattr(errno, f["kind"].upper())
            raise OSError(code, os.strerror(code))
        return None  # process crashes only: the page cache survives, nothing to wait for

    os.open, os.write, os.close = os_open, os_write, os_close
    os.fsync = fsync
    os.fdatasync = fsync
    # tempfile: names from the run's entropy, in the simulated disk
    R.get_candidate_names = tempfile._get_candidate_names

    def names():
        s = cur()
        if s is None:
            return R.get_candidate_names()

        def gen():
            while True:
                s.tmp_seq += 1
                yield f"t{s.current.proc.pid:x}{s.tmp_seq:06d}"

        return gen()

    tempfile._get_candidate_names = names

    R.gettempdir = tempfile._gettempdir

    def gettempdir():
        s = cur()
        if s is None:
            return R.gettempdir()
        return ROOT[0] + "/tmp"

    tempfile._gettempdir = gettempdir


def install():
    patch_datetime()
    _install_time()
    _install_threading()
    _install_ids()
    _install_disk()
    sys.unraisablehook = lambda *a: None
    threading.excepthook = lambda *a: None


def attach(sim, root, seed):
    """prepare a Sim for a run in this process"""
    sim.entropy = random.Random(f"entropy-{seed}")
    random.seed(f"global-{seed}")
    sim.fds = {}
    sim.tmp_seq = 0
    sim.disk_writes = 0
    sim.before_rename = None
    ROOT[0] = root
    REAL.cwd = root
    os.chdir(root)
    REAL.mkdir(root + "/tmp")
