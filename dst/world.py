"""What a scenario sees: processes, client threads, storage, logs, and violation reporting."""

import os

from . import core
from . import decode
from . import seams
from .core import NS
from .core import Sim
from .core import SimCrash
from .image import Image
from .store import ObjStore
from .store import adapters
from .store import gcs_module
from .store import minio_module

_pool = []
LOGS = []


def make_image():
    from . import mp

    im = Image({"google.cloud.storage": gcs_module(), "minio": minio_module(),
                "multiprocessing": mp.module()})
    im.preload()
    im.SimWriter, im.SimReader = adapters(im)
    return im


def preload(n):
    while len(_pool) < n:
        _pool.append(make_image())


def take_image():
    return _pool.pop(0) if _pool else make_image()


class Call:
    """outcome of one API call"""
    __slots__ = ("ok", "value", "exc", "t0", "t1", "s0", "s1")

    def __repr__(self):
        return f"ok({self.value!r})" if self.ok else f"raised {type(self.exc).__name__}: {self.exc}"


def exists(path):
    try:
        seams.REAL.stat(path)
        return True
    except OSError:
        return False


class World:
    def __init__(self, sim, sc, root):
        self.sim = sim
        self.sc = sc
        self.root = root
        sim.store = self.store = ObjStore(sim, int(sc.get("latency_ns", 0)))
        sim.failed_gets = []
        sim.truncated_gets = []
        sim.faults = list(sc.get("faults", []))

    # ------------------------------------------------------------ processes and threads
    def proc(self, name=None, **kw):
        p = self.sim.new_proc(take_image(), name=name, **kw)
        return p

    def client(self, proc, fn, name):
        def body():
            try:
                return fn()
            except SimCrash:
                raise
            except core.HarnessError:
                raise
        t = self.sim.spawn(proc, body, f"{proc.name}.{name}")
        t.local["harness"] = True
        return t

    def join(self, task, timeout_s=None):
        deadline = None if timeout_s is None else self.sim.now + int(timeout_s * NS)
        while task.state != "done":
            task.waiters.append(self.sim.current)
            left = None if deadline is None else max(0, deadline - self.sim.now)
            if not self.sim.block("join", left):
                return False
        return True

    def sleep(self, seconds):
        self.sim.sleep_ns(int(seconds * NS))

    def call(self, fn, *a, **k):
        c = Call()
        c.t0, c.s0 = self.sim.now, self.sim.step
        try:
            c.value = fn(*a, **k)
            c.ok = True
            c.exc = None
        except SimCrash:
            raise
        except Exception as e:
            c.ok = False
            c.value = None
            c.exc = e
        t = self.sim.current
        if t is None or t.proc.dead:
            # the crash was swallowed on its way (a bare except, a generator being closed)
            raise SimCrash()
        c.t1, c.s1 = self.sim.now, self.sim.step
        return c

    def collect_garbage(self):
        """gc.collect(), which is not reentrant and may block in a finalizer"""
        import gc

        while getattr(self.sim, "collecting", False):
            self.sleep(0.01)
        self.sim.collecting = True
        try:
            gc.collect()
        finally:
            self.sim.collecting = False

    def fail(self, cls, msg):
        self.sim.fail(cls, msg)

    def wall(self, proc=None):
        """datetime of the simulated wall clock (of a process)"""
        import datetime

        us = self.sim.wall_ns(proc) // 1000
        return datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us)

    # ------------------------------------------------------------ storage, by back end
    def writer_adapter(self, proc, backend):
        if backend == "disk":
            return proc.image.get("mabel.adapters.disk.DiskWriter")
        if backend == "gcs":
            return proc.image.get("mabel.adapters.google.google_cloud_storage_writer.GoogleCloudStorageWriter")
        if backend == "minio":
            return proc.image.get("mabel.adapters.minio.MinIoWriter")
        return proc.image.SimWriter

    def recording_adapter(self, proc, backend):
        """the adapter, noting every commit call in sim.commits"""
        sim, base = self.sim, self.writer_adapter(proc, backend)
        if not hasattr(sim, "commits"):
            sim.commits = []

        class Recording(base):
            def commit(self, byte_data, override_blob_name=None):
                e = {"proc": proc.name, "task": sim.current.name, "t0": sim.now, "s0": sim.step, "t1": None, "s1": None,
                     "data": bytes(byte_data), "override": override_blob_name, "name": None, "ok": False}
                sim.commits.append(e)
                sim.log("commit", proc.name, len(byte_data))
                e["name"] = super().commit(byte_data, override_blob_name)
                e["ok"], e["t1"], e["s1"] = True, sim.now, sim.step
                sim.log("commit.", proc.name, e["name"])
                return e["name"]

        Recording.__name__ = base.__name__
        return Recording

    def full_name(self, backend, name):
        """storage name of a blob whose commit returned `name`"""
        return name if backend in ("store", "disk") else "bucket/" + name

    def reader_adapter(self, proc, backend):
        if backend == "disk":
            return proc.image.get("mabel.adapters.disk.DiskReader")
        if backend == "gcs":
            return proc.image.get("mabel.adapters.google.google_cloud_storage_reader.GoogleCloudStorageReader")
        if backend == "minio":
            return proc.image.get("mabel.adapters.minio.MinIoReader")
        return proc.image.SimReader

    def extra(self, backend):
        if backend == "minio":
            return {"end_point": "sim:9000", "access_key": "a", "secret_key": "b", "secure": False}
        return {}

    def files(self, backend, prefix=""):
        """{name: bytes} of everything stored, without yield points"""
        if backend != "disk":
            return {n: self.store.blobs[n] for n in sorted(self.store.blobs) if n.startswith(prefix)}
        out = {}
        stack = [self.root + "/" + prefix if prefix else self.root]
        while stack:
            d = stack.pop()
            try:
                with seams.REAL.scandir(d) as it:
                    entries = sorted(it, key=lambda e: e.name)
            except (FileNotFoundError, NotADirectoryError):
                continue
            for e in entries:
                if e.is_dir(follow_symlinks=False):
                    if not (d == self.root and e.name == "tmp"):
                        stack.append(e.path)
                else:
                    try:
                        with seams.REAL.io_open(e.path, "rb") as f:
                            out[os.path.relpath(e.path, self.root)] = f.read()
                    except FileNotFoundError:
                        pass
        return dict(sorted(out.items()))

    def folders(self, backend):
        """the folders there are, without yield points"""
        out, stack = set(), [self.root] if backend == "disk" else []
        while stack:
            d = stack.pop()
            try:
                with seams.REAL.scandir(d) as it:
                    inside = [e.path for e in it if e.is_dir(follow_symlinks=False) and not (d == self.root and e.name == "tmp")]
            except (FileNotFoundError, NotADirectoryError):
                continue
            stack += inside
            out.update(os.path.relpath(x, self.root) for x in inside)
        return out

    def put_file(self, backend, name, data=b""):
        """place a file or object, outside the simulated processes"""
        if backend != "disk":
            self.store.blobs[name] = data
            return
        # one step: no switch and no fault inside it
        path = os.path.join(self.root, name)
        missing, folder = [], os.path.dirname(path)
        while not exists(folder):
            missing.append(folder)
            folder = os.path.dirname(folder)
        for folder in reversed(missing):
            seams.REAL.mkdir(folder)
        with seams.REAL.io_open(path, "wb") as f:
            f.write(data)

    def del_file(self, backend, name):
        if backend != "disk":
            self.store.blobs.pop(name, None)
        elif exists(os.path.join(self.root, name)):
            seams.REAL.remove(os.path.join(self.root, name))

    def data_blobs(self, backend, prefix=""):
        """[(name, records)] of readable data blobs; a decode error is returned as None"""
        out = []
        for n, b in self.files(backend, prefix).items():
            if decode.is_data(n):
                out.append((n, decode.decode(n, b)))
        return out

    def errors_logged(self):
        return [m for lvl, m in self.sim.logs if lvl == "error"]


def install_log_capture():
    from orso.logging import get_logger

    lg = get_logger()

    def make(level):
        def method(msg="", *a, **k):
            s = Sim.current_sim
            if s is not None and s.current is not None:
                s.logs.append((level, str(msg)))
        return method

    for lvl in ("debug", "info", "warning", "error", "critical", "exception", "audit", "alert"):
        try:
            setattr(lg, lvl, make("error" if lvl in ("critical", "exception") else lvl))
        except Exception:
            pass
    import logging

    class H(logging.Handler):
        def emit(self, record):
            s = Sim.current_sim
            if s is not None and s.current is not None:
                s.logs.append((record.levelname.lower(), record.getMessage()))

    root = logging.getLogger()
    root.handlers[:] = [H()]
    root.setLevel(logging.INFO)
