"""
Simulated multiprocessing: forked worker processes are simulated processes that share the
parent's image (as a fork shares its memory), queues have a bounded pipe, a feeder per
process and whole messages, workers may be slow to start and may be killed.
"""

import collections
import os
import pickle
import types
from queue import Empty
from queue import Full

from . import core
from .core import NS
from .core import SimCrash
from .seams import SimLock
from .seams import SimRLock
from .seams import cur

PIPE_BYTES = 65536


def _sim():
    s = cur()
    if s is None:
        raise SimCrash()
    if s.current.proc.dead:
        raise SimCrash()
    return s


def _fault(s, site):
    if s.current.proc.parent is None:
        return  # faults strike the workers
    f = s.fault(site)
    if f is None:
        return
    k = f.get("kind")
    s.log("fault", site, k)
    if k == "crash":
        s.kill(s.current.proc)
        raise SimCrash()
    if k == "slow":
        s.sleep_ns(int(f.get("delay_ns", NS)))


class _Waiters:
    def __init__(self):
        self.tasks = []

    def wait(self, s, why, deadline):
        """False on time-out"""
        t = s.current
        self.tasks.append(t)
        try:
            return s.block(why, None if deadline is None else max(0, deadline - s.now))
        finally:
            if t in self.tasks:
                self.tasks.remove(t)

    def wake(self, s):
        ws, self.tasks = self.tasks, []
        for w in ws:
            s.wake(w)


def _deadline(s, block, timeout):
    if not block:
        return s.now
    return None if timeout is None else s.now + int(max(0, timeout) * NS)


class Queue:
    def __init__(self, maxsize=0, *, ctx=None):
        self._max = maxsize if maxsize and maxsize > 0 else 0
        self._sem = 0  # puts not yet got
        self._pipe = collections.deque()
        self._bytes = 0
        self._readers = _Waiters()
        self._putters = _Waiters()
        self._room = _Waiters()
        self._local = {}  # per process: [buffer, feeder task, waiters, cancelled]
        self._closed = set()

    def _mine(self, s):
        p = s.current.proc
        if p not in self._local:
            self._local[p] = {"buf": collections.deque(), "task": None, "w": _Waiters(), "cancel": False, "busy": False}
            p.__dict__.setdefault("queues", []).append(self)
        return self._local[p]

    def put(self, obj, block=True, timeout=None):
        s = _sim()
        if s.current.proc in self._closed:
            raise ValueError(f"Queue {self!r} is closed")
        s.io_point("mp.put")
        _fault(s, "mp.put")
        dl = _deadline(s, block, timeout)
        while self._max and self._sem >= self._max:
            if not block or (dl is not None and s.now >= dl):
                raise Full
            self._putters.wait(s, "mp.put", dl)
        self._sem += 1
        me = self._mine(s)
        me["buf"].append(pickle.dumps(obj))
        if me["task"] is None or me["task"].state == "done":
            proc = s.current.proc
            me["task"] = s.spawn(proc, lambda: self._feed(s, me), f"{proc.name}.feeder{len(s.tasks)}")
            me["task"].daemon = True
        me["w"].wake(s)
        s.io_point("mp.put.")

    def put_nowait(self, obj):
        return self.put(obj, False)

    def _feed(self, s, me):
        while True:
            while not me["buf"]:
                me["busy"] = False
                me["w"].wake(s)
                if s.current.proc in self._closed:
                    return
                me["w"].wait(s, "feeder", None)
            me["busy"] = True
            data = me["buf"][0]
            delay = int(s.cfg.get("feeder_ns", 0))
            if delay:
                s.sleep_ns((s.step * 2654435761) % delay)
            # a large message is written in part and the rest waits for the reader;
            # readers see it once it is whole
            while self._pipe and self._bytes + len(data) > PIPE_BYTES:
                self._room.wait(s, "pipe", None)
            me["buf"].popleft()
            self._pipe.append(data)
            self._bytes += len(data)
            self._readers.wake(s)
            s.io_point("fed")

    def get(self, block=True, timeout=None):
        s = _sim()
        if s.current.proc in self._closed:
            raise ValueError(f"Queue {self!r} is closed")
        s.io_point("mp.get")
        _fault(s, "mp.get")
        dl = _deadline(s, block, timeout)
        while not self._pipe:
            if not block or (dl is not None and s.now >= dl):
                raise Empty
            self._readers.wait(s, "mp.get", dl)
        data = self._pipe.popleft()
        self._bytes -= len(data)
        self._sem -= 1
        self._room.wake(s)
        self._putters.wake(s)
        s.io_point("mp.get.")
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return self._sem

    def empty(self):
        _sim().io_point("mp.empty")
        return not self._pipe

    def full(self):
        _sim().io_point("mp.full")
        return bool(self._max) and self._sem >= self._max

    def close(self):
        s = _sim()
        self._closed.add(s.current.proc)
        me = self._local.get(s.current.proc)
        if me:
            me["w"].wake(s)

    def join_thread(self):
        s = _sim()
        self._flush(s)

    def cancel_join_thread(self):
        s = _sim()
        self._mine(s)["cancel"] = True

    def _flush(self, s):
        me = self._local.get(s.current.proc)
        if not me or me["cancel"]:
            return
        while me["buf"] or me["busy"]:
            me["w"].wait(s, "flush", None)


class SimpleQueue(Queue):
    pass


class JoinableQueue(Queue):
    def __init__(self, maxsize=0, *, ctx=None):
        super().__init__(maxsize)
        self._open = 0
        self._jw = _Waiters()

    def put(self, obj, block=True, timeout=None):
        self._open += 1
        return super().put(obj, block, timeout)

    def task_done(self):
        self._open -= 1
        self._jw.wake(_sim())

    def join(self):
        s = _sim()
        while self._open > 0:
            self._jw.wait(s, "queue.join", None)


class Event:
    def __init__(self):
        self._set = False
        self._w = _Waiters()

    def is_set(self):
        _sim().io_point("event")
        return self._set

    def set(self):
        self._set = True
        self._w.wake(_sim())

    def clear(self):
        self._set = False

    def wait(self, timeout=None):
        s = _sim()
        dl = _deadline(s, True, timeout)
        while not self._set:
            if dl is not None and s.now >= dl:
                break
            self._w.wait(s, "event", dl)
        return self._set


class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        s = _sim()
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        self.daemon = bool(daemon)
        self._parent = s.current.proc
        n = s._mp_count = getattr(s, "_mp_count", 0) + 1
        self.name = name or f"Process-{n}"
        self._num = n
        self._proc = None
        self._task = None
        self._code = None
        self.authkey = b""

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = _sim()
        if self._proc is not None:
            raise AssertionError("cannot start a process twice")
        s.io_point("fork")
        parent = s.current.proc
        self._proc = p = s.new_proc(parent.image, name=f"{parent.name}/w{self._num}", parent=parent)
        p.daemonic = self.daemon
        s.__dict__.setdefault("workers", []).append(self)

        def body():
            _fault(s, "mp.start")
            try:
                self.run()
                code = 0
            except SimCrash:
                raise
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 1
            except BaseException as e:  # noqa
                s.log("worker_exc", p.name, type(e).__name__, str(e)[:200])
                code = 1
            for q in p.__dict__.get("queues", []):
                q._flush(s)
            self._code = code
            # exit takes the feeder threads with it
            for t in p.tasks:
                if t is not s.current and t.state != "done":
                    s.kill(p)
                    break

        self._task = s.spawn(p, body, f"{p.name}.main")
        s.log("fork", p.name)
        s.io_point("forked")

    @property
    def pid(self):
        return self._proc.pid if self._proc else None

    ident = pid

    def is_alive(self):
        s = _sim()
        if self._proc is None:
            return False
        s.io_point("is_alive")
        return not self._ended()

    def _ended(self):
        return self._task is not None and (self._task.state == "done" or self._proc.dead)

    @property
    def exitcode(self):
        if self._proc is None or not self._ended():
            return None
        if self._code is not None:
            return self._code
        return -15 if getattr(self, "_termed", False) else -9

    @property
    def sentinel(self):
        return self._num

    def join(self, timeout=None):
        s = _sim()
        dl = _deadline(s, True, timeout)
        s.io_point("mp.join")
        while self._task.state != "done":
            if dl is not None and s.now >= dl:
                return
            self._task.waiters.append(s.current)
            s.block("mp.join", None if dl is None else max(0, dl - s.now))

    def terminate(self):
        s = _sim()
        s.io_point("terminate")
        if self._proc is not None and not self._ended():
            self._termed = True
            s.kill(self._proc)

    kill = terminate

    def close(self):
        pass


def module():
    m = types.ModuleType("multiprocessing")
    m.Process, m.Queue, m.SimpleQueue, m.JoinableQueue, m.Event = Process, Queue, SimpleQueue, JoinableQueue, Event
    m.Lock, m.RLock = SimLock, SimRLock
    m.cpu_count = lambda: int(_sim().cfg.get("cpus", 4))
    m.current_process = lambda: types.SimpleNamespace(name="MainProcess", daemon=False, pid=os.getpid())
    m.active_children = lambda: [w for w in getattr(_sim(), "workers", []) if not w._ended()]
    m.get_context = lambda method=None: m
    m.set_start_method = lambda *a, **k: None
    m.get_start_method = lambda *a, **k: "fork"
    m.TimeoutError = TimeoutError
    m.queues = types.SimpleNamespace(Empty=Empty, Full=Full, Queue=Queue)
    return m
