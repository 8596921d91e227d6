"""
Deterministic scheduler.

Every simulated thread is a real OS thread, but exactly one of them runs at a time:
the running thread hands control to the next one explicitly.  Who runs next, and at
which step, is decided by one seeded PRNG (or by a recorded switch list on replay).
Time is simulated: it advances by a fixed cost per step and jumps to the next timer
when nothing is runnable.
"""

import _thread
import gc
import hashlib
import heapq
import os
import random
import sys

NS = 1_000_000_000
_REAL_LOCK = _thread.allocate_lock


class SimCrash(BaseException):
    """raised inside threads of a simulated process which has been killed"""


class HarnessError(Exception):
    """the harness itself is wrong: never to be confused with a violation"""


class Proc:
    """a simulated operating-system process"""

    def __init__(self, sim, pid, node, image, name):
        self.sim = sim
        self.pid = pid
        self.node = node
        self.image = image
        self.name = name
        self.dead = False
        self.skew = 0
        self.tasks = []
        self.parent = None
        self.main = None

    @property
    def m(self):
        return self.image

    def __repr__(self):
        return f"<{self.name}>"


class Task:
    __slots__ = ("id", "name", "proc", "fn", "sem", "state", "wake", "wseq", "result", "exc",
                 "waiters", "timed_out", "stall_until", "thread_obj", "daemon", "local", "why")

    def __init__(self, id, name, proc, fn):
        self.id = id
        self.name = name
        self.proc = proc
        self.fn = fn
        self.sem = _REAL_LOCK()
        self.sem.acquire()
        self.state = "ready"
        self.wake = None
        self.wseq = 0
        self.result = None
        self.exc = None
        self.waiters = []
        self.timed_out = False
        self.stall_until = 0
        self.thread_obj = None
        self.daemon = False
        self.local = {}
        self.why = ""

    def __repr__(self):
        return f"<task {self.id} {self.name} {self.state}>"


class _Main:
    """what threading.current_thread() returns in a process's own (main) thread"""

    name = "MainThread"
    daemon = _daemonic = False

    def __init__(self):
        self.ident = self.native_id = _thread.get_ident()

    def is_alive(self):
        return True


class Sim:
    current_sim = None

    def __init__(self, cfg, switches=None):
        """
        cfg: seed, preempt (probability per step), step_cost_ns, max_steps, epoch_ns,
             tick_ns (clock granularity), oversleep_ns, stall_p, stall_ns, opcodes
        switches: None to search, or a list of [step, task_id, stall_ns] to replay
        """
        self.cfg = cfg
        self.rng = random.Random(f"sched-{cfg['seed']}")
        self.replaying = switches is not None
        self.plan = {s[0]: (s[1], s[2]) for s in (switches or [])}
        self.switches = []
        self.now = 0
        self.step = 0
        self.step_cost = int(cfg.get("step_cost_ns", 2000))
        self.preempt = float(cfg.get("preempt", 0.01))
        self.max_steps = int(cfg.get("max_steps", 3_000_000))
        self.epoch = int(cfg.get("epoch_ns", 1_710_000_000 * NS))
        self.tick = max(1, int(cfg.get("tick_ns", 1)))
        self.oversleep = int(cfg.get("oversleep_ns", 0))
        self.stall_p = float(cfg.get("stall_p", 0.0))
        self.stall_ns = int(cfg.get("stall_ns", 0))
        self.opcodes = bool(cfg.get("opcodes", False))
        self.max_time = int(cfg.get("max_time_s", 86400 * 30)) * NS
        self.tasks = []
        self.ready = []
        self.timers = []
        self.tseq = 0
        self.current = None
        self.ended = None
        self.procs = []
        self.next_pid = 4000
        self.history = []
        self.logs = []
        self.violation = None
        self.error = None
        self.done = False
        self.main_sem = _REAL_LOCK()
        self.main_sem.acquire()
        self.countdown = 0
        self.next_check = 0
        self.switch_hash = hashlib.blake2b(digest_size=8)
        self.n_switch = 0
        self.fault_fired = {}
        self.fault_counts = {}
        self.probes = {}
        self.crash_at = {}
        self.quiet = 0
        self.faults = []
        self.traced_cache = {}
        self.trace_root = os.environ.get("DST_REPO", "/repo") + "/mabel"
        self.trace_skip = ()
        self.exit_tasks = 0
        self.collecting = False
        self.gc_rng = random.Random(f"gc-{cfg['seed']}")
        self.gc_mean = int(cfg.get("gc_mean", 0))
        self.next_gc = 1 << 62
        if self.gc_mean:
            self.next_gc = self.gc_rng.randrange(1, 2 * self.gc_mean)
        self._reset_countdown()

    # ---------------------------------------------------------------- bookkeeping
    def log(self, kind, *fields):
        self.history.append((self.step, self.now, kind) + fields)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        h = hashlib.blake2b(digest_size=12)
        h.update(repr(self.history).encode("utf8", "replace"))
        h.update(repr((self.step, self.now, self.n_switch)).encode())
        h.update(self.switch_hash.digest())
        return h.hexdigest()

    def shape(self):
        """interleaving measure: order of (task, event kind), without times and payloads"""
        h = hashlib.blake2b(digest_size=8)
        for e in self.history:
            h.update(f"{e[2]}|{e[3] if len(e) > 3 else ''};".encode("utf8", "replace"))
        return h.hexdigest()

    def fail(self, cls, message):
        """record a violation and stop the run"""
        if self.violation is None:
            self.violation = {"class": cls, "message": str(message)[:3000], "step": self.step,
                              "sim_time_s": self.now / NS}
        self._stop()

    def harness_error(self, message):
        if self.error is None:
            self.error = str(message)
        self._stop()

    def _stop(self):
        self.done = True
        if self.current is not None:
            self.current = None
            self.main_sem.release()
            park = _REAL_LOCK()
            park.acquire()
            park.acquire()

    # ---------------------------------------------------------------- clock
    def wall_ns(self, proc=None):
        w = self.epoch + self.now
        if proc is None and self.current is not None:
            proc = self.current.proc
        if proc is not None:
            w += proc.skew
        return w - (w % self.tick)

    # ---------------------------------------------------------------- tasks
    def new_proc(self, image, name=None, pid=None, node=0x2ADE, parent=None):
        if pid is None:
            pid = self.next_pid
            self.next_pid += 1
        p = Proc(self, pid, node, image, name or f"p{len(self.procs)}")
        p.parent = parent
        if parent is not None:
            p.skew = parent.skew
        self.procs.append(p)
        return p

    def spawn(self, proc, fn, name):
        t = Task(len(self.tasks), name, proc, fn)
        self.tasks.append(t)
        proc.tasks.append(t)
        self.ready.append(t)
        _thread.start_new_thread(self._boot, (t,))
        return t

    def _reap(self, t):
        """`t` has the baton: a thread which ended may still be dropping what it held"""
        ended, self.ended = self.ended, None
        if ended is not None:
            ended.acquire()
        self.current = t

    def _boot(self, t):
        gone = _thread._set_sentinel()  # released when nothing of this thread is left
        gone.acquire()
        t.sem.acquire()
        self._reap(t)
        try:
            # idents are used again by the operating system, so an entry of an earlier thread
            # may be there: what threading knows of this thread must not depend on that
            import threading

            threading._active[_thread.get_ident()] = t.thread_obj or _Main()
            if t.proc.dead:
                raise SimCrash()
            sys.settrace(self.gtrace)
            t.result = t.fn()
        except SimCrash:
            pass
        except BaseException as e:  # noqa
            t.exc = e
        finally:
            sys.settrace(None)
        threading._active.pop(_thread.get_ident(), None)
        if self.current is not t:
            # the run was stopped while this thread unwound
            return
        t.state = "done"
        if t.exc is not None:
            self.log("task_exc", t.name, type(t.exc).__name__, str(t.exc)[:200])
            if t.local.get("harness"):
                import traceback

                text = "".join(traceback.format_exception(t.exc))
                if any(f.filename.startswith(self.trace_root) for f in traceback.extract_tb(t.exc.__traceback__)):
                    # raised by the code under test where the scenario gives it no reason to
                    self.violation = self.violation or {
                        "class": "unexpected-exception", "message": f"{t.name}: {type(t.exc).__name__}: {t.exc}",
                        "step": self.step, "sim_time_s": self.now / NS}
                    self._stop()
                else:
                    self.harness_error(text)
                return
        for w in t.waiters:
            self._make_ready(w)
        t.waiters = []
        if t in self.ready:
            self.ready.remove(t)
        # one scheduling decision per step, or the recorded switches would be ambiguous
        self.step += 1
        self.now += self.step_cost
        nxt = self._choose(forced=True)
        if nxt is None:
            return
        # `current` stays this task until the thread is gone
        self.ended = gone
        nxt.sem.release()

    def run(self, proc, fn, name="main"):
        """run `fn` as the first task until it returns (or a violation stops the run)"""
        Sim.current_sim = self

        def director():
            fn()
            self.done = True

        t = self.spawn(proc, director, name)
        t.local["harness"] = True
        self.director = t
        self.current = t
        t.sem.release()
        self.main_sem.acquire()
        self.current = None
        Sim.current_sim = None

    # ---------------------------------------------------------------- scheduling
    def _reset_countdown(self):
        p = self.preempt
        if self.replaying or p <= 0:
            c = 20000
        else:
            # geometric gap
            c = 1
            u = self.rng.random()
            import math

            if p < 1:
                c = 1 + int(math.log(max(u, 1e-12)) / math.log(1 - p))
            c = min(c, 20000)
        self.next_check = self.step + c
        if self.replaying:
            self.next_check = 0

    def _make_ready(self, t):
        if t.state in ("blocked", "sleep"):
            t.state = "ready"
            t.wake = None
            t.wseq += 1
            self.ready.append(t)

    def _fire_timers(self):
        timers = self.timers
        while timers and timers[0][0] <= self.now:
            _, _, t, ws = heapq.heappop(timers)
            if t.wseq == ws and t.state in ("blocked", "sleep"):
                t.timed_out = True
                self._make_ready(t)

    def _choose(self, forced):
        """
        Pick the task to run.  `forced`: the current task cannot continue.
        Returns None when the run is over.
        """
        while True:
            if self.done or self.step > self.max_steps or self.now > self.max_time:
                if not self.done:
                    self.violation = self.violation or {
                        "class": "no-progress",
                        "message": f"run did not finish within {self.max_steps} steps / {self.max_time // NS} s simulated: "
                                   + ", ".join(f"{t.name}:{t.state}:{t.why}" for t in self.tasks if t.state != "done"),
                        "step": self.step, "sim_time_s": self.now / NS}
                self.done = True
                self.current = None
                self.main_sem.release()
                return None
            self._fire_timers()
            ready = self.ready
            if ready:
                break
            # nothing runnable: advance time
            while self.timers and (self.timers[0][2].wseq != self.timers[0][3]
                                   or self.timers[0][2].state == "done"):
                heapq.heappop(self.timers)
            if not self.timers:
                self.violation = self.violation or {
                    "class": "deadlock",
                    "message": "no thread can run: " + ", ".join(
                        f"{t.name}:{t.state}:{t.why}" for t in self.tasks if t.state != "done"),
                    "step": self.step, "sim_time_s": self.now / NS}
                self.done = True
                self.current = None
                self.main_sem.release()
                return None
            self.now = max(self.now, self.timers[0][0])
        cur = self.current
        if self.replaying:
            want = self.plan.get(self.step)
            nxt = None
            if want is not None:
                for t in ready:
                    if t.id == want[0]:
                        nxt = t
                        break
                if nxt is not None and want[1] and cur in ready and nxt is not cur:
                    self._stall(cur, want[1])
            if nxt is None:
                nxt = cur if (not forced and cur in ready) else min(ready, key=lambda t: t.id)
            default = None
        else:
            default = cur if (not forced and cur in ready) else min(ready, key=lambda t: t.id)
            if len(ready) == 1:
                nxt = ready[0]
            else:
                nxt = ready[self.rng.randrange(len(ready))]
                if nxt is not default:
                    stall = 0
                    if self.stall_p and not forced and cur in ready and self.rng.random() < self.stall_p:
                        stall = int(self.rng.random() * self.stall_ns) + 1
                        self._stall(cur, stall)
                        self.fault_fired["stall"] = self.fault_fired.get("stall", 0) + 1
                    self.switches.append([self.step, nxt.id, stall])
        if nxt is not cur:
            self.n_switch += 1
            self.switch_hash.update(b"%d:%d;" % (self.step, nxt.id))
        return nxt

    def _stall(self, t, ns):
        self.ready.remove(t)
        t.state = "sleep"
        t.why = "stalled"
        t.wseq += 1
        t.wake = self.now + ns
        self.tseq += 1
        heapq.heappush(self.timers, (t.wake, self.tseq, t, t.wseq))

    def _handoff(self, t, nxt):
        if nxt is None:
            park = _REAL_LOCK()
            park.acquire()
            park.acquire()
            return
        if nxt is t:
            return
        self.current = nxt
        nxt.sem.release()
        t.sem.acquire()
        self._reap(t)

    def yield_point(self, why="", weight=1):
        """a point at which the scheduler may switch; raises SimCrash in a dead process"""
        t = self.current
        if t is None or t.state == "done":
            return
        if t.proc.dead:
            raise SimCrash()
        self.step += weight
        self.now += self.step_cost * weight
        if self.crash_at and self.step >= min(self.crash_at):
            self._due_crashes()
            if t.proc.dead:
                self._leave_dead(t)
        if self.quiet:
            return
        if self.replaying:
            if self.step not in self.plan and self.step < self.max_steps:
                return
        elif self.step < self.next_check:
            return
        self._reset_countdown()
        t.why = why
        nxt = self._choose(forced=False)
        self._handoff(t, nxt)
        if t.proc.dead:
            raise SimCrash()

    def io_point(self, why):
        """I/O is a likelier switch point than a plain line"""
        t = self.current
        if t is None:
            return
        t.local["io"] = t.local.get("io", 0) + 1
        if not self.replaying and not self.quiet and self.preempt > 0:
            if self.rng.random() < 0.35:
                self.next_check = 0
        self.yield_point(why)

    def _leave_dead(self, t):
        raise SimCrash()

    def block(self, why, timeout_ns=None):
        """park the current task until made ready or timed out; returns True if woken"""
        t = self.current
        if t.proc.dead or t.state == "done":
            raise SimCrash()
        t.state = "blocked" if timeout_ns is None or why != "sleep" else "sleep"
        t.why = why
        t.timed_out = False
        t.wseq += 1
        if t in self.ready:
            self.ready.remove(t)
        if timeout_ns is not None:
            extra = 0
            if self.oversleep and not self.replaying:
                pass
            if self.oversleep:
                # deterministic spread without drawing from the schedule PRNG
                extra = (self.step * 2654435761 + t.id * 40503) % (self.oversleep + 1)
            self.tseq += 1
            heapq.heappush(self.timers, (self.now + max(0, int(timeout_ns)) + extra, self.tseq, t, t.wseq))
        self.step += 1
        self.now += self.step_cost
        nxt = self._choose(forced=True)
        self._handoff(t, nxt)
        if t.proc.dead:
            raise SimCrash()
        return not t.timed_out

    def sleep_ns(self, ns):
        self.block("sleep", ns)

    def wake(self, t):
        # timers already due fire first, so that a wake-up never overtakes a time-out
        # merely because nobody looked at the clock yet (keeps replay exact)
        self._fire_timers()
        self._make_ready(t)

    # ---------------------------------------------------------------- crash
    def kill(self, proc):
        """kill a process: its threads unwind without effect"""
        if proc.dead:
            return
        proc.dead = True
        self.log("crash", proc.name)
        for t in proc.tasks:
            if t.state in ("blocked", "sleep"):
                self._make_ready(t)
        for p in self.procs:
            if p.parent is proc and getattr(p, "daemonic", False):
                pass

    def _due_crashes(self):
        for s in sorted(self.crash_at):
            if s <= self.step:
                p = self.crash_at.pop(s)
                if not p.dead:
                    self.fault_fired["crash@step"] = self.fault_fired.get("crash@step", 0) + 1
                    self.kill(p)

    # ---------------------------------------------------------------- faults
    def fault(self, site, proc=None):
        """
        Count one arrival at fault site `site` and return the scheduled fault, if any.
        faults: list of {"site": s, "nth": k, ...}; a "times" field makes it repeat.
        """
        if self.current is not None and self.current.proc is self.director.proc:
            return None  # the harness's own I/O
        n = self.fault_counts.get(site, 0)
        self.fault_counts[site] = n + 1
        for f in self.faults:
            if f["site"] == site:
                lo = f["nth"]
                hi = lo + f.get("times", 1)
                if lo <= n < hi:
                    key = f"{site.split(':')[0].split('@')[0]}:{f.get('kind', '')}"
                    self.fault_fired[key] = self.fault_fired.get(key, 0) + 1
                    return f
        return None

    # ---------------------------------------------------------------- tracing
    def gtrace(self, frame, event, arg):
        code = frame.f_code
        ok = self.traced_cache.get(code)
        if ok is None:
            ok = code.co_filename.startswith(self.trace_root) and code.co_name != "<module>"
            self.traced_cache[code] = ok
        if not ok:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.ltrace

    def ltrace(self, frame, event, arg):
        if event == "line" or event == "opcode":
            t = self.current
            if t is None:
                return self.ltrace
            if t.proc.dead:
                raise SimCrash()
            self.step += 1
            self.now += self.step_cost
            if self.replaying:
                if self.step in self.plan or self.crash_at or self.step >= self.max_steps:
                    self.step -= 1
                    self.now -= self.step_cost
                    self.yield_point("line")
            elif self.step >= self.next_check or self.crash_at:
                self.step -= 1
                self.now -= self.step_cost
                self.yield_point("line")
            if self.step >= self.next_gc and event == "line":
                self._collect(t)
        return self.ltrace

    def _collect(self, t):
        """the interpreter collects garbage whenever it likes, in whichever thread it is"""
        self.next_gc = self.step + self.gc_rng.randrange(1, 2 * self.gc_mean)
        if self.collecting or self.quiet or self.current is not t:
            return
        if len({id(p.image) for p in self.procs if p.image is not None}) > 1:
            return  # what is collected may belong to another process
        self.collecting = True
        try:
            gc.collect()
        finally:
            self.collecting = False
        if t.proc.dead:
            raise SimCrash()
