"""Deterministic scheduler and step-level fault points.

A yield / fault point is every executed source line of robpy (optionally every byte code instruction),
delivered by PEP 669 monitoring. Tasks are real threads of which exactly one holds the baton; who runs
next is decided only by the explicit preemption list of the scenario.
"""
import hashlib
import logging
import signal
import sys
import threading
from _thread import allocate_lock, get_ident

from robsim import boot

TOOL = 4
mon = sys.monitoring


class StepLimit(BaseException):
    """The run exceeded its step budget."""


class Deadlock(BaseException):
    """No task can run."""


class Abort(BaseException):
    pass


class Task:
    __slots__ = ("id", "steps", "preempts", "interrupts", "trace", "sem", "thread", "done", "fn",
                 "error", "blocked", "next", "limit", "hdepth", "fired", "result", "probe")

    def __init__(self, id, fn=None, preempts=(), interrupts=None, trace=False, limit=None):
        self.id = id
        self.fn = fn
        self.steps = 0
        self.preempts = sorted(preempts)  # [(step, target)]
        self.interrupts = dict(interrupts or {})  # step -> callable returning exception
        self.trace = [] if trace else None
        self.sem = allocate_lock()
        self.sem.acquire()
        self.thread = None
        self.done = False
        self.error = None
        self.blocked = None
        self.limit = limit
        self.hdepth = 0
        self.fired = []
        self.result = None
        self.probe = None
        self._plan()

    def _plan(self):
        c = [p[0] for p in self.preempts[:1]]
        if self.interrupts:
            c.append(min(self.interrupts))
        if self.limit is not None:
            c.append(self.limit)
        self.next = min(c) if c else 1 << 62


_by_thread = {}
_code_ids = {}
_code_list = []
_installed = None
_current_sim = None
covered = None  # optional set of (code name, line) for reach measurement


def _site(code, line):
    return _code_ids.get(code, 0) * 100_000 + line


def site_name(i):
    c = _code_list[i // 100_000]
    return (c.co_filename[len(boot.PKG_DIR) + 1:], c.co_qualname, i % 100_000)


def _on_line(code, line):
    t = _by_thread.get(get_ident())
    if t is None:
        return
    t.steps += 1
    if t.trace is not None:
        t.trace.append(_site(code, line))
        if t.probe is not None:
            t.probe(t.steps, t.trace[-1])
    if t.steps >= t.next:
        _event(t, code, line)


def _event(t, code, line):
    if t.limit is not None and t.steps >= t.limit:
        t.limit = t.steps + 100_000  # keep firing if swallowed
        t._plan()
        raise StepLimit(f"step budget exhausted at {code.co_qualname}:{line}")
    if t.hdepth > 0:
        t.next = t.steps + 1  # deliver as soon as the handler lock is free
        return
    due = [s for s in t.interrupts if s <= t.steps]
    if due:
        s = min(due)
        make = t.interrupts.pop(s)
        t._plan()
        exc = make()
        t.fired.append((type(exc).__name__, code.co_qualname, line))
        if _current_sim is not None:
            _current_sim.log("int", t.id, type(exc).__name__, code.co_qualname, line)
        raise exc
    if t.preempts and t.preempts[0][0] <= t.steps:
        _, target = t.preempts.pop(0)
        t._plan()
        sim = _current_sim
        if sim is not None:
            sim.preempt(t, target, code, line)
    else:
        t._plan()


def install(instruction=False):
    """Enable the yield points on robpy's code objects (idempotent)."""
    global _installed
    mode = "ins" if instruction else "line"
    if _installed == mode:
        return
    if _installed is None:
        mon.use_tool_id(TOOL, "robsim")
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_line)
        _wrap_handler_lock()
    ev = mon.events.INSTRUCTION if instruction else mon.events.LINE
    for code in boot.robpy_code_objects():
        if code not in _code_ids:
            _code_ids[code] = len(_code_list)
            _code_list.append(code)
        mon.set_local_events(TOOL, code, ev)
    _installed = mode


def uninstall():
    global _installed
    if _installed is None:
        return
    for code in boot.robpy_code_objects():
        mon.set_local_events(TOOL, code, 0)
    mon.free_tool_id(TOOL)
    _installed = None


def _wrap_handler_lock():
    """Never take the baton away while a logging handler lock is held (it is a real lock)."""
    if getattr(logging.Handler, "_robsim", False):
        return
    acq, rel = logging.Handler.acquire, logging.Handler.release

    def acquire(self):
        acq(self)
        t = _by_thread.get(get_ident())
        if t is not None:
            t.hdepth += 1

    def release(self):
        t = _by_thread.get(get_ident())
        if t is not None:
            t.hdepth -= 1
        rel(self)

    logging.Handler.acquire, logging.Handler.release = acquire, release
    logging.Handler._robsim = True


class SimLock:
    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _by_thread.get(get_ident())
        ident = me.id if me is not None else ("os", get_ident())
        while self.owner is not None and not (self.reentrant and self.owner == ident):
            if not blocking:
                return False
            if me is None or _current_sim is None:
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock("lock held for ever")
            if not _current_sim.block(me, self, timeout is not None and timeout >= 0):
                return False
        self.owner = ident
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if _current_sim is not None:
                for t in _current_sim.tasks:
                    if t.blocked is self:
                        t.blocked = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


CPU_LIMIT = 60.0  # seconds of processor time of one batch of calls (clean runs need at most a few)


def _out_of_cpu(*a):
    raise StepLimit("processor-time budget exhausted")


class Solo:
    """Run code in the calling thread as task 0, with counting / interrupts / step limit."""

    def __init__(self, interrupts=None, limit=None, trace=False, log=None, cpu=CPU_LIMIT):
        self.task = Task(0, interrupts=interrupts, limit=limit, trace=trace)
        self._log = log
        self.cpu = cpu if limit is not None else None
        self.timer = False

    def __enter__(self):
        install(_installed == "ins")
        self.prev = _by_thread.get(get_ident())
        _by_thread[get_ident()] = self.task
        if self.cpu and self.prev is None and \
                threading.current_thread() is threading.main_thread():
            # backstop: few but ever more expensive steps are an endless loop, too
            self.timer = True
            signal.signal(signal.SIGVTALRM, _out_of_cpu)
            signal.setitimer(signal.ITIMER_VIRTUAL, self.cpu, 1.0)
        return self.task

    def __exit__(self, *a):
        if self.timer:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if self.prev is None:
            _by_thread.pop(get_ident(), None)
        else:
            _by_thread[get_ident()] = self.prev
        return False


class Sim:
    """Runs several tasks; `preempts` = {task id: [(local step, target id)]}."""

    def __init__(self, policy="lifo"):
        self.tasks = []
        self.policy = policy
        self.hash = hashlib.sha256()
        self.nlog = 0
        self.switches = []
        self.stack = []
        self.main = allocate_lock()
        self.deadlock = False
        self.events = []

    def log(self, *ev):
        self.nlog += 1
        self.hash.update(repr(ev).encode())
        if len(self.events) < 200:
            self.events.append(ev)

    def add(self, fn, preempts=(), interrupts=None, trace=False, limit=None):
        t = Task(len(self.tasks), fn, preempts, interrupts, trace, limit)
        self.tasks.append(t)
        return t

    def _runnable(self, t):
        return not t.done and t.blocked is None

    def _pick(self, exclude=None):
        if self.policy == "lifo":
            while self.stack:
                t = self.stack.pop()
                if self._runnable(t) and t is not exclude:
                    return t
        else:
            while self.stack:
                t = self.stack.pop(0)
                if self._runnable(t) and t is not exclude:
                    return t
        for t in self.tasks:
            if self._runnable(t) and t is not exclude:
                return t
        return None

    def preempt(self, t, target, code=None, line=None):
        to = self.tasks[target] if 0 <= target < len(self.tasks) else None
        if to is None or to is t or not self._runnable(to):
            return
        site = (code.co_filename[len(boot.PKG_DIR) + 1:], code.co_qualname,
                line - code.co_firstlineno) if code is not None else None
        self.log("sw", t.id, to.id, t.steps, site)
        self.switches.append((t.id, to.id, site))
        self.stack.append(t)
        self._handoff(t, to)

    def _handoff(self, frm, to):
        to.sem.release()
        frm.sem.acquire()

    def block(self, t, lock, timed):
        t.blocked = lock
        to = self._pick(exclude=t)
        if to is None:
            t.blocked = None
            if timed:
                return False
            self.deadlock = True
            self.log("deadlock", t.id)
            raise Deadlock("all tasks blocked")
        self.log("blk", t.id, to.id)
        self._handoff(t, to)
        return True

    def _body(self, t):
        t.sem.acquire()
        _by_thread[get_ident()] = t
        try:
            t.result = t.fn()
        except BaseException as e:  # harness-level: tasks catch their own outcomes
            t.error = e
        finally:
            _by_thread.pop(get_ident(), None)
            t.done = True
            self.log("end", t.id, t.steps)
            to = self._pick()
            if to is None:
                for o in self.tasks:  # blocked for ever -> report deadlock to them
                    if not o.done and o.blocked is not None:
                        self.deadlock = True
                if self.deadlock or all(o.done for o in self.tasks):
                    self.main.release()
            else:
                self.log("next", to.id)
                to.sem.release()

    def run(self, first=0):
        global _current_sim
        install(_installed == "ins")
        self.main.acquire()
        _current_sim = self
        try:
            for t in self.tasks:
                t.thread = threading.Thread(target=self._body, args=(t,), daemon=True,
                                            name=f"sim-{t.id}")
                t.thread.start()
            self.tasks[first].sem.release()
            self.main.acquire()
        finally:
            _current_sim = None
        return self

    def digest(self):
        return self.hash.hexdigest()[:16]


def choose_races(rng, traces, hot):
    """Preemptions at the steps (and repetitions of the sites) at which shared state had just changed.

    `hot[t]` = sites of task t. One site is chosen; every task that passes it is preempted there, often
    at its last passages, whose effects are not overwritten by later work of the same task."""
    n = len(traces)
    sites = sorted({s for h in hot for s in h})
    if not sites:
        return []
    out = set()
    for _ in range(rng.choice([1, 1, 2])):
        s = rng.choice(sites)
        both = rng.random() < 0.6
        t0 = rng.choice([t for t in range(n) if s in hot[t]])
        for t in range(n):
            if t != t0 and not both:
                continue
            occ = [i + 1 for i, x in enumerate(traces[t]) if x == s]
            how = rng.random()
            m = rng.choice([1, 2, 6, 30])
            occ = occ[-m:] if how < 0.5 else occ[:m] if how < 0.7 else rng.sample(occ, min(m, len(occ)))
            g = rng.choice([x for x in range(n) if x != t])
            for step in occ:
                out.add((t, step, g))
    return [list(x) for x in sorted(out)]


def choose_preempts(rng, traces, k):
    """Explicit preemption points [(task, step, target)] chosen from the tasks' solo traces.

    Three styles: single points, half uniform over executed steps and half over distinct source lines
    (so short but interesting regions such as state publication are hit as often as long loops); a
    storm on one line of one task; lockstep, where every task is preempted at each execution of one
    line or of each line of one function."""
    out = set()
    n = len(traces)
    style = rng.random()

    def lines_of(t):
        lines = {}
        for i, s in enumerate(traces[t]):
            lines.setdefault(s, []).append(i + 1)
        return lines

    def other(t):
        return rng.choice([x for x in range(n) if x != t])

    busy = [t for t in range(n) if traces[t]]
    if not busy:
        return []
    if style < 0.25:
        t = rng.choice(busy)
        lines = lines_of(t)
        s = rng.choice(sorted(lines))
        occ = lines[s]
        for step in rng.sample(occ, min(len(occ), rng.choice([3, 10, 30]))):
            out.add((t, step, other(t)))
    elif style < 0.45:
        t = rng.choice(busy)
        s = rng.choice(sorted(lines_of(t)))
        cap = rng.choice([5, 20, 60])
        for u in busy:
            occ = lines_of(u).get(s, [])
            occ = occ[:cap] if rng.random() < 0.5 else rng.sample(occ, min(len(occ), cap))
            for step in occ:
                out.add((u, step, (u + 1) % n))
    if style >= 0.45 or rng.random() < 0.3 or not out:
        for _ in range(k):
            t = rng.choice(busy)
            tr = traces[t]
            if rng.random() < 0.5:
                step = rng.randrange(len(tr)) + 1
            else:
                lines = lines_of(t)
                s = rng.choice(sorted(lines))
                step = rng.choice(lines[s])
            out.add((t, step, other(t)))
    return [list(x) for x in sorted(out)]
