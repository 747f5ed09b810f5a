"""Step monitor, baton scheduler, simulator locks and fault points.

Every executed line of s2wav code and every call it makes is a *step*
(``sys.monitoring`` LINE and CALL events on s2wav code objects only). A task is
one simulated caller. At most one task runs at a time; which one runs next is
decided only by the plan (explicit (task, step, target) switches) and by the
deterministic rule "lowest-numbered runnable task" when a task ends or blocks.
Tasks are real threads parked on semaphores, so thread-locals, lock ownership
and thread identities behave as in production.
"""
import ast
import contextlib
import dis
import sys
import threading
import _thread

from . import loader

_mon = sys.monitoring
TOOL = 4
E = _mon.events
MASK = E.LINE | E.CALL

CUR = None  # task holding the baton, or None
SIM = None  # running Sim
_ident = _thread.get_ident

_sites = {}  # (code, line|-offset) -> id
SITE_NAMES = []
SITE_LINES = []


def _line_of(code, off):
    for a, b, ln in code.co_lines():
        if a <= off < b:
            return ln or 0
    return 0


_tables = {}


def _guarded(f):
    """Is some s2wav frame of this stack inside a try or with block?"""
    while f is not None:
        c = f.f_code
        if "/s2wav/" in c.co_filename and c.co_exceptiontable and not c.co_flags & 0x20:
            t = _tables.get(c)
            if t is None:
                t = _tables[c] = dis._parse_exception_table(c)
            i = f.f_lasti
            if any(e.start <= i < e.end and not e.lasti for e in t):
                return True
        f = f.f_back
    return False


_clean = {}


def _zones(path):
    """(with headers, try lines and handlers, finally bodies) of a file, as sets of lines."""
    z = _clean.get(path)
    if z is None:
        z = _clean[path] = (set(), set(), set())
        try:
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            return z
        for n in ast.walk(tree):
            if isinstance(n, ast.With):
                z[0].update(range(n.lineno, max(i.context_expr.end_lineno for i in n.items) + 1))
            elif isinstance(n, ast.Try):
                z[1].add(n.lineno)
                for h in n.handlers:
                    z[1].update(range(h.lineno, h.end_lineno + 1))
                for b in n.finalbody:
                    z[2].update(range(b.lineno, b.end_lineno + 1))
    return z


def sheltered(fn):
    """Is the running task inside clean-up code, where no fault is delivered?

    CPython itself does not interrupt between a with statement's body and its
    __exit__, and no code survives a fault in its own finally block: leaving or
    entering a with block, the `try` line after an acquire, handlers (asynchronous
    faults only) and finally blocks are out of bounds for faults.
    """
    f, inner = sys._getframe(1), None
    while f is not None and "/s2wav/" not in f.f_code.co_filename:
        f = f.f_back
    while f is not None:
        c = f.f_code
        if "/s2wav/" in c.co_filename:
            w, h, z = _zones(c.co_filename)
            ln = f.f_lineno
            if ln in z or fn is None and (ln in h or c.co_name in ("__enter__", "__exit__", "__del__")):
                return True
            if ln in w:
                if inner is None:
                    if fn is None or getattr(fn, "__name__", "") == "__exit__":
                        return True
                elif inner in ("__enter__", "__exit__"):
                    return True
        inner = c.co_name
        f = f.f_back
    return False


def site_id(code, where, kind):
    k = (code, where, kind)
    s = _sites.get(k)
    if s is None:
        s = _sites[k] = len(SITE_NAMES)
        SITE_LINES.append(where if kind == "L" else _line_of(code, where))
        fn = code.co_filename
        i = fn.rfind("/s2wav/")
        SITE_NAMES.append(f"{fn[i + 1:]}:{code.co_qualname}:{where}:{kind}")
    return s


class SimAbort(BaseException):
    """Ends a parked task when a run is over."""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


_DEPS = ("numpy", "jax", "jaxlib", "torch", "s2fft", "scipy", "pyssht", "ml_dtypes")
_STDLIB_RES = ("builtins", "io", "os", "posix", "tempfile", "pickle", "_pickle", "shutil", "json", "pathlib")


def dep_of(fn):
    """Which dependency a callable belongs to, or None."""
    m = getattr(fn, "__module__", None)
    if m is None:
        m = type(fn).__module__
        if m in ("builtins", "functools"):
            s = getattr(fn, "__self__", None)
            if s is not None and not isinstance(s, type(sys)):
                m = type(s).__module__
            elif isinstance(s, type(sys)):
                m = s.__name__
    if isinstance(fn, type):
        m = fn.__module__
    if m == "builtins":
        s = getattr(fn, "__self__", None)
        if s is not None and not isinstance(s, type(sys)):
            m = type(s).__module__
    if not isinstance(m, str):
        return None
    root = m.split(".")[0]
    if root in _DEPS:
        return root
    if root == "s2sim" and getattr(fn, "__wrapped__", None) is not None:
        # lite-mode wrappers of s2fft functions keep __module__; be safe
        return dep_of(fn.__wrapped__)
    if root in _STDLIB_RES and root != "builtins":
        return "os"
    if m == "builtins" and getattr(fn, "__name__", "") == "open":
        return "os"
    return None


def _on_line(code, line):
    t = CUR
    if t is None or t.ident != _ident():
        return
    n = t.step = t.step + 1
    if t.rec is not None:
        s = site_id(code, line, "L")
        t.rec.append(s)
        if s not in t.seen:
            t.seen[s] = _guarded(sys._getframe(1))
    if n >= t.next:
        t.fire(n, None)


def _on_call(code, off, fn, arg0):
    t = CUR
    if t is None or t.ident != _ident():
        return
    n = t.step = t.step + 1
    if t.rec is not None:
        s = site_id(code, off, "C")
        t.rec.append(s)
        if s not in t.seen:
            t.seen[s] = _guarded(sys._getframe(1))
        if s not in t.sim.call_dep:
            t.sim.call_dep[s] = dep_of(fn)
        d = t.sim.call_dep[s]
        if d is not None:
            t.depsteps.append((n, d))
    if n >= t.next:
        t.fire(n, fn)


_enabled = [False]


def enable():
    if _enabled[0]:
        return
    _enabled[0] = True
    _mon.use_tool_id(TOOL, "s2sim")
    _mon.register_callback(TOOL, E.LINE, _on_line)
    _mon.register_callback(TOOL, E.CALL, _on_call)
    for c in loader._all_codes:
        _mon.set_local_events(TOOL, c, MASK)
    loader._on_code.append(lambda c: _mon.set_local_events(TOOL, c, MASK))


@contextlib.contextmanager
def quiet():
    """No steps meanwhile: calls run at full speed, nothing is counted."""
    if not _enabled[0]:
        yield
        return
    cs = list(loader._all_codes)
    for c in cs:
        _mon.set_local_events(TOOL, c, 0)
    try:
        yield
    finally:
        for c in cs:
            _mon.set_local_events(TOOL, c, MASK)


NEVER = 1 << 60


def where():
    """file:line of the innermost s2wav frame of the running task."""
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        i = fn.rfind("/s2wav/")
        if i >= 0:
            return f"{fn[i + 7:]}:{f.f_lineno}"
        f = f.f_back
    return "?"


class Task:
    def __init__(self, sim, idx, fn, actions=()):
        self.sim, self.idx, self.fn = sim, idx, fn
        self.step = 0
        self.rec = None
        self.seen = {}
        self.depsteps = []
        # actions: list of (step, callable(task, step, fn)) sorted by step
        self.actions = sorted(actions, key=lambda a: a[0])
        self.ai = 0
        self.next = self.actions[0][0] if self.actions else NEVER
        self.limit = NEVER
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.ident = None
        self.state = "new"
        self.wait = None
        self.wait_name = None
        self.timed = False
        self.result = None
        self.error = None

    def fire(self, n, fn):
        while self.ai < len(self.actions) and self.actions[self.ai][0] <= n:
            act = self.actions[self.ai][1]
            self.ai += 1
            self._setnext()
            act(self, n, fn)
        if n >= self.limit:
            self.limit = NEVER
            self._setnext()
            raise StepLimit(f"task {self.idx} exceeded its step budget")

    def _setnext(self):
        nx = self.actions[self.ai][0] if self.ai < len(self.actions) else NEVER
        self.next = min(nx, self.limit)

    def set_limit(self, lim):
        self.limit = lim
        self._setnext()


class Sim:
    """Runs tasks under an explicit switch plan."""

    def __init__(self, fns, plan=(), extra=None, record=False, limit=3_000_000):
        """fns: list of callables (one per task).
        plan: [(task, step, target)], extra: {task: [(step, action)]}.
        """
        self.call_dep = CALL_DEP
        self.tasks = []
        self.log = []
        self.switches = 0
        self.interleaving = []
        self.abort = False
        self.deadlock = None
        extra = extra or {}
        for i, fn in enumerate(fns):
            acts = list(extra.get(i, ()))
            for (t, s, tgt) in plan:
                if t == i:
                    acts.append((s, self._switcher(tgt)))
            t = Task(self, i, fn, acts)
            if record:
                t.rec = []
            t.set_limit(limit)
            self.tasks.append(t)
        self.done = _thread.allocate_lock()
        self.done.acquire()

    def _switcher(self, target):
        def act(task, n, fn):
            tgt = self.tasks[target] if 0 <= target < len(self.tasks) else None
            if tgt is None or tgt is task or not self.runnable(tgt):
                return
            self.switches += 1
            self.interleaving.append((task.idx, where(), tgt.idx))
            self._switch(task, tgt)

        return act

    def runnable(self, t):
        if t.state in ("new", "ready"):
            return True
        if t.state == "blocked":
            return bool(t.wait())
        return False

    def _resume(self, t):
        global CUR
        CUR = t
        if t.state == "new":
            t.state = "ready"
            th = threading.Thread(target=self._main, args=(t,), daemon=True)
            th._s2sim = True
            t.thread = th
            th.start()
        else:
            t.state = "ready"
            t.sem.release()

    def _switch(self, me, to):
        self._resume(to)
        me.sem.acquire()
        if self.abort:
            raise SimAbort()

    def _main(self, t):
        t.ident = _ident()
        try:
            t.result = t.fn()
        except SimAbort:
            t.error = SimAbort()
        except BaseException as e:  # noqa: BLE001 recorded as the task's outcome
            t.error = e
        t.state = "done"
        self._next_after(t)

    def _next_after(self, t):
        global CUR
        if self.abort:
            self._abort_next()
            return
        for c in self.tasks:
            if c.state != "done" and self.runnable(c):
                self._resume(c)
                return
        for c in self.tasks:  # simulated timeouts expire when nothing else runs
            if c.state == "blocked" and c.timed:
                c.timed = False
                c.expired = True
                self._resume(c)
                return
        if any(c.state != "done" for c in self.tasks):
            self.deadlock = [(c.idx, c.wait_name) for c in self.tasks if c.state == "blocked"]
            self.abort = True
            self._abort_next()
            return
        CUR = None
        self.done.release()

    def _abort_next(self):
        global CUR
        for c in self.tasks:
            if c.state == "new":
                c.state = "done"
            if c.state != "done":
                c.state = "done?"
        for c in self.tasks:
            if c.state == "done?":
                CUR = c
                c.sem.release()
                return
        CUR = None
        self.done.release()

    def block(self, me, pred, name, timed=False):
        """Called in task `me`: park until pred() holds. False if timed out."""
        me.state, me.wait, me.wait_name, me.timed, me.expired = "blocked", pred, name, timed, False
        for c in self.tasks:
            if c is not me and c.state != "done" and self.runnable(c):
                self._switch(me, c)
                break
        else:
            if timed:
                me.state = "ready"
                return False
            # nobody else can run
            others = [c for c in self.tasks if c.state == "blocked" and c.timed]
            if others:
                others[0].timed = False
                others[0].expired = True
                self._switch(me, others[0])
            else:
                self.deadlock = [(c.idx, c.wait_name) for c in self.tasks if c.state == "blocked"]
                self.abort = True
                raise SimAbort()
        me.state = "ready"
        return not me.expired

    def run(self, first=0):
        global SIM
        prev = SIM
        SIM = self
        try:
            enable()
            self._resume(self.tasks[first])
            self.done.acquire()
            for t in self.tasks:
                if getattr(t, "thread", None) is not None:
                    t.thread.join(10)
        finally:
            SIM = prev
        return self


CALL_DEP = {}


def run_here(fn, actions=(), record=False, limit=3_000_000):
    """Run one task on the calling thread (single-caller simulations)."""
    global CUR, SIM
    enable()
    sim = Sim.__new__(Sim)
    sim.call_dep = CALL_DEP
    sim.tasks, sim.log, sim.switches, sim.interleaving = [], [], 0, []
    sim.abort, sim.deadlock = False, None
    t = Task(sim, 0, fn, actions)
    sim.tasks.append(t)
    if record:
        t.rec = []
    t.set_limit(limit)
    t.ident = _ident()
    t.state = "ready"
    old = CUR, SIM
    CUR, SIM = t, sim
    try:
        t.result = fn()
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, SimAbort) and sim.deadlock:
            e = Deadlock(str(sim.deadlock))
        t.error = e
    finally:
        CUR, SIM = old
    t.state = "done"
    return t


# ------------------------------------------------------------------ sim locks
class SimLock:
    """Replacement for threading.Lock created by s2wav code."""

    reentrant = False

    def __init__(self, name="lock"):
        self.name = name
        self.owner = None
        self.count = 0

    def _me(self):
        t = CUR
        if t is not None and t.ident == _ident():
            return t
        return None

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        who = me if me is not None else _ident()
        if self.owner is not None and not (self.reentrant and self.owner == who):
            if not blocking:
                return False
            if me is None:
                raise Deadlock(f"{self.name} is never released")
            while self.owner is not None:
                ok = SIM.block(me, lambda: self.owner is None, self.name, timeout is not None and timeout >= 0)
                if not ok:
                    return False
        self.owner = who
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count <= 0:
            self.count = 0
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    _at_fork_reinit = None


class SimRLock(SimLock):
    reentrant = True


class SimCondition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else SimRLock("condition")
        self.gen = 0
        self.pending = 0
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        me = self.lock._me()
        gen = self.gen
        cnt = self.lock.count
        self.lock.count, self.lock.owner = 0, None
        if me is None:
            raise Deadlock("condition wait with no other caller")
        ok = SIM.block(me, lambda: self.gen > gen, "condition", timeout is not None)
        self.lock.acquire()
        self.lock.count = cnt
        return ok

    def wait_for(self, pred, timeout=None):
        r = pred()
        while not r:
            if not self.wait(timeout):
                return pred()
            r = pred()
        return r

    def notify(self, n=1):
        self.gen += 1

    notify_all = notify


class SimEvent:
    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        if self.flag:
            return True
        t = CUR
        if t is None or t.ident != _ident():
            if timeout is not None:
                return False
            raise Deadlock("event never set")
        return SIM.block(t, lambda: self.flag, "event", timeout is not None)


class SimSemaphore:
    def __init__(self, value=1):
        self.v = value

    def acquire(self, blocking=True, timeout=None):
        while self.v <= 0:
            if not blocking:
                return False
            t = CUR
            if t is None or t.ident != _ident():
                raise Deadlock("semaphore never released")
            if not SIM.block(t, lambda: self.v > 0, "semaphore", timeout is not None):
                return False
        self.v -= 1
        return True

    def release(self, n=1):
        self.v += n

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _patch_threading():
    from .seams import from_s2wav

    def factory(real, sim):
        def make(*a, **k):
            if from_s2wav(2):
                return sim(*a, **k)
            return real(*a, **k)

        make.__name__ = getattr(real, "__name__", "make")
        return make

    threading.Lock = factory(threading.Lock, lambda: SimLock())
    threading.RLock = factory(threading.RLock, lambda: SimRLock())
    for name, sim in (
        ("Condition", SimCondition),
        ("Event", SimEvent),
        ("Semaphore", SimSemaphore),
        ("BoundedSemaphore", SimSemaphore),
    ):
        real = getattr(threading, name)

        class P(real):
            _sim = sim

            def __new__(cls, *a, **k):
                if from_s2wav(2):
                    return cls._sim(*a, **k)
                return object.__new__(cls)

        P.__name__ = P.__qualname__ = name
        setattr(threading, name, P)


_patch_threading()
