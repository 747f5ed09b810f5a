"""Process-wide state: snapshot, comparison, restoration and perturbation.

The simulated process's clock, environment and random sources are seams here:
``Clock`` stands in for ``time.*`` when read from s2wav frames, environment
reads by s2wav are recorded, and every process-wide setting a numerical library
might touch can be read, compared and put back.
"""
import atexit
import contextlib
import contextvars
import datetime
import decimal
import faulthandler
import functools
import gc
import io
import itertools
import locale
import logging
import multiprocessing
import operator
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import tracemalloc
import threading
import time
import uuid
import warnings

import jax
import numpy as np
import scipy.fft
import scipy.special
import torch

from . import seams

_real_env_get = os.environ.__class__.__getitem__


# ---------------------------------------------------------------- clock
class Clock:
    """Simulated clock seen by s2wav code: starts anywhere, may jump."""

    def __init__(self):
        self.reset()

    def reset(self, base=1.7e9, step=1e-3, jumps=()):
        self.base, self.stepsize, self.jumps = base, step, list(jumps)
        self.t, self.reads, self.slept = 0.0, 0, 0.0

    def now(self):
        self.reads += 1
        self.t += self.stepsize
        if self.jumps and self.reads % 3 == 0:
            self.t += self.jumps[(self.reads // 3) % len(self.jumps)]
        return self.base + self.t

    def sleep(self, s):
        self.slept += s
        self.t += s


CLOCK = Clock()
ENV_READS = set()


def _patch_time():
    for name, conv in (
        ("time", lambda x: x),
        ("monotonic", lambda x: x - 1.6e9),
        ("perf_counter", lambda x: x - 1.6e9),
        ("process_time", lambda x: x - 1.6e9),
        ("thread_time", lambda x: x - 1.6e9),
        ("time_ns", lambda x: int(x * 1e9)),
        ("monotonic_ns", lambda x: int((x - 1.6e9) * 1e9)),
        ("perf_counter_ns", lambda x: int((x - 1.6e9) * 1e9)),
        ("process_time_ns", lambda x: int((x - 1.6e9) * 1e9)),
    ):
        real = getattr(time, name)

        def f(_real=real, _conv=conv):
            if seams.from_s2wav(2):
                return _conv(CLOCK.now())
            return _real()

        f.__name__ = name
        setattr(time, name, f)
    rs = time.sleep

    def sleep(s):
        if seams.from_s2wav(2):
            CLOCK.sleep(s)
            return None
        return rs(s)

    time.sleep = sleep
    rl, rg, rstr, rct = time.localtime, time.gmtime, time.strftime, time.ctime

    def localtime(*a):
        return rl(*(a or ((CLOCK.now(),) if seams.from_s2wav(2) else ())))

    def gmtime(*a):
        return rg(*(a or ((CLOCK.now(),) if seams.from_s2wav(2) else ())))

    def ctime(*a):
        return rct(*(a or ((CLOCK.now(),) if seams.from_s2wav(2) else ())))

    def strftime(fmt, *a):
        if not a and seams.from_s2wav(2):
            a = (rl(CLOCK.now()),)
        return rstr(fmt, *a)

    time.localtime, time.gmtime, time.ctime, time.strftime = localtime, gmtime, ctime, strftime


_patch_time()


class _DTMeta(type(datetime.datetime)):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_dt)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_dt)


_real_dt = datetime.datetime


class _DT(_real_dt, metaclass=_DTMeta):
    """datetime.datetime for s2wav frames: reads the simulated clock."""

    @classmethod
    def now(cls, tz=None):
        return _real_dt.fromtimestamp(CLOCK.now(), tz) if seams.from_s2wav(2) else _real_dt.now(tz)

    @classmethod
    def utcnow(cls):
        return _real_dt.fromtimestamp(CLOCK.now() if seams.from_s2wav(2) else time.time(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return _real_dt.fromtimestamp(CLOCK.now() if seams.from_s2wav(2) else time.time())


_DT.__name__ = _DT.__qualname__ = "datetime"
_DT.__module__ = "datetime"
datetime.datetime = _DT

# ---------------------------------------------------------------- the machine
OS_INFO = dict(on=False, k=0)


def _patch_os():
    """What the machine says about itself, as read from s2wav frames."""
    import platform
    import socket

    def wrap(mod, name, other):
        real = getattr(mod, name, None)
        if real is None:
            return

        def f(*a, **k):
            if OS_INFO["on"] and seams.from_s2wav(2):
                return other(OS_INFO["k"])
            return real(*a, **k)

        f.__name__ = name
        f.__module__ = mod.__name__
        setattr(mod, name, f)

    wrap(os, "getpid", lambda k: 2 + k)
    wrap(os, "getppid", lambda k: 1 + k)
    wrap(os, "cpu_count", lambda k: (1, 3, 64, None)[k % 4])
    wrap(os, "sched_getaffinity", lambda k: {k % 7})
    wrap(os, "getloadavg", lambda k: (k / 10.0, 90.0, 0.0))
    wrap(os, "getuid", lambda k: k)
    wrap(os, "getlogin", lambda k: f"user{k}")
    wrap(os, "urandom", lambda k: bytes([k % 256]) * 16)
    wrap(socket, "gethostname", lambda k: f"node{k}")
    for n, v in (("node", "node{}"), ("machine", "m{}"), ("processor", "p{}"), ("system", "Other{}"), ("platform", "Other-{}")):
        wrap(platform, n, lambda k, v=v: v.format(k))


_patch_os()


# ------------------------------------------------------ uninitialised memory
MEMORY = dict(fill=0)


@contextlib.contextmanager
def blank_memory(fill=0):
    old, MEMORY["fill"] = MEMORY["fill"], fill
    try:
        yield
    finally:
        MEMORY["fill"] = old


def _patch_memory():
    """Memory s2wav asks for uninitialised: all zero, or what others left there."""
    import functools

    def wrap(mod, name):
        real = getattr(mod, name)

        @functools.wraps(real)
        def f(*a, **k):
            x = real(*a, **k)
            if seams.from_s2wav(2):
                try:
                    x.fill(MEMORY["fill"]) if isinstance(x, np.ndarray) else x.detach().fill_(MEMORY["fill"])
                except (TypeError, ValueError, RuntimeError, AttributeError):
                    pass
            return x

        f.__module__ = "torch" if mod is torch or mod is torch.Tensor else "numpy"
        setattr(mod, name, f)

    for n in ("empty", "empty_like"):
        wrap(np, n)
        wrap(torch, n)
    wrap(torch.Tensor, "new_empty")


_patch_memory()


def _patch_env():
    cls = os.environ.__class__
    g, c = cls.__getitem__, cls.__contains__

    def note(k):
        f = sys._getframe(2)
        for _ in range(4):
            if f is None:
                return
            n = f.f_globals.get("__name__", "")
            if isinstance(n, str) and (n == "s2wav" or n.startswith("s2wav.")):
                ENV_READS.add(str(k))
                return
            f = f.f_back

    def getitem(self, k):
        note(k)
        return g(self, k)

    def contains(self, k):
        note(k)
        return c(self, k)

    cls.__getitem__, cls.__contains__ = getitem, contains


_patch_env()


# ---------------------------------------------------------------- snapshots
def _modnames():
    out = []
    for n in (
        "numpy", "numpy.linalg", "numpy.fft", "numpy.random", "jax", "jax.numpy", "jax.numpy.fft", "jax.lax",
        "jax.scipy", "jax.scipy.special", "torch", "torch.fft", "torch.linalg", "s2fft", "scipy.special", "pyssht",
        "builtins", "math", "time", "os", "warnings",
    ):
        if n in sys.modules:
            out.append(n)
    out += sorted(n for n in sys.modules if n.startswith("s2fft."))
    return out


_MODS = None


def _modules_state():
    global _MODS
    if _MODS is None:
        _MODS = _modnames()
    out = {}
    for n in _MODS:
        m = sys.modules.get(n)
        if m is not None:
            for k, v in vars(m).items():
                if not k.startswith("__"):
                    out[f"{n}.{k}"] = v
    return out


_OWN_VARS = ("decimal_context", "numpy.ufunc.extobj")  # compared as what they stand for


class Ident:
    """Compare by identity."""

    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __eq__(self, b):
        return isinstance(b, Ident) and self.o is b.o

    def __repr__(self):
        return repr(self.o)[:60]


def _ls(d, depth=3):
    out = {}
    for dp, ds, fs in os.walk(d):
        rel = os.path.relpath(dp, d)
        if rel.count(os.sep) >= depth:
            ds[:] = []
        for f in fs + ds:
            p = os.path.join(dp, f)
            try:
                st = os.lstat(p)
                out[os.path.relpath(p, d)] = (st.st_size if f in fs else -1, st.st_mtime_ns if f in fs else 0)
            except OSError:
                pass
    return out


def _fds():
    try:
        return sorted(os.listdir("/proc/self/fd"))
    except OSError:
        return []


def _jaxcfg():
    out = {}
    for k, v in jax.config.values.items():
        try:
            out[k] = repr(getattr(jax.config, k)) if hasattr(jax.config, k) else repr(v)
        except Exception:
            out[k] = "?"
    return out


_SIGS = [
    s for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2, signal.SIGCHLD, signal.SIGFPE, signal.SIGSEGV, signal.SIGPIPE)
]


def snapshot(scratch=None, mods=True):
    """Everything process-wide a call could leave changed, as a dict."""
    s = {}
    s["numpy error handling"] = np.geterr()
    s["numpy error callback"] = Ident(np.geterrcall())
    s["numpy print options"] = {k: v for k, v in np.get_printoptions().items()}
    st = np.random.get_state()
    s["numpy random state"] = (st[0], st[1].tobytes(), st[2], st[3], st[4])
    s["python random state"] = random.getstate()
    s["torch random state"] = torch.get_rng_state().numpy().tobytes()
    s["torch default dtype"] = str(torch.get_default_dtype())
    s["torch default device"] = str(torch.get_default_device())
    s["torch grad mode"] = torch.is_grad_enabled()
    s["torch inference mode"] = torch.is_inference_mode_enabled()
    s["torch deterministic mode"] = (torch.are_deterministic_algorithms_enabled(), torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic)
    s["torch threads"] = (torch.get_num_threads(), torch.get_num_interop_threads())
    s["torch anomaly mode"] = torch.is_anomaly_enabled()
    s["torch matmul precision"] = torch.get_float32_matmul_precision()
    s["torch print options"] = str(vars(torch._tensor_str.PRINT_OPTS))
    s["jax configuration"] = _jaxcfg()
    s["warning filters"] = [repr(f) for f in warnings.filters]
    s["warnings.showwarning"] = (Ident(warnings.showwarning), Ident(warnings.formatwarning))
    s["environment variables"] = {k: v for k, v in os.environ._data.items()}
    s["working directory"] = os.getcwd()
    u = os.umask(0o022)
    os.umask(u)
    s["umask"] = u
    if threading.current_thread() is threading.main_thread():
        s["signal handlers"] = [Ident(signal.getsignal(x)) for x in _SIGS]
    s["pending timer"] = signal.getitimer(signal.ITIMER_REAL)[1]
    s["sys.path"] = list(sys.path)
    s["sys.argv"] = list(sys.argv)
    s["sys.meta_path"] = [Ident(x) for x in sys.meta_path]
    s["sys hooks"] = tuple(Ident(getattr(sys, k)) for k in ("excepthook", "displayhook", "unraisablehook", "breakpointhook"))
    s["sys streams"] = tuple(Ident(getattr(sys, k)) for k in ("stdin", "stdout", "stderr"))
    s["recursion limit"] = sys.getrecursionlimit()
    s["thread switch interval"] = sys.getswitchinterval()
    s["trace/profile hooks"] = (Ident(sys.gettrace()), Ident(sys.getprofile()))
    s["threading.excepthook"] = Ident(threading.excepthook)
    s["live threads"] = sorted(t.name for t in threading.enumerate() if t.is_alive() and not getattr(t, "_s2sim", False))
    s["garbage collector"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug())
    s["numpy buffer size"] = np.getbufsize()
    s["scipy.special error handling"] = scipy.special.geterr()
    s["scipy.fft workers"] = scipy.fft.get_workers()
    s["torch back ends"] = (torch.backends.mkldnn.enabled, torch.backends.cuda.matmul.allow_tf32, torch.backends.cudnn.enabled, torch.backends.cudnn.allow_tf32, torch.get_deterministic_debug_mode(), torch.is_warn_always_enabled())
    s["torch.Tensor attributes"] = {k: Ident(v) for k, v in vars(torch.Tensor).items() if callable(v)}
    s["denormal handling"] = bool(torch.full((2,), 1e-310, dtype=torch.float64).mul(1.0)[0] != 0)
    s["exit handlers"] = atexit._ncallbacks()
    s["resource limits"] = [resource.getrlimit(x) for x in (resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_CPU, resource.RLIMIT_DATA)]
    s["priority and affinity"] = (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0)))
    s["thread stack size"] = threading.stack_size()
    s["socket timeout"] = socket.getdefaulttimeout()
    s["fault handler"] = faulthandler.is_enabled()
    s["bytecode writing"] = sys.dont_write_bytecode
    s["temporary directory"] = tempfile.tempdir
    s["multiprocessing start method"] = multiprocessing.get_start_method(allow_none=True)
    s["sys.path_hooks"] = [Ident(x) for x in sys.path_hooks]
    s["context variables"] = {v.name: Ident(x) for v, x in contextvars.copy_context().items() if v.name not in _OWN_VARS}
    s["time zone"] = time.tzname, time.timezone
    s["level names"] = dict(logging._nameToLevel)
    s["warnings captured by logging"] = logging._warnings_showwarning is not None
    s["tracemalloc"] = tracemalloc.is_tracing()
    s["torch inter-op threads"] = torch.get_num_interop_threads()
    s["int string limit"] = sys.get_int_max_str_digits()
    s["functions of the standard library"] = {
        f"{m.__name__}.{k}": Ident(v)
        for m in (logging, random, gc, signal, threading, functools, contextlib, itertools, operator)
        for k, v in vars(m).items()
        if not k.startswith("_") and callable(v)
    }
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["decimal context"] = repr(decimal.getcontext())
    lg = logging.getLogger()
    s["root logger"] = (lg.level, [Ident(h) for h in lg.handlers], lg.disabled, logging.root.manager.disable)
    s["other loggers"] = {
        n: (l.level, l.disabled, l.propagate, len(l.handlers))
        for n, l in list(logging.root.manager.loggerDict.items())
        if isinstance(l, logging.Logger) and not n.startswith("s2wav")
    }
    s["open files"] = _fds()
    if scratch:
        s["files"] = _ls(scratch)
    if mods:
        s["attributes of other modules"] = _modules_state()
    return s


def compare(a, b):
    """First difference between two snapshots, or None."""
    for k in a:
        if k not in b:
            continue
        x, y = a[k], b[k]
        if k == "attributes of other modules":
            for n, v in x.items():
                if n not in y:
                    return f"{k}: {n} removed"
                if y[n] is not v:
                    w = y[n]
                    if isinstance(v, (int, float, str, tuple, bool, type(None))) and type(v) is type(w) and v == w:
                        continue
                    return f"{k}: {n} replaced"
            for n in y:
                if n not in x and not isinstance(y[n], type(sys)):
                    return f"{k}: {n} added"
            continue
        if k == "other loggers":
            for n, v in x.items():
                if n in y and y[n] != v:
                    return f"logger {n}: {v} became {y[n]}"
            continue
        if k == "attributes":
            continue
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                for n in set(x) | set(y):
                    if x.get(n, "<absent>") != y.get(n, "<absent>"):
                        return f"{k}: {n}: {str(x.get(n, '<absent>'))[:60]} became {str(y.get(n, '<absent>'))[:60]}"
            if isinstance(x, bytes) or "state" in k:
                return f"{k} changed"
            return f"{k}: {str(x)[:80]} became {str(y)[:80]}"
    return None


class Keep:
    """Save the restorable state and put it back (used around every scenario,
    so that one misbehaving run cannot leak into the next)."""

    def __init__(self):
        self.err = np.geterr()
        self.call = np.geterrcall()
        self.po = np.get_printoptions()
        self.nr = np.random.get_state()
        self.pr = random.getstate()
        self.tr = torch.get_rng_state()
        self.td = torch.get_default_dtype()
        self.tg = torch.is_grad_enabled()
        self.tn = torch.get_num_threads()
        self.tda = torch.are_deterministic_algorithms_enabled()
        self.jx = {}
        for k in jax.config.values:
            try:
                self.jx[k] = getattr(jax.config, k)
            except Exception:
                pass
        self.wf = list(warnings.filters)
        self.ws, self.wfm = warnings.showwarning, warnings.formatwarning
        self.env = dict(os.environ._data)
        self.cwd = os.getcwd()
        u = os.umask(0o022)
        os.umask(u)
        self.um = u
        self.sig = [signal.getsignal(x) for x in _SIGS] if threading.current_thread() is threading.main_thread() else None
        self.path, self.argv = list(sys.path), list(sys.argv)
        self.meta = list(sys.meta_path)
        self.hooks = [(k, getattr(sys, k)) for k in ("excepthook", "displayhook", "unraisablehook", "breakpointhook", "stdin", "stdout", "stderr")]
        self.rl, self.si = sys.getrecursionlimit(), sys.getswitchinterval()
        self.gc = gc.isenabled(), gc.get_threshold(), gc.get_debug()
        self.lc = locale.setlocale(locale.LC_ALL)
        self.dc = decimal.getcontext().copy()
        lg = logging.getLogger()
        self.lg = lg.level, list(lg.handlers), lg.disabled, logging.root.manager.disable
        self.buf, self.se, self.nice = np.getbufsize(), scipy.special.geterr(), os.sched_getaffinity(0)
        self.mk, self.ddm = torch.backends.mkldnn.enabled, torch.get_deterministic_debug_mode()
        self.ss, self.so, self.td_ = threading.stack_size(), socket.getdefaulttimeout(), tempfile.tempdir
        self.dwb, self.ims = sys.dont_write_bytecode, sys.get_int_max_str_digits()
        self.rlim = [(x, resource.getrlimit(x)) for x in (resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_CPU, resource.RLIMIT_DATA)]
        self.tm, self.mp, self.ph = tracemalloc.is_tracing(), multiprocessing.get_start_method(allow_none=True), list(sys.path_hooks)
        self.ln = dict(logging._nameToLevel), dict(logging._levelToName)
        self.cv = dict(contextvars.copy_context().items())
        self.mods = _modules_state()

    def restore(self):
        if not self.tm and tracemalloc.is_tracing():
            tracemalloc.stop()
        if multiprocessing.get_start_method(allow_none=True) != self.mp:
            multiprocessing.set_start_method(self.mp, force=True)
        sys.path_hooks[:] = self.ph
        logging.captureWarnings(False)
        logging._nameToLevel.clear()
        logging._nameToLevel.update(self.ln[0])
        logging._levelToName.clear()
        logging._levelToName.update(self.ln[1])
        for v, x in contextvars.copy_context().items():
            if v.name not in _OWN_VARS and self.cv.get(v, v) is not x:
                v.set(self.cv[v]) if v in self.cv else v.set(None)
        np.setbufsize(self.buf)
        scipy.special.seterr(**self.se)
        if os.sched_getaffinity(0) != self.nice:
            os.sched_setaffinity(0, self.nice)
        torch.backends.mkldnn.enabled = self.mk
        torch.set_deterministic_debug_mode(self.ddm)
        torch.set_flush_denormal(False)
        threading.stack_size(self.ss)
        socket.setdefaulttimeout(self.so)
        tempfile.tempdir = self.td_
        sys.dont_write_bytecode = self.dwb
        sys.set_int_max_str_digits(self.ims)
        for x, v in self.rlim:
            if resource.getrlimit(x) != v:
                with contextlib.suppress(ValueError, OSError):
                    resource.setrlimit(x, v)
        OS_INFO["on"] = False
        MEMORY["fill"] = 0
        for n in FAKE_MODULES:
            if getattr(sys.modules.get(n), "__s2sim__", False):
                del sys.modules[n]
        np.seterr(**self.err)
        np.seterrcall(self.call)
        np.set_printoptions(**self.po)
        np.random.set_state(self.nr)
        random.setstate(self.pr)
        torch.set_rng_state(self.tr)
        torch.set_default_dtype(self.td)
        torch.set_grad_enabled(self.tg)
        torch.set_num_threads(self.tn)
        torch.use_deterministic_algorithms(self.tda)
        for k, v in self.jx.items():
            try:
                if getattr(jax.config, k) != v:
                    jax.config.update(k, v)
            except Exception:
                pass
        if warnings.filters != self.wf:
            warnings.filters[:] = self.wf
            getattr(warnings, "_filters_mutated", lambda: None)()
        warnings.showwarning, warnings.formatwarning = self.ws, self.wfm
        d = os.environ._data
        if dict(d) != self.env:
            for k in [k for k in d if k not in self.env]:
                del os.environ[os.fsdecode(k)]
            for k, v in self.env.items():
                if d.get(k) != v:
                    os.environ[os.fsdecode(k)] = os.fsdecode(v)
        os.chdir(self.cwd)
        os.umask(self.um)
        if self.sig is not None:
            for s, h in zip(_SIGS, self.sig):
                if signal.getsignal(s) is not h and h is not None:
                    signal.signal(s, h)
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.path[:], sys.argv[:], sys.meta_path[:] = self.path, self.argv, self.meta
        for k, v in self.hooks:
            setattr(sys, k, v)
        sys.setrecursionlimit(self.rl)
        sys.setswitchinterval(self.si)
        (gc.enable if self.gc[0] else gc.disable)()
        gc.set_threshold(*self.gc[1])
        gc.set_debug(self.gc[2])
        locale.setlocale(locale.LC_ALL, self.lc)
        decimal.setcontext(self.dc.copy())
        lg = logging.getLogger()
        lg.setLevel(self.lg[0])
        lg.handlers[:] = self.lg[1]
        lg.disabled = self.lg[2]
        logging.disable(self.lg[3])
        cur = _modules_state()
        if cur.keys() != self.mods.keys() or any(cur[k] is not v for k, v in self.mods.items()):
            for k, v in self.mods.items():
                if cur.get(k, cur) is not v:
                    m, a = k.rsplit(".", 1)
                    try:
                        setattr(sys.modules[m], a, v)
                    except Exception:
                        pass
            for k in cur:
                if k not in self.mods and not isinstance(cur[k], type(sys)):
                    m, a = k.rsplit(".", 1)
                    try:
                        delattr(sys.modules[m], a)
                    except Exception:
                        pass


FAKE_MODULES = ("pytest", "ipykernel", "matplotlib", "mpi4py", "numba", "cupy", "pydevd")


def _fake(n):
    """Another package of the host application, as far as sys.modules tells."""
    if n not in sys.modules:
        m = sys.modules[n] = type(sys)(n)
        m.__s2sim__ = True


class _Tty(io.StringIO):
    def isatty(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation


# ---------------------------------------------------------------- baselines
BASELINES = {
    # harmless process-wide settings a host program may have made
    "np_ignore": lambda r: np.seterr(divide="ignore", invalid="ignore", over="ignore", under="ignore"),
    "np_warn": lambda r: np.seterr(divide="warn", invalid="warn", over="warn", under="warn"),
    "memory": lambda r: MEMORY.update(fill=r.choice((1, 7, 3e5))),
    "modules": lambda r: [_fake(n) for n in FAKE_MODULES],
    "np_buf": lambda r: np.setbufsize(16384),
    "int_str": lambda r: sys.set_int_max_str_digits(700),
    "stdout_tty": lambda r: setattr(sys, "stdout", _Tty()),
    "os_info": lambda r: OS_INFO.update(on=True, k=r.randrange(1000)),
    "jax_matmul": lambda r: jax.config.update("jax_default_matmul_precision", "highest"),
    "jax_rank": lambda r: jax.config.update("jax_numpy_rank_promotion", "warn"),
    "np_print": lambda r: np.set_printoptions(precision=3, suppress=True),
    "np_seed": lambda r: np.random.seed(r.randrange(2**31)),
    "py_seed": lambda r: random.seed(r.randrange(2**31)),
    "torch_seed": lambda r: torch.manual_seed(r.randrange(2**31)),
    "torch_f64": lambda r: torch.set_default_dtype(torch.float64),
    "torch_nograd": lambda r: torch.set_grad_enabled(False),
    "torch_threads": lambda r: torch.set_num_threads(2),
    "torch_det": lambda r: torch.use_deterministic_algorithms(True),
    "gc_off": lambda r: gc.disable(),
    "gc_thr": lambda r: gc.set_threshold(50, 5, 5),
    "recursion": lambda r: sys.setrecursionlimit(3000),
    "switch": lambda r: sys.setswitchinterval(0.001),
    "decimal": lambda r: decimal.getcontext().__setattr__("prec", 7),
    "locale": lambda r: locale.setlocale(locale.LC_ALL, "C.UTF-8"),
    "log": lambda r: logging.getLogger().setLevel(logging.DEBUG),
    "log_off": lambda r: logging.disable(logging.CRITICAL),
    "warn_filter": lambda r: warnings.filterwarnings("ignore", message="s2sim baseline"),
    "env_tz": lambda r: os.environ.__setitem__("TZ", r.choice(("UTC", "Asia/Tokyo", "America/New_York"))),
    "env_lang": lambda r: os.environ.__setitem__("LANG", r.choice(("de_DE.UTF-8", "C", "tr_TR.UTF-8"))),
    "env_home": lambda r: os.environ.__setitem__("HOME", "/nonexistent"),
    "env_debug": lambda r: [os.environ.__setitem__(k, "1") for k in ("DEBUG", "VERBOSE", "CI", "S2WAV_DEBUG")],
    "umask": lambda r: os.umask(0o077),
    "argv": lambda r: sys.argv.append("--fast"),
    "sigint": lambda r: signal.signal(signal.SIGUSR1, signal.SIG_IGN),
    "jax_debug_nans_off": lambda r: jax.config.update("jax_debug_nans", False),
    "jax_no_prealloc": lambda r: os.environ.__setitem__("XLA_PYTHON_CLIENT_PREALLOCATE", "false"),
    "clock_back": lambda r: CLOCK.reset(base=r.choice((0.0, 1.0, 4.1e9)), step=r.choice((1e-9, 1.0, 3600.0)), jumps=(-5.0, 86400.0, -1e6)),
    "clock_frozen": lambda r: CLOCK.reset(base=1.7e9, step=0.0),
    "clock_fast": lambda r: CLOCK.reset(base=1.7e9, step=37.0),
}


def apply(names, rng):
    for n in names:
        if n == "cwd":
            d = os.path.join(os.getcwd(), "elsewhere")
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
        else:
            BASELINES[n](rng)


def rand_baseline(rng, k=None, exclude=()):
    names = [n for n in sorted(BASELINES) + ["cwd"] if n not in exclude]
    return rng.sample(names, k or rng.choice((1, 1, 2, 3, 4, 6)))


@contextlib.contextmanager
def capture():
    """Collect what is written to standard output meanwhile."""
    buf = io.StringIO()
    old = sys.stdout
    sys.stdout = buf
    try:
        yield buf
    finally:
        if sys.stdout is buf:
            sys.stdout = old
