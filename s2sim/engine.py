"""Shared scenario machinery: oracle, profiles, fault points, histories."""
import array
import collections
import ctypes
import gc
import hashlib
import json
import random

import jax
import jax.numpy as jnp
import numpy as np
import torch

from . import ambient, disk, focus, loader, model, ops, sched, seams

try:
    from jaxlib.xla_extension import XlaRuntimeError
except Exception:  # pragma: no cover
    XlaRuntimeError = RuntimeError

EXC = {
    "MemoryError": MemoryError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "RuntimeError": RuntimeError,
    "OSError": OSError,
    "ValueError": ValueError,
    "FloatingPointError": FloatingPointError,
    "TypeError": TypeError,
    "IndexError": IndexError,
    "ZeroDivisionError": ZeroDivisionError,
    "AssertionError": AssertionError,
    "LinAlgError": np.linalg.LinAlgError,
    "XlaRuntimeError": XlaRuntimeError,
    "SystemExit": SystemExit,
    "TimeoutError": TimeoutError,
}
DEP_EXC = (
    "MemoryError", "MemoryError", "MemoryError", "RuntimeError", "XlaRuntimeError", "OSError",
    "ValueError", "FloatingPointError", "TypeError", "IndexError", "LinAlgError", "KeyboardInterrupt",
    "ZeroDivisionError", "AssertionError",
)
LINE_EXC = ("KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "MemoryError", "SystemExit", "RuntimeError")


class Violation(Exception):
    def __init__(self, kind, text):
        super().__init__(text)
        self.kind, self.text = kind, text


def key(spec):
    return json.dumps(spec, sort_keys=True)


class Ctx:
    """Per-worker context: caches and counters."""

    def __init__(self, slot=0, tier="quick", seed=1, prop=""):
        self.slot, self.tier, self.seed, self.prop = slot, tier, seed, prop
        self.keep = ambient.Keep()
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.sites = set()
        self.inter = set()
        self._oracle = collections.OrderedDict()
        self.pool = None
        self.steps = 0
        self.i = self.k = 0  # scenario number, and its ordinal in this slot
        self.lengths = {}
        self.distinct = set()
        self._neigh = {}
        self.writes = False  # has the code been seen to write files?

    def turn(self, first, every):
        """Is it this scenario's turn for one of the rare, expensive kinds?"""
        return self.k == first or (self.tier != "quick" and self.k > first and (self.k - first) % every == 0)

    def nontrivial(self, k):
        """Count an execution that exercised the property, by its content."""
        h = hashlib.blake2b(json.dumps(k, sort_keys=True, default=str).encode(), digest_size=8).digest()
        self.distinct.add(h)

    # ------------------------------------------------------------ oracle
    def solo(self, spec, jit):
        """(outcome, profile) of the call alone in a pristine process."""
        k = (jit, key(spec))
        hit = self._oracle.get(k)
        if hit is not None:
            self._oracle.move_to_end(k)
            return hit
        with disk.empty(), ambient.blank_memory():
            inst = loader.Instance()
            with seams.mode(jit=jit, lite=jit != "real"), inst.active():
                kw = ops.build(spec)
                t = sched.run_here(lambda: ops.invoke(inst, spec, kw), record=True)
                out = ops.outcome(t, kw)
            if disk.extra():
                self.writes = True
        if t.error is not None and isinstance(t.error, sched.StepLimit):
            raise Violation("no-progress", f"{ops.show(spec)} alone exceeds the step budget")
        if out[0] == "bad":
            raise Violation("bad-result", f"{ops.show(spec)} alone: {out[1]}")
        prof = Profile(t)
        self.sites.update(prof.distinct)
        hit = (out, prof)
        self._oracle[k] = hit
        while len(self._oracle) > 400:
            self._oracle.popitem(last=False)
        return hit

    def check(self, spec, out, jit, what):
        exp = self.solo(spec, jit)[0]
        r = ops.differ(out, exp)
        self.stats["calls_checked"] += 1
        if r:
            raise Violation("wrong-result", f"{what}: {ops.show(spec)}: {r}")

    def fault(self, name):
        def act(task, n, fn):
            if sched.sheltered(fn):
                task.actions.insert(task.ai, (n + 1, act))
                task._setnext()
                return
            self.faults[name] += 1
            raise EXC[name]("s2sim: injected")

        return act

    # ------------------------------------------------------------ op choice
    def op(self, rng, names=None, **k):
        """A random op whose configuration often comes from this worker's pool."""
        s = ops.rand_op(rng, names, **k)
        if focus.get().ops and rng.random() < 0.5:
            hot = focus.get().names(names or ops.NAMES)
            if hot:
                s = ops.rand_op(rng, hot, **k)
        if self.pool is None:
            r = random.Random(f"pool|{self.seed}|{self.prop}|{self.slot}")
            self.pool = {}
            for b in (None, "base", "wavelet", "wavelet_c", "wavelet_precompute", "wavelet_precompute_torch"):
                n = 7 if self.tier == "quick" else 40
                self.pool[b] = [ops.rand_cfg(r, b, ops.TL) for _ in range(n)]
                if b not in (None, "base"):
                    self.pool[b].append(ops.rand_cfg(r, b, ops.BIG))
        o = ops.OPS[s["fn"]]
        if rng.random() < (0.97 if ops.heavy(s["fn"]) else 0.4):
            b = o.backend or ("wavelet_precompute" if o.cls == "construct" else None)
            s["c"] = dict(rng.choice(self.pool[b]))
            ops._refit(rng, s)
        return s


    def vary(self, rng, spec):
        if ops.heavy(spec["fn"]):
            return self.op(rng, [spec["fn"]]) if rng.random() < 0.1 else ops.vary(rng, spec, self.neigh)
        return ops.vary(rng, spec)

    def neigh(self, rng, c, backend):
        """A neighbouring configuration, from a few fixed ones per slot."""
        k = (backend, ops.ckey(c))
        l = self._neigh.get(k)
        if l is None:
            r = random.Random(f"neigh|{self.seed}|{self.prop}|{self.slot}|{k}")
            l = self._neigh[k] = [ops.neighbour(r, c, backend) for _ in range(3 if self.tier == "quick" else 10)]
        return dict(rng.choice(l))


class Profile:
    def __init__(self, task):
        self.n = task.step
        self.rec = array.array("I", task.rec or [])
        occ = {}
        for i, s in enumerate(self.rec):
            e = occ.get(s)
            if e is None:
                occ[s] = [i + 1, i + 1]
            else:
                e[1] = i + 1
        self.occ = occ
        self.distinct = list(occ)
        dep = {}
        for n, d in task.depsteps:
            s = self.rec[n - 1]
            dep.setdefault(s, []).append(n)
        self.dep = dep
        fo = focus.get()
        self.hot, self.hotdep = [], []
        if fo.funcs:
            lv = {s: fo.site(sched.SITE_NAMES[s], sched.SITE_LINES[s]) for s in occ}
            new = {s for s in occ if lv[s] == 2}
            rec = self.rec
            new.update(rec[i + 1] for i in range(len(rec) - 1) if lv[rec[i]] == 2)
            guard = {s for s in occ if task.seen.get(s)}
            any1 = [s for s in occ if lv[s]]
            self.hot = [x for x in (sorted(new | guard), any1) if x]
            self.hotdep = [x for x in (sorted(s for s in dep if s in guard), sorted(s for s in dep if s in new), sorted(s for s in dep if lv[s])) if x]

    def pick_step(self, rng):
        """A step, uniform over distinct code sites, then over occurrences."""
        if not self.n:
            return 1
        r = rng.random()
        if r < 0.15:
            return rng.randrange(1, self.n + 1)
        s = rng.choice(self.distinct)
        if self.hot and rng.random() < 0.5:
            s = rng.choice(self.hot[0] if rng.random() < 0.75 else self.hot[-1])
            r = rng.uniform(0.15, 1)
        a, b = self.occ[s]
        if r < 0.55 or a == b:
            return a
        if r < 0.75:
            return b
        i = rng.randrange(a, b + 1)
        while i <= b and self.rec[i - 1] != s:
            i += 1
        return min(i, b)

    def pick_dep(self, rng):
        if not self.dep:
            return None
        s = rng.choice(sorted(self.dep))
        if self.hotdep and rng.random() < 0.6:
            s = rng.choice(rng.choice(self.hotdep))
        l = self.dep[s]
        r = rng.random()
        return l[0] if r < 0.4 else l[-1] if r < 0.6 else rng.choice(l)


# ---------------------------------------------------------------- snapshots
def leaves(x, path=""):
    """(path, leaf array) of an argument or result tree."""
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from leaves(y, f"{path}[{i}]")
    elif isinstance(x, (np.ndarray, torch.Tensor, jax.Array)):
        yield path, x


def _bytes(st):
    return ctypes.string_at(st.data_ptr(), st.nbytes()) if st.nbytes() else b""


class Snap:
    """Deep byte-level snapshot of argument objects."""

    def __init__(self, kw):
        self.items = []
        for k in sorted(kw):
            self._add(k, kw[k])

    def _add(self, path, x):
        if isinstance(x, list):
            self.items.append((path, "list", x, [id(y) for y in x], list(x)))
        if isinstance(x, (list, tuple)):
            for i, y in enumerate(x):
                self._add(f"{path}[{i}]", y)
        elif isinstance(x, np.ndarray):
            base = x if x.base is None or not isinstance(x.base, np.ndarray) else x.base
            self.items.append((path, "np", x, (x.shape, x.dtype, x.strides, x.flags.writeable), base, base.tobytes()))
        elif isinstance(x, torch.Tensor):
            st = x.untyped_storage()
            self.items.append(
                (path, "torch", x, (tuple(x.shape), x.dtype, tuple(x.stride()), x.requires_grad), st.data_ptr(), _bytes(st))
            )

        elif isinstance(x, jax.Array):
            self.items.append((path, "jax", x))

    def diff(self):
        for it in self.items:
            path, kind, x = it[:3]
            if kind == "jax":
                if x.is_deleted():
                    return f"{path}: JAX array deleted (buffer donated)"
                continue
            if kind == "list":
                if [id(y) for y in x] != it[3]:
                    return f"{path}: list contents replaced"
            elif kind == "np":
                if (x.shape, x.dtype, x.strides, x.flags.writeable) != it[3]:
                    return f"{path}: array attributes changed"
                if it[4].tobytes() != it[5]:
                    return f"{path}: array contents changed"
            else:
                if (tuple(x.shape), x.dtype, tuple(x.stride()), x.requires_grad) != it[3]:
                    return f"{path}: tensor attributes changed"
                st = x.untyped_storage()
                if st.data_ptr() != it[4] or _bytes(st) != it[5]:
                    return f"{path}: tensor contents changed"
                if x.grad is not None:
                    return f"{path}: tensor grad set"
        return None


def scribble(x, val=7.25e3):
    """The caller overwrites arrays and lists it owns."""
    n = 0
    if isinstance(x, list):
        for y in x:
            n += scribble(y, val)
        if len(x):
            x.reverse()
            x.append("scribbled")
            n += 1
    elif isinstance(x, tuple):
        for y in x:
            n += scribble(y, val)
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.dtype.kind in "fciu":
            x[...] = np.array(val).astype(x.dtype) + 1
            n += 1
    elif isinstance(x, torch.Tensor):
        if x.numel():
            with torch.no_grad():
                try:
                    x.detach().fill_(val)
                    n += 1
                except RuntimeError:
                    pass
    return n


def block(x):
    try:
        jax.block_until_ready(x)
    except Exception:
        pass
