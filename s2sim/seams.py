"""Seams between s2wav and what it runs on.

* ``jax.jit``: calls made from s2wav frames return a SimJit, whose body runs
  under one of three modes: ``eager`` (body runs on every call, behind an
  emulated jit argument boundary), ``traced`` (jit semantics: body runs once
  per static-argument/shape key under tracers, then its jaxpr is evaluated) or
  ``real`` (the real ``jax.jit``).
* s2fft's recursive/precompute JAX transforms: in ``lite`` mode they are served
  by s2fft's own numpy implementations of the same functions (same arguments,
  same precomputed kernels), because compiling the JAX ones costs seconds per
  configuration. ``real`` mode uses them unchanged.
* ``threading`` locks created by s2wav frames become simulator locks.
* ``time``/``random`` sources read from s2wav frames: see ambient.py.
"""
import functools
import inspect
import sys
import threading

import jax
import jax.numpy as jnp
import numpy as np
import s2fft
from s2fft.precompute_transforms import construct as _kc
from s2fft.precompute_transforms import spherical as _psph
from s2fft.precompute_transforms import wigner as _pwig
from s2fft.recursions import price_mcewen as _pm
from s2fft.sampling import s2_samples as _s2s
from s2fft.sampling import so3_samples as _so3
from s2fft.transforms import spherical as _sph
from s2fft.transforms import wigner as _wig


class _State:
    jit = "eager"
    lite = True


STATE = _State()


class mode:
    """with mode(jit=..., lite=...): ..."""

    def __init__(self, jit=None, lite=None):
        self.new = (jit, lite)

    def __enter__(self):
        self.old = (STATE.jit, STATE.lite)
        if self.new[0] is not None:
            STATE.jit = self.new[0]
        if self.new[1] is not None:
            STATE.lite = self.new[1]

    def __exit__(self, *a):
        STATE.jit, STATE.lite = self.old


def from_s2wav(depth=2):
    try:
        f = sys._getframe(depth)
    except ValueError:
        return False
    name = f.f_globals.get("__name__", "")
    return isinstance(name, str) and (name == "s2wav" or name.startswith("s2wav."))


# ------------------------------------------------------------------ s2fft lite
def _is_tracer(x):
    return isinstance(x, jax.core.Tracer)


def _np(x):
    return np.asarray(x)


def _unstack(pre):
    """JAX-format Wigner precomputes -> list of per-n numpy precomputes."""
    if pre is None:
        return None
    p = [np.asarray(x) for x in pre]
    n = p[0].shape[0]
    return [[p[0][i], p[1][i], p[2][0], p[3][0], p[4][0]] for i in range(n)]


def _generate_precomputes_wigner(a):
    res = _pm.generate_precomputes_wigner(
        a["L"], a["N"], a["sampling"], a["nside"], a["forward"], a["reality"], a["L_lower"]
    )
    return [
        np.asarray([r[0] for r in res]),
        np.asarray([r[1] for r in res]),
        np.asarray([res[0][2]]),
        np.asarray([res[0][3]]),
        np.asarray([res[0][4]]),
    ]


def _f2(a):
    return _s2s.f_shape(a["L"], a["sampling"], a["nside"])


def _f3(a):
    return _so3.f_shape(a["L"], a["N"], a["sampling"], a["nside"])


def _flm2(a):
    return (a["L"], 2 * a["L"] - 1)


def _flm3(a):
    return (2 * a["N"] - 1, a["L"], 2 * a["L"] - 1)


def _sph_pre(a):
    p = a["precomps"]
    return None if p is None else [np.asarray(x) for x in p]


def _i_sph_inv(a):
    return s2fft.inverse_numpy(
        _np(a["flm"]), a["L"], a["spin"], a["nside"], a["sampling"], a["reality"], _sph_pre(a), a["L_lower"]
    )


def _i_sph_fwd(a):
    return s2fft.forward_numpy(
        _np(a["f"]), a["L"], a["spin"], a["nside"], a["sampling"], a["reality"], _sph_pre(a), a["L_lower"]
    )


def _i_wig_inv(a):
    return _wig.inverse_numpy(
        _np(a["flmn"]), a["L"], a["N"], a["nside"], a["sampling"], a["reality"], _unstack(a["precomps"]), a["L_lower"]
    )


def _i_wig_fwd(a):
    return _wig.forward_numpy(
        _np(a["f"]), a["L"], a["N"], a["nside"], a["sampling"], a["reality"], _unstack(a["precomps"]), a["L_lower"]
    )


def _i_psph_inv(a):
    return _psph.inverse_transform(
        _np(a["flm"]), _np(a["kernel"]), a["L"], a["sampling"], a["reality"], a["spin"], a["nside"]
    )


def _i_psph_fwd(a):
    return _psph.forward_transform(
        _np(a["f"]), _np(a["kernel"]), a["L"], a["sampling"], a["reality"], a["spin"], a["nside"]
    )


def _i_pwig_inv(a):
    return _pwig.inverse_transform(
        _np(a["flmn"]), _np(a["kernel"]), a["L"], a["N"], a["sampling"], a["reality"], a["nside"]
    )


def _i_pwig_fwd(a):
    return _pwig.forward_transform(
        _np(a["f"]), _np(a["kernel"]), a["L"], a["N"], a["sampling"], a["reality"], a["nside"]
    )


def _i_wk(a):
    return _kc.wigner_kernel(a["L"], a["N"], a["reality"], a["sampling"], a["nside"], a["forward"])


def _i_sk(a):
    return _kc.spin_spherical_kernel(
        a["L"], a["spin"], a["reality"], a["sampling"], a["nside"], a["forward"]
    )


def _odt_f(a):
    return np.dtype(np.float64 if a["reality"] else np.complex128)


def _odt_c(a):
    return np.dtype(np.complex128)


# name: (module, attr, impl, data argument, expected data shape, out shape, out dtype)
_LITE = {
    "sph.inv": (_sph, "inverse_jax", _i_sph_inv, "flm", _flm2, _f2, _odt_f),
    "sph.fwd": (_sph, "forward_jax", _i_sph_fwd, "f", _f2, _flm2, _odt_c),
    "wig.inv": (_wig, "inverse_jax", _i_wig_inv, "flmn", _flm3, _f3, _odt_f),
    "wig.fwd": (_wig, "forward_jax", _i_wig_fwd, "f", _f3, _flm3, _odt_c),
    "psph.inv": (_psph, "inverse_transform_jax", _i_psph_inv, "flm", _flm2, _f2, _odt_f),
    "psph.fwd": (_psph, "forward_transform_jax", _i_psph_fwd, "f", _f2, _flm2, _odt_c),
    "pwig.inv": (_pwig, "inverse_transform_jax", _i_pwig_inv, "flmn", _flm3, _f3, _odt_f),
    "pwig.fwd": (_pwig, "forward_transform_jax", _i_pwig_fwd, "f", _f3, _flm3, _odt_c),
    "gen.wig": (_pm, "generate_precomputes_wigner_jax", _generate_precomputes_wigner, None, None, None, None),
    "gen.wk": (_kc, "wigner_kernel_jax", _i_wk, None, None, None, None),
    "gen.sk": (_kc, "spin_spherical_kernel_jax", _i_sk, None, None, None, None),
}

REAL = {}
_DT = {}  # name -> observed real dtype rule overrides
SERVED = {"lite": 0, "real": 0, "callback": 0}


def _kernel_ok(name, a):
    if "kernel" not in a:
        return True
    exp = _expected_kernel_shape(name, a)
    return exp is None or tuple(np.shape(a["kernel"])) == exp


@functools.lru_cache(maxsize=4096)
def _kshape(which, L, N, reality, sampling, nside, forward, spin):
    try:
        if which == "w":
            return tuple(_kc.wigner_kernel(L, N, reality, sampling, nside, forward).shape)
        return tuple(_kc.spin_spherical_kernel(L, spin, reality, sampling, nside, forward).shape)
    except Exception:
        return None


def _expected_kernel_shape(name, a):
    fwd = name.endswith("fwd")
    if name.startswith("pwig"):
        return _kshape("w", a["L"], a["N"], bool(a["reality"]), a["sampling"], a["nside"], fwd, 0)
    return _kshape("s", a["L"], 0, bool(a["reality"]), a["sampling"], a["nside"], fwd, a["spin"])


def _make(name):
    mod, attr, impl, darg, in_shape, out_shape, out_dt = _LITE[name]
    orig = getattr(mod, attr)
    REAL[name] = orig
    sig = inspect.signature(orig)

    @functools.wraps(orig)
    def w(*args, **kw):
        if not STATE.lite:
            SERVED["real"] += 1
            return orig(*args, **kw)
        try:
            ba = sig.bind(*args, **kw)
            ba.apply_defaults()
            a = ba.arguments
            if darg is None:
                SERVED["lite"] += 1
                out = impl(a)
                return jax.tree_util.tree_map(jnp.asarray, out)
            usual = (
                tuple(np.shape(a[darg])) == tuple(in_shape(a))
                and a["L"] > 1
                and not a.get("spmd", False)
                and isinstance(a["sampling"], str)
                and _kernel_ok(name, a)
                and not _is_tracer(a.get("spin", 0))
                and not hasattr(a[darg], "detach")
            )
        except Exception:
            usual = False
        if not usual:
            # Anything unusual is the real function's business.
            SERVED["real"] += 1
            return orig(*args, **kw)
        leaves, tree = jax.tree_util.tree_flatten(
            {k: a[k] for k in (darg, "kernel", "precomps") if a.get(k) is not None}
        )
        if any(map(_is_tracer, leaves)):
            if STATE.jit != "traced" or not _plain_trace(leaves):
                SERVED["real"] += 1
                return orig(*args, **kw)
            SERVED["callback"] += 1
            rest = {k: v for k, v in a.items() if k not in (darg, "kernel", "precomps")}

            def host(*lv):
                b = {"kernel": None, "precomps": None}
                b.update(rest)
                b.update(jax.tree_util.tree_unflatten(tree, [np.asarray(x) for x in lv]))
                return np.asarray(impl(b)).astype(out_dt(b))

            return jax.pure_callback(
                host, jax.ShapeDtypeStruct(tuple(out_shape(a)), out_dt(a)), *leaves
            )
        SERVED["lite"] += 1
        out = np.asarray(impl(a))
        dt = out_dt(a)
        if dt.kind != "c" and out.dtype.kind == "c":
            out = out.real
        return jnp.asarray(out.astype(dt))

    return orig, w


def _plain_trace(leaves):
    """Only plain jaxpr tracing (no grad/vmap) can carry a host callback."""
    for x in leaves:
        if _is_tracer(x) and type(x).__name__ != "DynamicJaxprTracer":
            return False
    return True


def _install_lite():
    repl = {}
    for name in _LITE:
        orig, w = _make(name)
        repl[id(orig)] = (orig, w)
    for mname, mod in list(sys.modules.items()):
        if mname != "s2fft" and not mname.startswith("s2fft."):
            continue
        for k, v in list(vars(mod).items()):
            r = repl.get(id(v))
            if r is not None and r[0] is v:
                setattr(mod, k, r[1])


_install_lite()

# ------------------------------------------------------------------ jax.jit
_real_jit = jax.jit


class SimJit:
    def __init__(self, fn, **opts):
        functools.update_wrapper(self, fn)
        self._fn = fn
        self._opts = opts
        self._real = None
        self._cache = {}
        self._locks = {}
        self._sig = inspect.signature(fn)
        params = list(self._sig.parameters)
        nums = opts.get("static_argnums", ())
        if nums is None:
            nums = ()
        nums = (nums,) if isinstance(nums, int) else tuple(nums)
        names = opts.get("static_argnames", ())
        names = (names,) if isinstance(names, str) else tuple(names or ())
        don = opts.get("donate_argnums", ()) or ()
        don = (don,) if isinstance(don, int) else tuple(don)
        dnm = opts.get("donate_argnames", ()) or ()
        dnm = (dnm,) if isinstance(dnm, str) else tuple(dnm)
        self._donate = set(dnm) | {params[n] for n in don if -len(params) <= n < len(params)}
        self._static = set(names) | {params[n] for n in nums if -len(params) <= n < len(params)}

    def __get__(self, obj, typ=None):
        return self if obj is None else functools.partial(self, obj)

    @property
    def real(self):
        if self._real is None:
            self._real = _real_jit(self._fn, **self._opts)
        return self._real

    def lower(self, *a, **k):
        return self.real.lower(*a, **k)

    def eval_shape(self, *a, **k):
        return jax.eval_shape(self._fn, *a, **k)

    def clear_cache(self):
        self._cache.clear()
        if self._real is not None:
            self._real.clear_cache()

    def _split(self, args, kw):
        ba = self._sig.bind(*args, **kw)
        # like jit, defaults are left to the function itself
        stat, dyn = {}, {}
        for k, v in ba.arguments.items():
            p = self._sig.parameters[k]
            if p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
                dyn[k] = v
            elif k in self._static:
                try:
                    hash(v)
                except TypeError:
                    raise ValueError(f"Non-hashable static argument {k!r}")
                stat[k] = v
            else:
                dyn[k] = v
        leaves, tree = jax.tree_util.tree_flatten(dyn)
        for x in leaves:
            if not (
                isinstance(x, (jax.Array, np.ndarray, np.generic, bool, int, float, complex))
                or _is_tracer(x)
                or hasattr(x, "__jax_array__")
            ):
                raise TypeError(
                    f"Argument {x!r:.60} of type {type(x)} is not a valid JAX type"
                )
            if isinstance(x, np.ndarray) and x.dtype.kind not in "biufc":
                raise TypeError(f"dtype {x.dtype} is not a valid JAX array type")
        return ba, stat, leaves, tree

    def _rebuild(self, ba, stat, dyn):
        ka = {**stat, **dyn}
        nb = inspect.BoundArguments(self._sig, {k: ka[k] for k in ba.arguments})
        return nb.args, nb.kwargs

    def __call__(self, *args, **kw):
        m = STATE.jit
        if m == "real":
            return self._call_real(args, kw)
        ba, stat, leaves, tree = self._split(args, kw)
        if self._donate:
            out = self._call_sim(m, ba, stat, leaves, tree)
            self._donated(ba, out)
            return out
        return self._call_sim(m, ba, stat, leaves, tree)

    def _donated(self, ba, out):
        """Buffer donation: arguments whose memory an output can take are gone."""
        free = [(x.shape, x.dtype) for x in jax.tree_util.tree_leaves(out)]
        for k in self._donate:
            for x in jax.tree_util.tree_leaves(ba.arguments.get(k)):
                if isinstance(x, jax.Array) and not _is_tracer(x) and (x.shape, x.dtype) in free:
                    free.remove((x.shape, x.dtype))
                    x.delete()

    def _call_sim(self, m, ba, stat, leaves, tree):
        if m == "traced":
            return self._call_traced(ba, stat, leaves, tree)
        conv = [x if _is_tracer(x) else jnp.array(x) for x in leaves]
        a, k = self._rebuild(ba, stat, jax.tree_util.tree_unflatten(tree, conv))
        return self._outputs(self._fn(*a, **k))

    @staticmethod
    def _outputs(out):
        def c(x):
            if _is_tracer(x) or isinstance(x, jax.Array):
                return x
            if isinstance(x, (np.ndarray, np.generic, bool, int, float, complex)):
                return jnp.array(x)
            raise TypeError(f"Output {x!r:.60} of type {type(x)} is not a valid JAX type")

        return jax.tree_util.tree_map(c, out)

    def _lock(self, key):
        lk = self._locks.get(key)
        if lk is None:
            from . import sched

            lk = self._locks[key] = sched.SimRLock("jit:" + self._fn.__name__)
        return lk

    def _key(self, stat, leaves, tree):
        av = []
        for x in leaves:
            if isinstance(x, (bool, int, float, complex)):
                av.append(("w", type(x).__name__))
            else:
                av.append((tuple(np.shape(x)), str(getattr(x, "dtype", type(x)))))
        return (
            tuple((k, type(stat[k]).__name__, stat[k]) for k in sorted(stat)),
            tree,
            tuple(av),
        )

    def _call_traced(self, ba, stat, leaves, tree):
        leaves = [x if _is_tracer(x) else jnp.asarray(x) for x in leaves]
        key = self._key(stat, leaves, tree)
        hit = self._cache.get(key)
        if hit is None:
            # As in JAX, one thread traces a given signature, others wait.
            with self._lock(key):
                hit = self._cache.get(key)
                if hit is None:
                    out_tree = []

                    def flat(*lv):
                        a, k = self._rebuild(ba, stat, jax.tree_util.tree_unflatten(tree, lv))
                        out = self._fn(*a, **k)
                        ol, ot = jax.tree_util.tree_flatten(out)
                        out_tree.append(ot)
                        return ol

                    closed = jax.make_jaxpr(flat)(*leaves)
                    hit = self._cache[key] = (closed, out_tree[0])
        closed, ot = hit
        out = jax.core.eval_jaxpr(closed.jaxpr, closed.consts, *leaves)
        return jax.tree_util.tree_unflatten(ot, out)

    def _call_real(self, args, kw):
        try:
            ba, stat, leaves, tree = self._split(args, kw)
            key = self._key(stat, leaves, tree)
        except Exception:
            return self.real(*args, **kw)
        with self._lock(key):
            return self.real(*args, **kw)


def _jit(fun=None, **opts):
    if from_s2wav(2):
        if fun is None:
            return lambda f: SimJit(f, **opts)
        return SimJit(fun, **opts)
    if fun is None:
        return functools.partial(_real_jit, **opts)
    return _real_jit(fun, **opts)


functools.update_wrapper(_jit, _real_jit)
jax.jit = _jit
