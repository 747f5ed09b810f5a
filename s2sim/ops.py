"""Registry of simulated calls: every public function of s2wav.

An op is a JSON spec {fn, c, d, form, x}: function, configuration, data seed,
form of the array arguments, extras. ``build`` makes its arguments (from the
reference model only), ``invoke`` calls it on a package instance, ``freeze``
turns an outcome into a comparable value.
"""
import functools
import inspect
import random
import zlib

import jax
import jax.numpy as jnp
import numpy as np
import torch

from . import model

# ---------------------------------------------------------------- configs
KEYS = ("L", "N", "J_min", "lam", "spin", "sampling", "nside", "reality", "multires")


def J(c):
    return model.j_max(c["L"], c["lam"])


def hp_ok(c):
    ns = c["nside"]
    if ns is None:
        return False
    lo = min(
        [model.band(c["L"], j, c["N"], c["lam"])[0] for j in range(c["J_min"], J(c) + 1)]
        + [model.scal_band(c["L"], c["J_min"], c["lam"])]
    )
    return lo >= 2 * ns


def valid(c, backend=None):
    L, N = c["L"], c["N"]
    if not (0 <= c["J_min"] < J(c)) or N > L or N < 1 or L < 2:
        return False
    if c["reality"] and c["spin"] != 0:
        return False
    if abs(c["spin"]) >= L:
        return False
    if c["sampling"] == "healpix":
        if not hp_ok(c) or c["spin"] != 0:
            return False
    elif c["nside"] is not None:
        return False
    if backend in ("wavelet", "wavelet_c", "wavelet_precompute", "wavelet_precompute_torch"):
        if not c["multires"]:
            return False
    if backend in ("wavelet_precompute", "wavelet_precompute_torch"):
        # the kernels are spin-0 kernels; s2fft's precompute Wigner transform
        # does not take N = 1 on "mw" and "mwss"
        if c["spin"] != 0 or (N == 1 and c["sampling"] in ("mw", "mwss")):
            return False
    if backend in ("wavelet", "wavelet_c"):
        if abs(c["spin"]) >= model.scal_band(L, c["J_min"], c["lam"]):
            return False
    if backend == "wavelet_c" and c["sampling"] == "healpix":
        return False
    if c["multires"]:
        for j in range(c["J_min"], J(c) + 1):
            Lj, Nj, _ = model.band(L, j, N, c["lam"])
            if Nj > Lj:
                return False
    if backend != "base" and not c["multires"]:
        return False
    return True


LAMS = (2.0, 2.0, 2.0, 2.0, 2.0, 3.0, 3.0, 2, 3, 1.5, 1.5, 2.5, 2.5, 1.8, 4.0)


def rand_cfg(rng, backend=None, Ls=(3, 4, 4, 5, 6, 7, 8, 8, 9, 10), tries=200):
    for _ in range(tries):
        c = {}
        c["L"] = rng.choice(Ls)
        c["lam"] = rng.choice(LAMS)
        c["N"] = rng.choice((1, 2, 2, 3, 3, 4, 5, 6))
        j = J(c)
        if j < 1:
            continue
        c["J_min"] = rng.randrange(j)
        c["sampling"] = rng.choice(("mw", "mw", "mw", "mwss", "mwss", "dh", "dh", "gl", "healpix"))
        c["nside"] = 2 if c["sampling"] == "healpix" else None
        c["reality"] = rng.random() < 0.35
        c["spin"] = 0 if c["reality"] or rng.random() < 0.7 else rng.choice((-2, -1, 1, 2))
        c["multires"] = not (backend == "base" and rng.random() < 0.3)
        if valid(c, backend):
            return c
    c = dict(L=4, N=2, J_min=0, lam=2.0, spin=0, sampling="mw", nside=None, reality=False, multires=True)
    return c


def neighbour(rng, c, backend=None):
    """The same configuration with one (sometimes two) parameters changed."""
    for _ in range(60):
        d = dict(c)
        for _k in range(1 if rng.random() < 0.8 else 2):
            k = rng.choice(KEYS)
            if k == "multires" and backend == "base":
                d[k] = not d[k]
                continue
            o = rand_cfg(rng, backend)
            d[k] = o[k]
            if k in ("sampling", "nside"):
                d["sampling"], d["nside"] = o["sampling"], o["nside"]
            if k == "reality":
                d["reality"] = not c["reality"]
            if k == "lam":
                d["lam"] = rng.choice([x for x in (1.5, 2.0, 2.5, 3.0) if x != c["lam"]])
        if d != c and valid(d, backend):
            return d
    return rand_cfg(rng, backend)


# ---------------------------------------------------------------- data
def _rng(*k):
    return random.Random("|".join(map(str, k)))


def ckey(c):
    return tuple(c[k] for k in KEYS)


@functools.lru_cache(maxsize=600)
def _data(ck, d):
    c = dict(zip(KEYS, ck))
    rng = _rng("data", d, ck)
    flm = model.random_flm(rng, c["L"], c["spin"], c["reality"])
    if d % 10 == 8:  # a single pair of harmonics
        keep = np.zeros_like(flm)
        el = rng.randrange(abs(c["spin"]), c["L"])
        m = rng.randrange(0, el + 1)
        for mm in {m, -m}:
            keep[el, c["L"] - 1 + mm] = flm[el, c["L"] - 1 + mm]
        flm = keep
    elif d % 10 == 9:
        flm = flm * 0
    psi, phi = model.filters(c["L"], c["N"], c["J_min"], c["lam"], c["spin"])
    if c["sampling"] == "healpix":
        f = model.inverse(flm, c["L"], c["spin"], "healpix", c["nside"], c["reality"])
    else:
        f = model.inverse(flm, c["L"], c["spin"], c["sampling"], None, c["reality"])
    return flm, f, psi, phi


@functools.lru_cache(maxsize=600)
def _coeffs(ck, d):
    c = dict(zip(KEYS, ck))
    flm, f, psi, phi = _data(ck, d)
    return model.analyse(
        flm, c["L"], c["N"], c["J_min"], c["lam"], c["spin"], c["sampling"], c["nside"],
        c["reality"], psi, phi, c["multires"],
    )


@functools.lru_cache(maxsize=600)
def _pre(ck, kind, fwd):
    c = dict(zip(KEYS, ck))
    a = (c["L"], c["N"], c["J_min"], c["lam"], c["sampling"], c["nside"], fwd, c["reality"])
    return model.full_precomputes(*a) if kind == "full" else model.wigner_precomputes(*a)


def leaf(x, form, reality=False):
    """One array argument in the requested physical form (always fresh)."""
    x = np.asarray(x)
    if form == "jax":
        return jnp.array(x)
    if form.startswith("torch"):
        t = torch.from_numpy(np.array(x, order="C"))
        if form == "torch_strided" and t.ndim and t.numel():
            big = torch.zeros(tuple(t.shape[:-1]) + (2 * t.shape[-1],), dtype=t.dtype)
            v = big[..., ::2]
            v.copy_(t)
            return v
        if form == "torch_view" and t.ndim and t.numel():
            big = torch.full(tuple(n + 2 for n in t.shape), 1.5, dtype=t.dtype)
            v = big[tuple(slice(1, n + 1) for n in t.shape)]
            v.copy_(t)
            return v
        if form == "torch_conj" and t.is_complex():
            return t.conj().resolve_conj().conj()
        if form == "torch64":
            return t.to(torch.complex64 if t.is_complex() else torch.float32 if t.is_floating_point() else t.dtype)
        if form == "torch_grad" and (t.is_floating_point() or t.is_complex()):
            t.requires_grad_(True)
        return t
    if form == "F":
        return np.array(x, order="F")
    if form == "strided" and x.ndim and x.size:
        big = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), x.dtype)
        v = big[..., ::2]
        v[...] = x
        return v
    if form == "view" and x.ndim and x.size:  # a window of a larger array
        big = np.full(tuple(n + 2 for n in x.shape), 1.5, x.dtype)
        v = big[tuple(slice(1, n + 1) for n in x.shape)]
        v[...] = x
        return v
    if form == "neg" and x.ndim and x.size:
        return np.array(x[..., ::-1], order="C")[..., ::-1]
    y = np.array(x, order="C")
    if form == "ro":
        y.setflags(write=False)
    if form == "c64" and y.dtype.kind in "cf":
        y = y.astype(np.complex64 if y.dtype.kind == "c" else np.float32)
    return y


NP_FORMS = ("c", "c", "c", "c", "F", "strided", "ro", "view", "neg", "c64")
JX_FORMS = ("c", "c", "jax", "jax", "jax", "F", "strided", "ro", "ro", "view", "neg", "c64")
TO_FORMS = ("torch", "torch", "torch", "torch_strided", "torch_grad", "torch_grad", "torch_view", "torch_conj", "torch64")

# ---------------------------------------------------------------- ops
OPS = {}


class Op:
    def __init__(self, fn, gen, build, backend=None, forms=("c",), weight=1.0, cls="util", heavy=False):
        self.fn, self.gen, self.build = fn, gen, build
        self.backend, self.forms, self.weight, self.cls = backend, forms, weight, cls
        self.heavy = heavy
        self.dom = backend or ("base" if cls == "samples" else None)  # whose configurations are valid


def _reg(fn, gen, build, **k):
    OPS[fn] = Op(fn, gen, build, **k)


def _filt_cfg(rng, Ls):
    c = rand_cfg(rng, None, Ls)
    return c


FL = (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16)
FLJ = (3, 4, 5, 6, 8, 10)


def _gen_filters(Ls, spin0=False, torch_opt=False, dirn=True):
    def gen(rng):
        c = rand_cfg(rng, None, Ls)
        x = {}
        if dirn:
            x["spin0"] = rng.choice((0, 0, 0, 1, 2, -1)) if spin0 else 0
            if torch_opt:
                x["using_torch"] = rng.random() < 0.3
        if rng.random() < 0.05:
            c["J_min"] = J(c) + rng.randrange(3)  # invalid: must raise ValueError
        return c, x

    return gen


def _b_axisym(c, d, form, x):
    return dict(L=c["L"], J_min=c["J_min"], lam=c["lam"])


def _b_dir(c, d, form, x):
    return dict(L=c["L"], N=c["N"], J_min=c["J_min"], lam=c["lam"], spin=c["spin"], **x)


_reg("filters.filters_axisym", _gen_filters(FL, dirn=False), _b_axisym, cls="filters")
_reg("filters.filters_axisym_vectorised", _gen_filters(FL, dirn=False), _b_axisym, cls="filters")
_reg("filters.filters_axisym_jax", _gen_filters(FLJ, dirn=False), _b_axisym, cls="filters", weight=0.4)
_reg("filters.filters_directional", _gen_filters(FL, True, True), _b_dir, cls="filters", weight=1.5)
_reg("filters.filters_directional_vectorised", _gen_filters(FL, False, True), _b_dir, cls="filters", weight=1.5)
_reg("filters.filters_directional_jax", _gen_filters(FLJ, False, False), _b_dir, cls="filters", weight=0.5)


def _gen_c(Ls=FL):
    return lambda rng: (rand_cfg(rng, None, Ls), {})


_reg(
    "filters.k_lam",
    lambda rng: (rand_cfg(rng, None, FL), {"quad_iters": rng.choice((300, 300, 100, 37))}),
    lambda c, d, form, x: dict(L=c["L"], lam=c["lam"], **x),
    cls="filters",
)
_reg(
    "filters.k_lam_jax",
    lambda rng: (rand_cfg(rng, None, FLJ), {"quad_iters": rng.choice((300, 300, 100))}),
    lambda c, d, form, x: dict(L=c["L"], lam=c["lam"], **x),
    cls="filters",
    weight=0.3,
)
_reg("filters.tiling_direction", _gen_c((2, 3, 4, 5, 8, 16, 24)), lambda c, d, form, x: dict(L=c["L"], N=c["N"]), cls="filters")
_reg("filters.tiling_direction_jax", _gen_c(FLJ), lambda c, d, form, x: dict(L=c["L"], N=c["N"]), cls="filters", weight=0.3)
_reg(
    "filters.tiling_integrand",
    lambda rng: (rand_cfg(rng), {"t": rng.choice((0.55, 0.6, 0.7, 0.9))}),
    lambda c, d, form, x: dict(t=x["t"], lam=c["lam"]),
    cls="filters",
    weight=0.3,
)
_reg(
    "filters.part_scaling_fn",
    lambda rng: (rand_cfg(rng), {"a": rng.choice((0.5, 0.55, 0.6, 0.8)), "b": rng.choice((1.0, 0.95)), "n": rng.choice((10, 50, 300))}),
    lambda c, d, form, x: dict(lam=c["lam"], **x),
    cls="filters",
    weight=0.3,
)


# samples
def _gen_s(*extra):
    def gen(rng):
        c = rand_cfg(rng, "base", (2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 20, 27, 32))
        x = {}
        if "j" in extra:
            x["j"] = rng.randrange(J(c) + 1)
        if "J_max" in extra:
            x["J_max"] = rng.choice((None, rng.randrange(c["J_min"], J(c) + 1)))
        if "scattering" in extra:
            x["scattering"] = rng.random() < 0.25
        return c, x

    return gen


def _pick(*names, **ren):
    def b(c, d, form, x):
        out = {}
        for n in names:
            out[n] = x[n] if n in x else c["multires"] if n == "multiresolution" else c[n]
        return out

    return b


for _n, _g, _a, _w in (
    ("f_scal", (), ("L", "J_min", "lam", "sampling", "nside", "multiresolution"), 0.3),
    ("n_wav_scales", (), ("L", "N", "J_min", "lam"), 0.2),
    ("L0_j", ("j",), ("j", "lam"), 0.2),
    ("LN_j", ("j",), ("L", "j", "N", "lam", "multiresolution"), 0.3),
    ("f_wav_j", ("j",), ("L", "j", "N", "lam", "sampling", "nside", "multiresolution"), 0.3),
    ("construct_f", ("scattering",), ("L", "N", "J_min", "lam", "sampling", "nside", "multiresolution", "scattering"), 0.7),
    ("construct_f_jax", ("J_max",), ("L", "J_min", "J_max", "lam"), 0.3),
    ("construct_f_torch", ("J_max",), ("L", "J_min", "J_max", "lam"), 0.4),
    ("construct_flm", (), ("L", "J_min", "lam", "multiresolution"), 0.7),
    ("construct_flm_jax", (), ("L", "J_min", "lam", "multiresolution"), 0.3),
    ("scal_bandlimit", (), ("L", "J_min", "lam", "multiresolution"), 0.2),
    ("flmn_wav_j", ("j",), ("L", "j", "N", "lam", "multiresolution"), 0.3),
    ("wav_j_bandlimit", ("j",), ("L", "j", "lam", "multiresolution"), 0.2),
    ("construct_flmn", ("scattering",), ("L", "N", "J_min", "lam", "multiresolution", "scattering"), 0.7),
    ("construct_flmn_jax", ("J_max",), ("L", "N", "J_min", "J_max", "lam", "multiresolution"), 0.4),
    ("construct_flmn_torch", ("J_max",), ("L", "N", "J_min", "J_max", "lam", "multiresolution"), 0.7),
    ("j_max", (), ("L", "lam"), 0.3),
):
    _reg("samples." + _n, _gen_s(*_g), _pick(*_a), cls="samples", weight=_w)

_reg(
    "samples.binomial_coefficient",
    lambda rng: (rand_cfg(rng), {"n": rng.randrange(1, 12), "k": rng.randrange(0, 3)}),
    lambda c, d, form, x: dict(n=x["n"], k=x["k"]),
    cls="samples",
    weight=0.2,
)
_reg(
    "samples.binomial_coefficient_jax",
    lambda rng: (rand_cfg(rng), {"n": rng.randrange(1, 12), "k": rng.randrange(0, 3)}),
    lambda c, d, form, x: dict(n=x["n"], k=x["k"]),
    cls="samples",
    weight=0.1,
)


# transforms
def _cont(seq, x):
    return tuple(seq) if x.get("cont") == "tuple" else list(seq)


def _common(c, x, *names):
    out = {}
    for n in names:
        if n == "spin0":
            out[n] = x.get("spin0", 0)
        elif n == "multiresolution":
            out[n] = c["multires"]
        elif n == "J_max":
            if x.get("J_max") is not None:
                out[n] = x["J_max"]
        else:
            out[n] = c[n]
    return out


def _dense(a, ck, d):
    """The array with noise everywhere, also where a band limit makes it zero."""
    r = np.random.default_rng(zlib.crc32(repr((ck, d)).encode()))
    n = r.standard_normal(a.shape)
    if a.dtype.kind == "c":
        n = n + 1j * r.standard_normal(a.shape)
    return (a + 0.3 * n).astype(a.dtype)


def _filters_arg(c, form, x):
    ck = ckey(c)
    psi, phi = _data(ck, 0)[2:4]
    k = x.get("fs", 1)
    if k == "dense":
        psi, phi = _dense(psi, ck, 1), _dense(phi, ck, 2)
    elif k != 1:
        psi, phi = psi * k, phi * k
    pf = x.get("fform", "c")
    if form.startswith("torch"):
        pf = "torch"
    return psi, phi, pf


def _t_build(backend, fname):
    np_like = backend == "base"

    def build(c, d, form, x):
        ck = ckey(c)
        kw = {}
        fwd = fname.startswith("synthesis")
        if fwd:
            w, s = _coeffs(ck, d)
            if x.get("dense"):
                w, s = [_dense(a, ck, (d, i)) for i, a in enumerate(w)], _dense(s, ck, (d, -1))
            kw["f_wav"] = _cont([leaf(a, form) for a in w], x)
            kw["f_scal"] = leaf(s, form)
        elif fname.startswith("analysis"):
            f = _data(ck, d)[1]
            if x.get("cplx") and f.dtype.kind == "f":  # a real signal handed over as complex, not quite real
                f = f + 0.25j * np.roll(f, 1)
            if x.get("dense"):
                f = _dense(f, ck, d)
            kw["f"] = leaf(f, form)
        else:
            flm = _data(ck, d)[0]
            kw["flm"] = leaf(_dense(flm, ck, d) if x.get("dense") else flm, form)
        kw.update(_common(c, x, "L", "N", "J_min", "lam", "sampling", "reality"))
        if backend != "wavelet_c":
            kw["nside"] = c["nside"]
        if fname != "flm_to_analysis":
            kw["spin"] = c["spin"]
        else:
            kw.update(_common(c, x, "J_max"))
        if np_like:
            kw["multiresolution"] = c["multires"]
            if fname == "analysis":
                kw["scattering"] = x.get("scattering", False)
            kw["spin0"] = x.get("spin0", 0)
            return kw
        psi, phi, pf = _filters_arg(c, form, x)
        if fname == "flm_to_analysis":
            kw["filters"] = leaf(psi, pf)
        else:
            kw["filters"] = _cont([leaf(psi, pf), leaf(phi, pf)], {"cont": x.get("fcont", "tuple")})
        if backend == "wavelet":
            if x.get("pre"):
                kw["precomps"] = [[leaf(a, "jax") for a in p] for p in _pre(ck, "wigner", fwd)]
        elif backend.startswith("wavelet_precompute"):
            a, b, p = _pre(ck, "full", fwd)
            k = x.get("ps", 1)
            g = (lambda z: leaf(z * k, "torch")) if backend.endswith("torch") else (lambda z: leaf(z * k, x.get("pform", "c")))
            kw["precomps"] = [g(a), g(b), [g(q) for q in p]]
        return kw

    return build


def _t_gen(backend, fname, Ls):
    def gen(rng):
        c = rand_cfg(rng, backend, Ls)
        x = {}
        if fname == "flm_to_analysis":
            c["spin"] = 0
            x["J_max"] = rng.choice((None, None, rng.randrange(c["J_min"], J(c) + 1)))
        if backend == "base":
            x["scattering"] = fname == "analysis" and rng.random() < 0.1
        elif backend == "wavelet":
            x["pre"] = rng.random() < 0.6 and c["sampling"] != "healpix"
        if backend != "base":
            x["fcont"] = rng.choice(("tuple", "list"))
            if rng.random() < 0.25:
                x["fs"] = rng.choice((0.5, 2.0, -1.5, "dense", "dense"))
            if "precompute" in backend and rng.random() < 0.15:
                x["ps"] = rng.choice((0.5, 2.0))
            if not backend.endswith("torch"):
                x["fform"] = rng.choice(("c", "c", "jax", "ro"))
                x["pform"] = rng.choice(("c", "jax"))
        if rng.random() < 0.15:
            x["dense"] = True
        if fname.startswith("analysis") and c["reality"] and rng.random() < 0.15:
            x["cplx"] = True
        if fname.startswith("synthesis"):
            x["cont"] = rng.choice(("list", "list", "tuple"))
        return c, x

    return gen


BIG = (10, 12, 13, 16, 17, 20, 25, 32)
TL = (3, 4, 4, 5, 5, 6, 6, 7, 8, 9)
for _b, _fs, _fns, _w in (
    ("base", NP_FORMS, ("analysis", "synthesis", "analysis_looped", "synthesis_looped"), 1.5),
    ("wavelet", JX_FORMS, ("analysis", "synthesis", "flm_to_analysis"), 1.5),
    ("wavelet_c", JX_FORMS, ("analysis", "synthesis", "flm_to_analysis"), 1.5),
    ("wavelet_precompute", JX_FORMS, ("analysis", "synthesis", "flm_to_analysis"), 1.5),
    ("wavelet_precompute_torch", TO_FORMS, ("analysis", "synthesis", "flm_to_analysis"), 2.0),
):
    for _f in _fns:
        _reg(
            f"transforms.{_b}.{_f}",
            _t_gen(_b, _f, TL),
            _t_build(_b, _f),
            backend=_b,
            forms=_fs,
            weight=_w * (0.5 if "looped" in _f else 1.0),
            cls="transform",
        )


def _gen_k(full):
    def gen(rng):
        c = rand_cfg(rng, "wavelet_precompute", (3, 4, 4, 5, 6, 8))
        x = {"forward": rng.random() < 0.5, "using_torch": full and rng.random() < 0.4}
        if full:
            x["nospherical"] = rng.random() < 0.2
        return c, x

    return gen


_reg(
    "transforms.construct.generate_full_precomputes",
    _gen_k(True),
    lambda c, d, form, x: dict(_common(c, x, "L", "N", "J_min", "lam", "sampling", "nside", "reality"), **x),
    cls="construct",
    weight=1.5,
)
_reg(
    "transforms.construct.generate_wigner_precomputes",
    _gen_k(False),
    lambda c, d, form, x: dict(_common(c, x, "L", "N", "J_min", "lam", "sampling", "nside", "reality"), **x),
    cls="construct",
    weight=1.2,
)


def _b_shape_check(c, d, form, x):
    w, s = _coeffs(ckey(c), d)
    kw = dict(f_w=[leaf(a, form) for a in w], f_s=leaf(s, form))
    kw.update(_common(c, x, "L", "N", "J_min", "lam", "sampling", "nside", "multiresolution"))
    if x.get("short"):
        kw["f_w"] = kw["f_w"][:-1]
    return kw


_reg(
    "samples.wavelet_shape_check",
    lambda rng: (rand_cfg(rng, "base", TL), {"short": rng.random() < 0.3}),
    _b_shape_check,
    cls="samples",
    weight=0.4,
    forms=("c",),
)

NAMES = sorted(OPS)


# ---------------------------------------------------------------- specs
def rand_op(rng, names=None, d=None):
    names = names or NAMES
    fn = rng.choices(names, [OPS[n].weight for n in names])[0]
    op = OPS[fn]
    c, x = op.gen(rng)
    s = dict(fn=fn, c=c, d=rng.randrange(6) if d is None else d, form=rng.choice(op.forms), x=x)
    if rng.random() < 0.15:
        s["pos"] = True
    return s


def vary(rng, spec, neigh=None):
    """A call close to `spec`: same function mostly, one thing changed."""
    op = OPS[spec["fn"]]
    s = dict(spec, c=dict(spec["c"]), x=dict(spec["x"]))
    r = rng.random()
    if r < 0.55:
        s["c"] = dict((neigh or neighbour)(rng, spec["c"], op.dom))
        _refit(rng, s)
    elif r < 0.7:
        s["d"] = spec["d"] + 1 + rng.randrange(4)
    elif r < 0.8:
        s["form"] = rng.choice(op.forms)
    elif r < 0.9:
        c, x = op.gen(rng)
        ks = [k for k in x if x[k] != s["x"].get(k)] or list(x)
        if ks:
            k = rng.choice(ks)
            s["x"][k] = (not s["x"].get(k, False)) if isinstance(x[k], bool) else x[k]
        if "fs" in x or op.cls == "transform" and rng.random() < 0.3:
            s["x"]["fs"] = rng.choice((0.5, 2.0, 1))
        if s["fn"].startswith("transforms.base"):
            s["x"].pop("fs", None)
        _refit(rng, s)
    else:
        if neigh is not None:
            s["c"] = dict(neigh(rng, spec["c"], op.dom))
            _refit(rng, s)
            return s
        return rand_op(rng, [spec["fn"]])
    return s


SWEEPS = dict(
    lam=(1.5, 1.6, 1.7, 1.8, 1.9, 2.0, 2.1, 2.2, 2.3, 2.5, 2.75, 3.0, 3.25, 3.5, 4.0, 5.0),
    L=(2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 27, 32),
    N=(1, 2, 3, 4, 5, 6, 7, 8, 9, 10),
    spin=(-3, -2, -1, 0, 1, 2, 3),
    J_min=(0, 1, 2, 3),
    sampling=("mw", "mwss", "dh", "gl"),
    reality=(False, True),
    multires=(False, True),
)


def sweep(rng, spec, n):
    """Up to n calls like `spec` with a few parameters swept over their range."""
    op = OPS[spec["fn"]]
    axes = set(rng.sample(sorted(SWEEPS), rng.choice((1, 2, 2, 3))))
    if rng.random() < 0.4:
        axes.add(rng.choice(("L", "lam")))
    axes = sorted(axes)
    out, seen = [], set()
    for _ in range(6 * n):
        if len(out) >= n:
            break
        s = dict(spec, c=dict(spec["c"]), x=dict(spec["x"]))
        for a in axes:
            if a != "multires" or op.dom == "base":
                s["c"][a] = rng.choice(SWEEPS[a])
        if s["c"]["sampling"] != "healpix":
            s["c"]["nside"] = None
        if s["c"]["J_min"] >= J(s["c"]) or not valid(s["c"], op.dom):
            continue
        _refit(rng, s)
        k = repr(s)
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def heavy(fn):
    """Functions whose every new configuration costs XLA compilations."""
    o = OPS[fn]
    return o.backend in ("wavelet", "wavelet_c", "wavelet_precompute") or fn.endswith("_jax") or o.cls == "construct"


def _refit(rng, s):
    """Keep extras inside the configuration's range."""
    c, x = s["c"], s["x"]
    if s["fn"].endswith("flm_to_analysis"):
        c["spin"] = 0
    if x.get("J_max") is not None:
        x["J_max"] = rng.randrange(c["J_min"], J(c) + 1) if c["J_min"] <= J(c) else None
    if "j" in x:
        x["j"] = min(x["j"], J(c))
    if c["sampling"] == "healpix" and x.get("pre"):
        x["pre"] = False


FAMILY = {}
for _n in NAMES:
    FAMILY.setdefault(OPS[_n].backend or OPS[_n].cls, []).append(_n)


def related(rng, spec, fam=None):
    """Another function sharing code or state with this one, similar config."""
    fam = fam or FAMILY[OPS[spec["fn"]].backend or OPS[spec["fn"]].cls]
    fn = rng.choice(fam)
    s = rand_op(rng, [fn])
    op = OPS[fn]
    if rng.random() < 0.7 or heavy(fn):
        c = dict(spec["c"])
        if not valid(c, op.dom):
            return s
        s["c"] = c
        _refit(rng, s)
    return s


def build(spec, share=None):
    op = OPS[spec["fn"]]
    kw = op.build(spec["c"], spec["d"], spec["form"], spec["x"])
    if share is not None:
        for k in list(kw):
            if is_data(kw[k]):
                key = (k, ckey(spec["c"]), spec["d"] if k not in ("filters", "precomps") else 0, spec["form"], str(sorted(spec["x"].items(), key=str)), spec["fn"].split(".")[1] + ("s" if "synth" in spec["fn"] else "a"))
                kw[k] = share.setdefault(key, kw[k])
    return kw


def is_data(v):
    return isinstance(v, (np.ndarray, list, tuple, jax.Array, torch.Tensor))


def invoke(inst, spec, kw):
    fn = inst.get("s2wav." + spec["fn"])
    if spec.get("pos"):  # positional call
        b = inspect.signature(fn).bind(**kw)
        return fn(*b.args, **b.kwargs)
    return fn(**kw)


# ---------------------------------------------------------------- outcomes
class Arr:
    __slots__ = ("kind", "a")

    def __init__(self, kind, a):
        self.kind, self.a = kind, a


def freeze(x):
    if isinstance(x, torch.Tensor):
        return Arr("torch+grad" if x.requires_grad else "torch", x.detach().resolve_conj().numpy().copy())
    if isinstance(x, jax.Array):
        return Arr("jax", np.array(x))
    if isinstance(x, np.ndarray):
        return Arr("np", np.array(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__ if type(x) in (list, tuple) else "tuple", [freeze(y) for y in x])
    if isinstance(x, np.generic):
        return Arr("scalar", np.array(x))
    if isinstance(x, (bool, int, float, complex)):
        return Arr("scalar", np.array(x))
    if x is None:
        return None
    return ("obj", type(x).__name__)


def _tleaves(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from _tleaves(y)
    elif isinstance(x, torch.Tensor):
        yield x


def gradient(result, kw):
    """Gradient of sum |result|^2 with respect to the inputs that require it."""
    ins = [t for k in ("f", "flm", "f_wav", "f_scal") for t in _tleaves(kw.get(k)) if t.requires_grad]
    outs = [t for t in _tleaves(result) if t.requires_grad]
    if not ins or not outs:
        return None
    with torch.enable_grad():
        s = sum((t.abs() ** 2).sum() for t in outs)
        g = torch.autograd.grad(s, ins, allow_unused=True, retain_graph=True)
    return [None if t is None else t.detach() for t in g]


def result_outcome(result, error=None, kw=None):
    """Comparable outcome of one call."""
    if error is not None:
        return ("err", exc_name(error))
    try:
        r = freeze(result)
        g = gradient(result, kw) if kw is not None else None
        if g is not None:
            r = ("withgrad", [r, freeze(g)])
        return ("ok", r)
    except BaseException as e:  # e.g. a leaked tracer inside the result
        return ("bad", f"{type(e).__name__}: {str(e)[:120]}")


def outcome(task, kw=None):
    """Comparable outcome of a finished task."""
    if task.error is not None:
        return ("err", exc_name(task.error))
    try:
        return result_outcome(task.result, None, kw)
    except BaseException as e:  # e.g. a leaked tracer inside the result
        return ("bad", f"{type(e).__name__}: {str(e)[:120]}")


def exc_name(e):
    return type(e).__name__


TOL = 1e-9


def differ(a, b, tol=TOL, strict=True):
    """None if equal, else a short description of the first difference."""
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not (isinstance(a, Arr) and isinstance(b, Arr)):
            return f"{_d(a)} instead of {_d(b)}"
        if strict and a.kind != b.kind and {a.kind, b.kind} != {"np", "scalar"}:
            return f"{a.kind} array instead of {b.kind}"
        x, y = a.a, b.a
        if x.shape != y.shape:
            return f"shape {x.shape} instead of {y.shape}"
        if strict and x.dtype != y.dtype:
            return f"dtype {x.dtype} instead of {y.dtype}"
        if x.size == 0:
            return None
        if x.dtype.kind not in "biufc":
            return None if np.array_equal(x, y) else "values differ"
        if x.tobytes() == y.tobytes():
            return None
        nx, ny = np.isnan(x), np.isnan(y)
        if (nx != ny).any():
            return "NaN pattern differs"
        with np.errstate(all="ignore"):
            diff = np.abs(np.where(nx, 0, x) - np.where(ny, 0, y))
            same = np.where(nx, 0, x) == np.where(ny, 0, y)
            diff = np.where(same, 0.0, diff)
            fin = np.abs(y[np.isfinite(y)])
            scale = max(1.0, float(fin.max()) if fin.size else 1.0)
            m = float(diff.max())
        t = tol * scale
        if x.dtype in (np.complex64, np.float32):
            t = max(t, 1e-5 * scale)
        if not (m <= t):
            return f"max abs difference {m:.3g} (scale {scale:.3g})"
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] != b[0]:
            return f"{a[0]} {_s(a)} instead of {b[0]} {_s(b)}"
        if isinstance(a[1], list) and isinstance(b[1], list):
            if len(a[1]) != len(b[1]):
                return f"length {len(a[1])} instead of {len(b[1])}"
            for i, (p, q) in enumerate(zip(a[1], b[1])):
                r = differ(p, q, tol, strict)
                if r:
                    return f"[{i}]: {r}"
            return None
        if a[0] in ("ok",):
            return differ(a[1], b[1], tol, strict)
        if a[1] != b[1]:
            return f"{a[1]} instead of {b[1]}"
        return None
    if a is None and b is None:
        return None
    return f"{_d(a)} instead of {_d(b)}"


def _d(a):
    return type(a).__name__ if not isinstance(a, tuple) else a[0]


def _s(a):
    return a[1] if isinstance(a[1], str) else ""


def show(spec):
    c = spec["c"]
    s = f"{spec['fn']}(L={c['L']}, N={c['N']}, J_min={c['J_min']}, lam={c['lam']}, spin={c['spin']}, sampling={c['sampling']}"
    if c["nside"]:
        s += f", nside={c['nside']}"
    s += f", reality={c['reality']}"
    if not c["multires"]:
        s += ", multiresolution=False"
    x = {k: v for k, v in spec["x"].items() if v not in (None, False)}
    if x:
        s += ", " + ", ".join(f"{k}={v}" for k, v in x.items())
    return s + f"; data {spec['d']}/{spec['form']}{'/positional' if spec.get('pos') else ''})"
