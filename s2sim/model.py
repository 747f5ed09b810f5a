"""Small executable reference model, independent of s2wav's own code.

Shapes, an admissible set of directional filters, random band-limited signals,
and the wavelet analysis written directly from the defining equations in
harmonic space on top of s2fft's numpy transforms. Used to build inputs for the
simulated calls and as the absolute oracle of the pipeline properties.
"""
import functools
import math

import numpy as np
import s2fft
from s2fft.precompute_transforms import construct as _kc
from s2fft.sampling import s2_samples, so3_samples


def j_max(L, lam):
    return int(np.ceil(np.log(L) / np.log(lam)))


def band(L, j, N, lam, multires=True):
    """(L_j, N_j, L0_j) of wavelet scale j."""
    j = max(j, 1)
    if not multires:
        return L, N, 0
    Lj = min(math.ceil(lam ** (j + 1)), L)
    Nj = min(N, Lj)
    Nj += (Nj + N) % 2
    return Lj, Nj, min(math.ceil(lam ** (j - 1)), Lj - 1)


def scal_band(L, J_min, lam, multires=True):
    return min(math.ceil(lam**J_min), L) if multires else L


def f_shape(L, sampling, nside=None):
    return tuple(s2_samples.f_shape(L, sampling, nside))


def wav_shape(L, j, N, lam, sampling, nside=None, multires=True):
    Lj, Nj, _ = band(L, j, N, lam, multires)
    return tuple(so3_samples.f_shape(Lj, Nj, sampling, nside))


def scal_shape(L, J_min, lam, sampling, nside=None, multires=True):
    return f_shape(scal_band(L, J_min, lam, multires), sampling, nside)


# ---------------------------------------------------------------- filters
@functools.lru_cache(maxsize=None)
def _k(L, lam):
    J = j_max(L, lam)
    n = 400

    def integral(a):
        t = np.linspace(a, 1.0, n + 1)
        s = (t - 1.0 / lam) * (2.0 * lam / (lam - 1.0)) - 1.0
        with np.errstate(all="ignore"):
            g = np.where(np.abs(s) < 1, np.exp(-2.0 / (1.0 - s**2)), 0.0) / t
        return np.sum((g[1:] + g[:-1]) * 0.5 * np.diff(t))

    norm = integral(1.0 / lam)
    k = np.zeros((J + 2, L))
    for j in range(J + 2):
        for el in range(L):
            if el < lam ** (j - 1):
                k[j, el] = 1
            elif el > lam**j:
                k[j, el] = 0
            else:
                k[j, el] = integral(el / lam**j) / norm
    return k


def direction(L, N):
    s = np.zeros((L, 2 * L - 1), dtype=np.complex128)
    nu = 1 if N % 2 else 1j
    for el in range(1, L):
        g = min(N - 1, el) if (N + el) % 2 else min(N - 1, el - 1)
        for m in range(-el, el + 1):
            if abs(m) < N and (N + m) % 2 and abs(m) <= g and (g - m) % 2 == 0:
                s[el, L - 1 + m] = nu * math.sqrt(math.comb(g, (g - m) // 2) / 2.0**g)
    return s


@functools.lru_cache(maxsize=None)
def _filters(L, N, J_min, lam, spin):
    J = j_max(L, lam)
    k = _k(L, lam)
    el = np.arange(L)
    kap = np.sqrt(np.maximum(k[1:] - k[:-1], 0.0))
    kap[:J_min] = 0
    psi = np.einsum("jl,lm->jlm", kap * np.sqrt((2 * el + 1) / (8 * np.pi**2)), direction(L, N))
    phi = np.sqrt(k[J_min]) * np.sqrt((2 * el + 1) / (4 * np.pi))
    psi[:, : abs(spin)] = 0
    phi[: abs(spin)] = 0
    return psi, phi


def filters(L, N, J_min, lam, spin=0):
    p = _filters(L, N, J_min, float(lam), spin)
    return p[0].copy(), p[1].copy()


# ---------------------------------------------------------------- signals
def random_flm(rng, L, spin, reality):
    flm = np.zeros((L, 2 * L - 1), dtype=np.complex128)
    for el in range(abs(spin), L):
        for m in range(0 if reality else -el, el + 1):
            v = complex(rng.gauss(0, 1), rng.gauss(0, 1))
            if reality and m == 0:
                v = complex(v.real, 0)
            flm[el, L - 1 + m] = v
            if reality and m > 0:
                flm[el, L - 1 - m] = (-1) ** m * np.conj(v)
    return flm


def inverse(flm, L, spin, sampling, nside, reality):
    if abs(spin) >= L:
        return np.zeros(f_shape(L, sampling, nside), np.complex128)
    if L == 1:
        return flm[0, 0] * np.sqrt(1 / (4 * np.pi)) * np.ones(f_shape(1, sampling, nside))
    f = s2fft.inverse_numpy(flm, L, spin, nside, sampling, reality)
    return f


def analyse(flm, L, N, J_min, lam, spin, sampling, nside, reality, psi, phi, multires=True, J_max=None, J_lo=None):
    """Wavelet analysis from the definition: (f_wav list, f_scal)."""
    J = j_max(L, lam) if J_max is None else J_max
    lo = J_min if J_lo is None else J_lo
    out = []
    for j in range(lo, J + 1):
        Lj, Nj, L0 = band(L, j, N, lam, multires)
        w = np.zeros((2 * Nj - 1, Lj, 2 * Lj - 1), dtype=np.complex128)
        for n in range(-Nj + 1, Nj):
            if (n + Nj - 1) % 2:
                continue
            for el in range(L0, Lj):
                c = 8 * np.pi**2 / (2 * el + 1) * np.conj(psi[j, el, L - 1 + n])
                w[Nj - 1 + n, el] = flm[el, L - Lj : L - 1 + Lj] * c
        out.append(s2fft.wigner.inverse_numpy(w, Lj, Nj, nside, sampling, reality, None, L0))
    if phi is None:
        return out, None
    Ls = scal_band(L, J_min, lam, multires)
    el = np.arange(Ls)
    slm = flm[:Ls, L - Ls : L - 1 + Ls] * (phi[:Ls] * np.sqrt(4 * np.pi / (2 * el + 1)))[:, None]
    return out, inverse(slm, Ls, spin, sampling, nside, reality)


# ---------------------------------------------------------------- kernels
@functools.lru_cache(maxsize=None)
def _kernel(kind, L, N, reality, sampling, nside, forward):
    if kind == "w":
        return np.asarray(_kc.wigner_kernel(L, N, reality, sampling, nside, forward))
    return np.asarray(_kc.spin_spherical_kernel(L, 0, reality, sampling, nside, forward))


def full_precomputes(L, N, J_min, lam, sampling, nside, forward, reality):
    """What the precompute transforms take: (full, scaling, [per-scale])."""
    J = j_max(L, lam)
    per = []
    for j in range(J_min, J):
        Lj, Nj, _ = band(L, j, N, lam)
        per.append(_kernel("w", Lj, Nj, reality, sampling, nside, forward).copy())
    Ls = scal_band(L, J_min, lam)
    return (
        _kernel("s", L, 0, reality, sampling, nside, not forward).copy(),
        _kernel("s", Ls, 0, reality, sampling, nside, forward).copy(),
        per,
    )


def wigner_precomputes(L, N, J_min, lam, sampling, nside, forward, reality):
    from . import seams

    out = []
    for j in range(J_min, j_max(L, lam) + 1):
        Lj, Nj, L0 = band(L, j, N, lam)
        out.append(
            seams._generate_precomputes_wigner(
                dict(L=Lj, N=Nj, sampling=sampling, nside=nside, forward=forward, reality=reality, L_lower=L0)
            )
        )
    return out
