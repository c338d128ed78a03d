"""Input generators with known ground truth and controlled conditioning."""

import numpy as np
from vmon.core import Skip


def orth(rng, n, r, cplx=False):
    a = rng.standard_normal((n, r))
    if cplx:
        a = a + 1j * rng.standard_normal((n, r))
    return np.linalg.qr(a)[0][:, :r]


def well_conditioned(rng, n, r, cplx=False, lo=0.5, hi=2.0):
    u = orth(rng, n, r, cplx)
    v = orth(rng, r, r, cplx)
    return (u * rng.uniform(lo, hi, r)) @ v.conj().T


def distinct_angles(rng, k, lo, hi, sep):
    """k angles in [lo, hi] pairwise at least `sep` apart."""
    span = (hi - lo) - (k - 1) * sep
    if span < 0:
        raise Skip()
    x = np.sort(rng.uniform(0, span, k)) + sep * np.arange(k)
    return rng.permutation(lo + x)


class Linear:
    """x_{j} = Phi diag(eigs)^j b, j = 0..m-1 (exact linear dynamics)."""

    def __init__(self, Phi, eigs, b, m, real):
        self.Phi, self.eigs, self.b, self.m, self.real = Phi, eigs, b, m, real
        self.r = len(eigs)
        self.n = Phi.shape[0]

    def at(self, steps):
        steps = np.atleast_1d(np.asarray(steps, dtype=float))
        x = (self.Phi * self.b) @ np.power(
            self.eigs[:, None].astype(complex), steps[None]
        )
        return x.real.copy() if self.real and np.allclose(
            steps, np.round(steps)
        ) else x

    @property
    def X(self):
        return self.at(np.arange(self.m))

    @property
    def A(self):
        """A linear map (n x n) with A x_j = x_{j+1}."""
        a = (self.Phi * self.eigs) @ np.linalg.pinv(self.Phi)
        return a.real if self.real else a

    def dyn_cond(self, m=None):
        m = self.m if m is None else m
        V = np.power(
            self.eigs[:, None].astype(complex), np.arange(m)[None]
        ) * self.b[:, None]
        s = np.linalg.svd(V, compute_uv=False)
        return s[0] / max(s[-1], 1e-300)


def linear_system(
    rng,
    n=None,
    r=None,
    m=None,
    real=None,
    rho=(0.85, 1.05),
    unit=False,
    max_cond=300.0,
    real_eig=None,
    sep=0.3,
    orthonormal=False,
):
    """Random low-rank linear system with distinct eigenvalues.  Where the
    caller leaves the size open, a few systems are large and a few are in
    units far from one."""
    unitless, reals_ = 1.0, None
    if n is None and rng.random() < 0.06:
        unitless = 10.0 ** rng.uniform(-8, 8)
    if n is None and m is None and rng.random() < 0.04:
        r = int(rng.integers(1, 10)) if r is None else r
        n = int(rng.integers(40, 160))
        m = int(rng.integers(40, 120))
        rho, reals_ = (0.985, 1.01), np.array([1.0, -0.99, 0.97])
    for _ in range(200):
        real_ = bool(rng.integers(2)) if real is None else real
        r_ = int(rng.integers(1, 7)) if r is None else r
        n_ = int(rng.integers(max(2, r_), 25)) if n is None else n
        m_ = int(rng.integers(2 * r_ + 4, 2 * r_ + 24)) if m is None else m
        if real_:
            nreal = r_ % 2
            if r_ >= 3 and (real_eig or (real_eig is None and rng.random() < 0.3)):
                nreal += 2
            npair = (r_ - nreal) // 2
            try:
                th = distinct_angles(rng, npair, 0.25, np.pi - 0.25, sep)
            except Skip:
                continue
            mag = np.ones(npair) if unit else rng.uniform(*rho, npair)
            lam = mag * np.exp(1j * th)
            reals = np.array([0.95, -0.9, 0.6])[:nreal] * rng.uniform(
                0.95, 1.05, nreal
            )
            if reals_ is not None:
                reals = reals_[:nreal]
            if unit:
                reals = np.sign(reals)
            if nreal == 3 and unit:
                continue
            eigs = np.concatenate(
                [np.stack([lam, lam.conj()], 1).ravel(), reals.astype(complex)]
            )
            W = orth(rng, n_, r_) if orthonormal else well_conditioned(
                rng, n_, r_
            )
            cols = []
            for i in range(npair):
                a, c = W[:, 2 * i], W[:, 2 * i + 1]
                cols += [a + 1j * c, a - 1j * c]
            for i in range(nreal):
                cols.append(W[:, 2 * npair + i].astype(complex))
            Phi = np.stack(cols, 1)
            bp = rng.uniform(0.6, 2.0, npair) * np.exp(
                1j * rng.uniform(0, 2 * np.pi, npair)
            )
            b = np.concatenate(
                [
                    np.stack([bp, bp.conj()], 1).ravel(),
                    rng.uniform(0.6, 2.0, nreal).astype(complex),
                ]
            )
        else:
            try:
                th = distinct_angles(rng, r_, -np.pi + 0.2, np.pi - 0.2, sep)
            except Skip:
                continue
            mag = np.ones(r_) if unit else rng.uniform(*rho, r_)
            eigs = mag * np.exp(1j * th)
            Phi = (
                orth(rng, n_, r_, True)
                if orthonormal
                else well_conditioned(rng, n_, r_, True)
            )
            b = rng.uniform(0.6, 2.0, r_) * np.exp(
                1j * rng.uniform(0, 2 * np.pi, r_)
            )
        s = Linear(Phi, eigs, b * unitless, m_, real_)
        if s.dyn_cond(m_ - 1) < max_cond:
            return s
    raise Skip()


def random_data(rng, n=None, m=None, cplx=None, decay=None, scale=None):
    """Generic full-rank data with a controlled, well separated spectrum."""
    n = int(rng.integers(3, 20)) if n is None else n
    m = int(rng.integers(4, 24)) if m is None else m
    cplx = bool(rng.integers(2)) if cplx is None else cplx
    k = min(n, m)
    decay = rng.uniform(0.6, 0.95) if decay is None else decay
    s = decay ** np.arange(k) * rng.uniform(0.99, 1.01, k)
    X = (orth(rng, n, k, cplx) * s) @ orth(rng, m, k, cplx).conj().T
    if scale is None:
        scale = 10.0 ** rng.integers(-1, 3)
        if rng.random() < 0.06:
            scale = 10.0 ** rng.uniform(-8, 8)
    return X * scale


def match_eigs(a, b):
    """Optimal one-to-one matching; returns (max distance, perm of b)."""
    from scipy.optimize import linear_sum_assignment

    a, b = np.asarray(a), np.asarray(b)
    D = np.abs(a[:, None] - b[None])
    i, j = linear_sum_assignment(D)
    return (D[i, j].max() if len(i) else 0.0), j


def subspace_dist(A, B):
    """Largest principal angle sine between column spaces."""
    qa = np.linalg.qr(A)[0]
    qb = np.linalg.qr(B)[0]
    return np.linalg.norm(qb - qa @ (qa.conj().T @ qb), 2)


def ndshape(rng, n):
    """A random factorisation of n into a snapshot shape (2D or 3D)."""
    divs = [d for d in range(1, n + 1) if n % d == 0]
    a = int(rng.choice(divs))
    rest = n // a
    divs2 = [d for d in range(1, rest + 1) if rest % d == 0]
    b = int(rng.choice(divs2))
    return (a, b, rest // b) if rng.random() < 0.4 else (a, rest)


def as_layout(rng, X):
    """Same values, hostile memory layout (C, F, strided view, reversed, and
    axes stored in any order when there are three or more)."""
    k = rng.integers(4 if X.ndim < 3 else 6)
    if k >= 4:
        o = rng.permutation(X.ndim)
        return np.ascontiguousarray(X.transpose(o)).transpose(np.argsort(o))
    if k == 0:
        return np.ascontiguousarray(X)
    if k == 1:
        return np.asfortranarray(X)
    if k == 2:
        big = np.full(tuple(2 * d for d in X.shape), 7.77, dtype=X.dtype)
        v = big[tuple(slice(None, None, 2) for _ in X.shape)]
        v[...] = X
        return v
    return np.ascontiguousarray(X[..., ::-1])[..., ::-1]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


class Cont:
    """x(t) = Phi diag(exp(omega t)) b (continuous-time linear dynamics)."""

    def __init__(self, Phi, omega, b, real):
        self.Phi, self.omega, self.b, self.real = Phi, omega, b, real
        self.r, self.n = len(omega), Phi.shape[0]

    def at(self, t):
        x = (self.Phi * self.b) @ np.exp(np.outer(self.omega, np.asarray(t)))
        return x.real.copy() if self.real else x

    def cond(self, t):
        V = np.exp(np.outer(self.omega, np.asarray(t))) * np.abs(self.b)[:, None]
        s = np.linalg.svd(V, compute_uv=False)
        return s[0] / max(s[-1], 1e-300)


def cont_system(rng, n=None, r=None, real=None, t=None, damp=0.15, imag=None,
                wmax=None, max_cond=30.0, stable=False):
    """Slow, well separated continuous-time system for the time vector t: its
    frequencies are resolved by the sampling and distinguishable over the
    window.  damp: largest |real part| times the window length; imag=True
    makes the eigenvalues purely imaginary; stable=True keeps them decaying."""
    T = float(t[-1] - t[0])
    dt = float(np.max(np.diff(t)))
    for _ in range(300):
        real_ = bool(rng.integers(2)) if real is None else real
        r_ = int(rng.integers(1, 5)) if r is None else r
        if real_ and r_ % 2:
            r_ += 1
        n_ = int(rng.integers(max(2, r_), 16)) if n is None else n
        hi = min(0.9 / dt, 2 * np.pi * (r_ + 2) / T) if wmax is None else wmax
        sep = 2 * np.pi / T * 0.9
        try:
            if real_:
                w = distinct_angles(rng, r_ // 2, sep * 0.6, hi, sep)
            else:
                w = distinct_angles(rng, r_, -hi, hi, sep)
        except Skip:
            continue
        a = np.zeros(len(w)) if imag else rng.uniform(
            -1, -0.05 if stable else 1, len(w)) * damp / T * 6
        om = a + 1j * w
        if real_:
            W = well_conditioned(rng, n_, r_)
            Phi = np.concatenate([W[:, ::2] + 1j * W[:, 1::2],
                                  W[:, ::2] - 1j * W[:, 1::2]], 1)
            om = np.concatenate([om, om.conj()])
            bp = rng.uniform(0.7, 1.5, r_ // 2) * np.exp(1j * rng.uniform(0, 6.28, r_ // 2))
            b = np.concatenate([bp, bp.conj()])
        else:
            Phi = well_conditioned(rng, n_, r_, True)
            b = rng.uniform(0.7, 1.5, r_) * np.exp(1j * rng.uniform(0, 6.28, r_))
        s = Cont(Phi, om, b, real_)
        if s.cond(t) < max_cond:
            return s
    raise Skip()
