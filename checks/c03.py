"""C03: rank selection and the decomposition helpers obey their contracts."""

import warnings

import numpy as np
import scipy.linalg as sla

from pydmd import CDMD, DMD, EDMD, HankelDMD, HODMD, FbDMD, RDMD, SpDMD, DMDc, OptDMD, PiDMD
from pydmd.utils import (
    compute_rank,
    compute_rqb,
    compute_svd,
    compute_tlsq,
    differentiate,
    pseudo_hankel_matrix,
)
from vmon.core import Skip
from vmon.gen import as_layout, orth, pick, random_data

RULE = (
    "Random matrices (real/complex/integer, all aspect ratios incl. single "
    "row/column, flat, decaying and exactly low-rank spectra, scales 1e-6 to "
    "1e6) x every kind of rank request; helper results are compared with "
    "their defining equations and mode counts of fitted models with an "
    "independent rank rule; distinct = distinct (helper, request kind, "
    "spectrum, dtype, aspect) tuples."
)
ASSUMPTIONS = [
    "cases where the requested threshold falls within 1e-9 of a singular-value "
    "tie are skipped (either rank is correct)",
]


def ref_rank(s, shape, req):
    """Documented rule; None when the answer is a numerical tie."""
    k = len(s)
    if req == 0:
        b = min(shape) / max(shape)
        w = 0.56 * b**3 - 0.95 * b**2 + 1.82 * b + 1.43
        tau = w * np.median(s)
        if np.any(np.abs(s - tau) <= 1e-9 * max(s[0], 1e-300)):
            return None
        return max(1, int(np.sum(s > tau)))
    if 0 < req < 1:
        c = np.cumsum(s**2) / np.sum(s**2)
        if np.any(np.abs(c - req) < 1e-9):
            return None
        return int(min(k, np.sum(c < req) + 1))
    if req >= 1 and isinstance(req, (int, np.integer)):
        return min(int(req), k)
    return min(shape)


def request(rng, k):
    kind = pick(rng, ["0", "-1", "int", "int", "big", "float", "float", "npint"])
    v = {
        "0": 0,
        "-1": -1,
        "int": int(rng.integers(1, k + 1)),
        "big": k + int(rng.integers(1, 30)),
        "float": float(rng.uniform(0.01, 0.9999)),
        "npint": np.int64(rng.integers(1, k + 1)),
    }[kind]
    return kind, v


def matrix(rng, n=None, m=None):
    top = 25 if rng.random() < 0.95 else 110
    n = int(rng.integers(1, top)) if n is None else n
    m = int(rng.integers(1, top)) if m is None else m
    cplx = bool(rng.integers(2))
    k = min(n, m)
    spec = pick(rng, ["flat", "decay", "lowrank", "gap", "gauss", "int"])
    if spec == "gauss":
        X = rng.standard_normal((n, m)) + 1j * cplx * rng.standard_normal((n, m))
        X = X if cplx else X.real
    elif spec == "int":
        return rng.integers(-9, 10, (n, m)), spec
    else:
        s = {
            "flat": rng.uniform(0.9, 1.1, k),
            "decay": 0.5 ** np.arange(k) * rng.uniform(0.9, 1.1, k),
            "lowrank": np.where(np.arange(k) < max(1, k // 2), 1.0, 0.0)
            * rng.uniform(0.5, 1.5, k),
            "gap": np.where(np.arange(k) < max(1, k // 3), 1.0, 1e-3)
            * rng.uniform(0.5, 1.5, k),
        }[spec]
        X = (orth(rng, n, k, cplx) * s) @ orth(rng, m, k, cplx).conj().T
    X = X * 10.0 ** rng.integers(-6, 7)
    return as_layout(rng, X), spec


def svd(rng, mon):
    X, spec = matrix(rng)
    kind, req = request(rng, min(X.shape))
    mon.describe(shape=X.shape, spec=spec, req=req, dtype=X.dtype)
    s = sla.svd(X, compute_uv=False, lapack_driver="gesvd")
    ref = ref_rank(s, X.shape, req)
    if s[0] == 0:
        raise Skip()
    keep = X.copy()
    U, sv, V = compute_svd(X, req)
    k = len(sv)
    if ref is not None:
        mon.eq("svd-rank", k, ref, "request %r on %s" % (req, spec))
        mon.eq("compute-rank", int(compute_rank(X, req)), ref, "request %r" % (req,))
    mon.eq("svd-shapes", (U.shape, V.shape), ((X.shape[0], k), (X.shape[1], k)))
    mon.close("singular-values", sv, s[:k], 1e-9, scale=s[0])
    mon.close("left-orthonormal", U.conj().T @ U, np.eye(k), 1e-9)
    mon.close("right-orthonormal", V.conj().T @ V, np.eye(k), 1e-9)
    err = np.linalg.norm(X - (U * sv) @ V.conj().T)
    mon.close("best-approximation", err, np.sqrt(np.sum(s[k:] ** 2)), 1e-8,
              scale=np.linalg.norm(s))
    mon.ok("input-untouched", np.array_equal(X, keep))
    mon.sig("svd", kind, spec, X.dtype.kind, np.sign(X.shape[0] - X.shape[1]),
            min(X.shape) == 1)
    if 0 < req < 1:
        r2 = float(min(0.9999, req * rng.uniform(1.0, 1.3)))
        mon.ok("energy-monotone", compute_rank(X, r2) >= k or ref is None)
        hi = float(np.nextafter(1.0, 0.0))
        mon.le("rank-bounded", compute_rank(X, hi), len(s))


def ties(rng, mon):
    """equal singular values: the energy of j of k of them is exactly j/k"""
    k = int(pick(rng, [2, 4, 8, 16]))
    P = np.eye(k)[rng.permutation(k)] * rng.choice([-1.0, 1.0], k)
    X = np.zeros((k + int(rng.integers(0, 4)), k + int(rng.integers(0, 4))))
    X[:k, :k] = P * 2.0 ** rng.integers(-3, 4)
    s = np.linalg.svd(X, compute_uv=False)
    if not np.all(s[:k] == s[0]) or np.any(s[k:] != 0):
        raise Skip()
    j = int(rng.integers(1, k))
    mon.describe(shape=X.shape, k=k, j=j)
    mon.eq("energy-just-reached", int(compute_rank(X, j / k)), j, "%d of %d" % (j, k))
    mon.eq("energy-just-reached", len(compute_svd(X, j / k)[1]), j, "%d of %d" % (j, k))
    mon.sig("ties", k, j, X.shape)
    # silent sensors: more than half of the singular values are exactly zero,
    # and so is the hard threshold
    Z = np.zeros((2 * k + int(rng.integers(1, 6)), 2 * k + int(rng.integers(1, 6))))
    Z[:k, :k] = P * np.repeat(2.0 ** rng.integers(-3, 4, k // 2), 2)
    if np.any(np.linalg.svd(Z, compute_uv=False)[k:] != 0):
        raise Skip()
    mon.eq("threshold-of-silence", int(compute_rank(Z, 0)), k, Z.shape)
    mon.eq("threshold-of-silence", len(compute_svd(Z, 0)[1]), k, Z.shape)


def tlsq(rng, mon):
    m = int(rng.integers(2, 20))
    n = int(rng.integers(1, 12))
    cplx = bool(rng.integers(2))
    Z = random_data(rng, 2 * n, m, cplx)
    X, Y = as_layout(rng, Z[:n]), as_layout(rng, Z[n:])
    k = int(rng.integers(0, min(2 * n, m) + 4))
    Xd, Yd = compute_tlsq(X, Y, k)
    mon.describe(n=n, m=m, k=k, cplx=cplx)
    if k == 0:
        mon.ok("tlsq-zero-is-identity", np.array_equal(Xd, X) and np.array_equal(Yd, Y))
    else:
        kk = min(k, 2 * n, m)
        _, s, Vh = sla.svd(np.vstack([X, Y]), full_matrices=False,
                           lapack_driver="gesvd")
        if kk < len(s) and (s[kk - 1] - s[kk]) < 1e-6 * s[0]:
            raise Skip()
        P = Vh[:kk].conj().T @ Vh[:kk]
        mon.close("tlsq-projection", Xd, X @ P, 1e-8, scale=np.abs(Z).max())
        mon.close("tlsq-projection", Yd, Y @ P, 1e-8, scale=np.abs(Z).max())
    mon.sig("tlsq", cplx, np.sign(k), k >= min(2 * n, m), np.sign(2 * n - m))


def rqb(rng, mon):
    n, m = int(rng.integers(3, 25)), int(rng.integers(3, 25))
    cplx = bool(rng.integers(2))
    r = int(rng.integers(1, min(n, m) + 1))
    X = (orth(rng, n, r, cplx) * rng.uniform(0.5, 2, r)) @ orth(
        rng, m, r, cplx).conj().T
    X = as_layout(rng, X * 10.0 ** rng.integers(-3, 4))
    kind, req = request(rng, min(n, m))
    if kind in ("0", "float"):
        req = r
    over, it = int(rng.integers(0, 12)), int(rng.integers(0, 4))
    seed = pick(rng, [None, 0, 7])
    tm = None
    if rng.random() < 0.4:
        tm = rng.standard_normal((m, r + int(rng.integers(0, 4))))
    res = compute_rqb(X, req, over, it, tm, seed)
    tgt = min(int(req), min(n, m)) if req >= 1 else min(n, m)
    width = tm.shape[1] if tm is not None else tgt + over
    Q, B, T = res.Q, res.B, res.test_matrix
    mon.describe(n=n, m=m, r=r, req=req, over=over, it=it, given=tm is not None)
    mon.eq("rqb-test-matrix-shape", T.shape, (m, width))
    if tm is not None:
        mon.ok("rqb-given-test-matrix", np.array_equal(T, tm))
    mon.close("rqb-orthonormal", Q.conj().T @ Q, np.eye(Q.shape[1]), 1e-9)
    mon.close("rqb-projection", B, Q.conj().T @ X, 1e-9, scale=np.abs(X).max())
    if width >= r:
        # generic test matrix: the range of X is captured
        c = np.linalg.cond(np.asarray(X).conj() @ T) if False else 1
        mon.close("rqb-range", Q @ B, X, 1e-5 * c, scale=np.abs(X).max())
    if seed is not None and tm is None:
        again = compute_rqb(X, req, over, it, None, seed)
        mon.close("rqb-seed-reproducible", again.test_matrix, T, 1e-15)
        other = compute_rqb(X, req, over, it, None, seed + 1)
        if T.size:
            mon.ok("rqb-seed-matters", not np.allclose(other.test_matrix, T))
    if width >= r and rng.random() < 0.4:
        # the compression an RDMD reports is the one that captures its data
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                d = RDMD(svd_rank=r, seed=seed, oversampling=over, power_iters=it,
                         test_matrix=tm).fit(X)
        except np.linalg.LinAlgError:
            raise Skip()
        C = np.asarray(d.compression_matrix)
        mon.close("compression-orthonormal", C @ C.conj().T, np.eye(len(C)), 1e-9)
        mon.close("compression-captures-data", C.conj().T @ (C @ X), X, 1e-5,
                  scale=np.abs(X).max())
    mon.sig("rqb", cplx, kind, tm is not None, seed, it)


def hankel(rng, mon):
    n, m = int(rng.integers(1, 8)), int(rng.integers(1, 16))
    d = int(rng.integers(1, m + 1))
    X = rng.standard_normal((n, m))
    if rng.integers(2):
        X = X + 1j * rng.standard_normal((n, m))
    X = as_layout(rng, X)
    H = pseudo_hankel_matrix(X, d)
    mon.describe(n=n, m=m, d=d)
    if mon.eq("hankel-shape", H.shape, (n * d, m - d + 1)):
        ref = np.vstack([X[:, k : k + m - d + 1] for k in range(d)])
        mon.ok("hankel-entries", np.array_equal(H, ref), "n=%d m=%d d=%d" % (n, m, d))
    mon.sig("hankel", n, d == 1, d == m, np.iscomplexobj(X))


def diff(rng, mon):
    n, m = int(rng.integers(1, 6)), int(rng.integers(3, 20))
    dt = float(10 ** rng.uniform(-3, 1))
    t = dt * np.arange(m)
    cplx = bool(rng.integers(2))
    c = rng.standard_normal((3, n)) + 1j * cplx * rng.standard_normal((3, n))
    if not cplx:
        c = c.real
    X = c[0][:, None] + c[1][:, None] * t + c[2][:, None] * t**2
    D = c[1][:, None] + 2 * c[2][:, None] * t
    mon.describe(n=n, m=m, dt=dt, cplx=cplx)
    if n == 1 and rng.random() < 0.5:
        X, D = X[0], D[0]
    out = differentiate(as_layout(rng, X) if X.ndim == 2 else X, dt)
    mon.close("finite-difference-exact-on-quadratics", out, np.squeeze(D), 1e-6,
              scale=max(np.abs(D).max(), np.abs(X).max() / dt))
    # linear in the data, and integers are not truncated
    Z = rng.integers(-5, 6, (2, m))
    mon.close("finite-difference-integer", differentiate(Z, dt),
              differentiate(Z.astype(float), dt), 1e-12)
    W = rng.standard_normal((2, m))
    ctr = (W[:, 2:] - W[:, :-2]) / (2 * dt)
    mon.close("finite-difference-central", differentiate(W, dt)[:, 1:-1], ctr, 1e-10)
    mon.raises("finite-difference-rejects", ValueError,
               lambda: differentiate(rng.standard_normal((2, 2, 4)), dt))
    mon.raises("finite-difference-rejects", ValueError,
               lambda: differentiate([1, 2, 3, 4], dt))
    mon.sig("diff", n == 1, X.ndim, cplx)


def counts(rng, mon):
    """Number of modes of fitted models follows the documented rank rule."""
    name = pick(rng, ["DMD", "FbDMD", "CDMD", "HankelDMD", "HODMD", "EDMD", "SpDMD",
                      "DMDc", "OptDMD", "PiDMD", "RDMD"])
    n, m = int(rng.integers(2, 16)), int(rng.integers(6, 22))
    cplx = False if name == "EDMD" else bool(rng.integers(2))
    X = random_data(rng, n, m, cplx, decay=rng.uniform(0.3, 0.97))
    kind, req = request(rng, min(n, m - 1))
    M = X[:, :-1]
    mon.describe(cls=name, n=n, m=m, req=req)
    tl = 0
    try:
        if name in ("DMD", "FbDMD", "SpDMD"):
            if rng.random() < 0.3 and name == "DMD":
                tl = int(rng.integers(2, min(n, m - 1) + 1))
                req = int(rng.integers(1, tl + 1))
                kind = "tlsq"
            kw = {"verbose": False} if name == "SpDMD" else {}
            dmd = {"DMD": DMD, "FbDMD": FbDMD, "SpDMD": SpDMD}[name](
                svd_rank=req, tlsq_rank=tl, **kw).fit(X)
        elif name == "CDMD":
            C = rng.standard_normal((int(rng.integers(n, n + 5)), n))
            dmd = CDMD(svd_rank=req, compression_matrix=C).fit(X)
            M = C @ M
        elif name == "RDMD":
            req = int(rng.integers(1, min(n, m - 1) + 1))
            kind = "int"
            dmd = RDMD(svd_rank=req, seed=1).fit(X)
        elif name in ("HankelDMD", "HODMD"):
            d = int(rng.integers(1, 4))
            H = np.vstack([X[:, k : k + m - d + 1] for k in range(d)])
            M = H[:, :-1]
            if name == "HODMD":
                ex = int(rng.integers(1, n + 1))
                U, s, _ = np.linalg.svd(X, full_matrices=False)
                ex = min(ex, len(s))
                if n == 1:
                    ex = 1
                Z = U[:, :ex].conj().T @ X
                M = np.vstack([Z[:, k : k + m - d + 1] for k in range(d)])[:, :-1]
                if isinstance(req, (int, np.integer)) and req <= 0 and ex * d > min(M.shape):
                    pass
                dmd = HODMD(svd_rank=req, svd_rank_extra=ex, d=d).fit(X)
            else:
                dmd = HankelDMD(svd_rank=req, d=d).fit(X)
        elif name == "EDMD":
            if req == 0:
                raise Skip()
            dmd = EDMD(svd_rank=req).fit(X)
        elif name == "DMDc":
            u = rng.standard_normal((1, m - 1))
            if rng.integers(2):
                dmd = DMDc(svd_rank=req).fit(X, u)
                M = X[:, 1:]
            else:
                dmd = DMDc(svd_rank=req).fit(X, u, rng.standard_normal((n, 1)))
        elif name == "OptDMD":
            dmd = OptDMD(svd_rank=req).fit(X)
            Y = X[:, 1:]
            V = np.linalg.svd(M, full_matrices=False)[2]
            M = Y @ V.conj().T @ V
        else:
            dmd = PiDMD("unitary", svd_rank=req).fit(X)
    except np.linalg.LinAlgError:
        raise Skip()
    s = sla.svd(M, compute_uv=False)
    ref = ref_rank(s, M.shape, req)
    if name == "EDMD":
        G = M.conj().T @ M
        g = np.sqrt(np.sort(np.abs(np.linalg.eigvalsh(G)))[::-1])
        ref = ref_rank(g, G.shape, req)
        if not (isinstance(req, (int, np.integer)) and 0 < req <= min(M.shape)):
            # beyond the numerical rank only an upper bound is meaningful
            if 0 < req < 1 and ref is not None:
                mon.eq("mode-count", len(dmd.eigs), ref, "%s %r" % (name, req))
            return
    if ref is None:
        raise Skip()
    mon.eq("mode-count", len(np.asarray(dmd.eigs)), ref, "%s request %r" % (name, req))
    mon.eq("mode-count", np.asarray(dmd.modes).shape[1], ref, name)
    mon.sig("count", name, kind, cplx)


WORKLOADS = {
    "svd": {"fn": svd, "quick": 3000, "thorough": 60000},
    "ties": {"fn": ties, "quick": 100, "thorough": 1000},
    "tlsq": {"fn": tlsq, "quick": 1200, "thorough": 20000},
    "rqb": {"fn": rqb, "quick": 1200, "thorough": 20000},
    "hankel": {"fn": hankel, "quick": 600, "thorough": 6000},
    "diff": {"fn": diff, "quick": 400, "thorough": 4000},
    "counts": {"fn": counts, "quick": 3000, "thorough": 40000},
}
REQUIRED = {
    "svd-rank": 1000,
    "best-approximation": 1000,
    "tlsq-projection": 500,
    "rqb-range": 200,
    "rqb-orthonormal": 500,
    "hankel-entries": 300,
    "finite-difference-exact-on-quadratics": 200,
    "mode-count": 1500,
}
