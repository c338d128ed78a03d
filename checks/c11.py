"""C11: delay embeddings (HankelDMD, HODMD, HAVOK, hankel preprocessing)."""

import numpy as np
import scipy.linalg as sl

from pydmd import DMD, HAVOK, HODMD, HankelDMD
from pydmd.preprocessing import hankel_preprocessing
from vmon.core import Skip
from vmon.gen import as_layout, linear_system, match_eigs, pick, random_data

RULE = (
    "HankelDMD/HODMD/HAVOK fitted on exact linear signals and on generic data "
    "with random delays, lags, ranks, reconstruction methods and time windows; "
    "delay matrices, spectra, reconstructions and forced integrations are "
    "recomputed independently; distinct = distinct (class, d, method, window) "
    "tuples."
)
ASSUMPTIONS = [
    "ground truth comparisons use signals whose delay matrix has a condition "
    "number below 1e4 on the signal subspace",
    "fully observed instants only for lag > number of Hankel columns",
]
CASE_TIMEOUT = 60


def delay(X, d):
    m = X.shape[1]
    return np.concatenate([X[:, k:m - d + 1 + k] for k in range(d)], axis=0)


def expected(modes, amps, eigs, n, d, method, steps):
    """Reconstruct at `steps` (units of the original timestep) from the modes:
    instants with the same fractional phase share one range of delay columns."""
    out = np.zeros((n, len(steps)), dtype=complex)
    phase = np.round(steps - np.floor(steps), 5) % 1.0
    for p in np.unique(phase):
        idx = np.flatnonzero(phase == p)
        k = np.round(steps[idx] - p).astype(int)

        def col(i):
            return min(i, max(0, i - d + 1))

        c = np.arange(col(k[0]), col(k[-1]) + 1)
        Z = (modes * amps) @ np.power(eigs[:, None].astype(complex), (c + p)[None])
        for j, kk in zip(idx, k):
            occ = [(b, kk - b - c[0]) for b in range(d) if 0 <= kk - b - c[0] < len(c)]
            vals = np.array([Z[b * n:(b + 1) * n, q] for b, q in occ])
            if isinstance(method, str) and method == "first":
                out[:, j] = vals[int(np.argmax([b for b, _ in occ]))]
            elif isinstance(method, str):
                out[:, j] = vals.mean(0)
            else:
                w = np.array([method[b] for b, _ in occ])
                out[:, j] = (w[:, None] * vals).sum(0) / w.sum()
    return out


def window(rng, m):
    """(t0, tend, dt) in units of the original timestep."""
    w = pick(rng, ["own", "forecast", "later", "hindcast", "before", "fine", "coarse", "inner",
                   "offgrid"])
    if w == "own":
        return w, 0, m - 1, 1.0
    if w == "forecast":
        return w, int(rng.integers(0, m)), m - 1 + int(rng.integers(1, 8)), 1.0
    if w == "later":
        a = m + int(rng.integers(0, 6))
        return w, a, a + int(rng.integers(0, 6)), 1.0
    if w == "hindcast":
        return w, -int(rng.integers(1, 6)), m - 1, 1.0
    if w == "before":
        a = -int(rng.integers(4, 8))
        return w, a, a + int(rng.integers(0, 4)), 1.0
    if w == "fine":
        return w, int(rng.integers(0, 3)), m - 1, float(pick(rng, [0.5, 0.25, 0.125]))
    if w == "coarse":
        s = int(rng.integers(2, 4))
        return w, int(rng.integers(0, 3)), int(rng.integers(0, 3)) + s * 4, float(s)
    if w == "inner":
        a = int(rng.integers(0, m - 2))
        return w, a, int(rng.integers(a, m)), 1.0
    return w, 0.5 + int(rng.integers(-2, 3)), m - 0.5, 1.0


def hankel_family(rng, mon):
    cls = pick(rng, [HankelDMD, HankelDMD, HODMD])
    d = int(rng.integers(1, 6))
    exact_sys = rng.random() < 0.5
    if exact_sys:
        s = linear_system(rng, r=int(rng.integers(1, 5)), rho=(0.93, 1.04))
        n, m = s.n, s.m + d
        X = s.at(np.arange(m))
        rank = s.r
    else:
        X = random_data(rng, n=int(rng.integers(2, 8)), m=int(rng.integers(10, 20)))
        n, m = X.shape
        d = min(d, m - 4)
        rank = int(rng.integers(1, min(n * d, m - d) + 1))
    meth = pick(rng, ["first", "mean", "array", "list"])
    if meth == "array":
        method = rng.uniform(0.1, 2.0, d)
    elif meth == "list":
        method = [float(x) for x in rng.uniform(0.1, 2.0, d)]
    else:
        method = meth
    kw = dict(svd_rank=rank, exact=bool(rng.integers(2)), opt=bool(rng.integers(2)))
    if cls is HODMD:
        kw["svd_rank_extra"] = -1
    dmd = cls(d=d, reconstruction_method=method, **kw)
    dmd.fit(as_layout(rng, X))
    H = delay(X, d)
    mon.describe(cls=cls.__name__, d=d, n=n, m=m, method=meth, kw=kw)
    if cls is HankelDMD:
        mon.close("delay-matrix", dmd.ho_snapshots, H, 1e-12)
    # the sub-problem is plain DMD of the delay matrix
    Z = H
    if cls is HODMD:
        # projected on the left singular vectors of the data
        U = np.linalg.svd(X, full_matrices=False)[0]
        Z = delay(U.conj().T @ X, d)
        mon.ok("delay-matrix-of-projected-data",
               np.allclose(np.abs(np.linalg.svd(dmd.ho_snapshots, compute_uv=False)),
                           np.linalg.svd(H, compute_uv=False), atol=1e-8 * np.abs(H).max()))
    ref = DMD(**{k: v for k, v in kw.items() if k != "svd_rank_extra"}).fit(Z)
    sv = np.linalg.svd(Z[:, :-1], compute_uv=False)
    if rank < len(sv) and sv[rank - 1] / max(sv[rank], 1e-300) < 1.05:
        raise Skip()
    gap = sv[0] / sv[rank - 1]
    if gap > 1e4:
        raise Skip()
    V = np.linalg.eig(ref.operator.as_numpy_array)[1]
    if np.linalg.cond(V) > 1e3:
        raise Skip()
    dist, _ = match_eigs(ref.eigs, dmd.eigs)
    mon.close("eigenvalues-of-delay-matrix", dist, 0.0, 1e-6, scale=1.0)
    if exact_sys:
        dist, _ = match_eigs(s.eigs, dmd.eigs)
        mon.close("signal-eigenvalues", dist, 0.0, 1e-6, scale=1.0)
    # reconstruction over arbitrary windows and time axes
    a0 = float(pick(rng, [0, 0, 3, -2.5]))
    h = float(pick(rng, [1, 1, 0.1, 0.5, 4]))
    if rng.random() < 0.5:
        dmd.original_time["t0"] = dmd.dmd_time["t0"] = a0
        dmd.original_time["dt"] = dmd.dmd_time["dt"] = h
        dmd.original_time["tend"] = dmd.dmd_time["tend"] = a0 + (m - 1) * h
    else:
        a0, h = 0.0, 1.0
    modes, amps, eigs = (np.array(x) for x in (dmd.modes, dmd.amplitudes, dmd.eigs))
    for _ in range(4):
        w, t0, tend, dt = window(rng, m)
        tend = max(t0, tend)
        tend = t0 + np.floor((tend - t0) / dt + 1e-9) * dt
        if (w in ("hindcast", "before") or t0 < 0) and np.abs(eigs).min() < 0.3:
            continue
        if min(np.abs(eigs)) < 1e-3:
            continue
        if w in ("fine", "offgrid") and np.abs(np.angle(eigs)).max() > 3.0:
            continue
        dmd.dmd_time["t0"] = a0 + t0 * h
        dmd.dmd_time["tend"] = a0 + tend * h
        dmd.dmd_time["dt"] = dt * h
        steps = t0 + dt * np.arange(int(round((tend - t0) / dt)) + 1)
        mm = modes
        want = expected(mm, amps, eigs, mm.shape[0] // d, d, method, steps)
        if cls is HODMD:
            # the modes live in delayed projected coordinates
            rec = dmd.reconstructed_data
            mon.eq("shape", rec.shape, (n, len(steps)), w)
            scale = max(1e-9, np.abs(want).max())
            mon.close("reconstruction-size", np.linalg.norm(rec, axis=0),
                      np.linalg.norm(want, axis=0), 1e-6, (w, d, meth), scale=scale)
        else:
            rec = dmd.reconstructed_data
            scale = max(1e-9, np.abs(want).max())
            mon.close("reconstruction", rec, want, 1e-7, (w, d, meth), scale=scale)
        if exact_sys and (kw["exact"] or not kw["opt"]):  # see the finding on C05
            truth = (s.Phi * s.b) @ np.power(s.eigs[:, None], steps[None])
            mon.close("signal-reproduced", rec, truth, 1e-5, (w, d, meth, kw),
                      scale=max(np.abs(truth).max(), np.abs(X).max()))
        mon.event("window:" + w)
        mon.sig(cls.__name__, d, meth, w, exact_sys, np.iscomplexobj(X))


def wrapper(rng, mon):
    """hankel_preprocessing around a DMD: same delay matrix, first..last+d-1"""
    d = int(rng.integers(1, 5))
    X = random_data(rng, n=int(rng.integers(2, 7)), m=int(rng.integers(9, 16)))
    if rng.random() < 0.2:
        d = int(rng.integers(5, 16))
        X = random_data(rng, n=int(rng.integers(1, 4)), m=d + int(rng.integers(6, 20)))
    n, m = X.shape
    meth = pick(rng, ["first", "mean", "array", "tuple"])
    w = rng.uniform(0.1, 2, d)
    method = {"array": w, "tuple": tuple(w)}.get(meth, meth)
    rank = int(rng.integers(1, min(n * d, m - d) + 1))
    w = hankel_preprocessing(DMD(svd_rank=rank), d=d, reconstruction_method=method)
    w.fit(X)
    mon.describe(d=d, n=n, m=m, method=meth)
    mon.close("wrapper-delay-matrix", w.snapshots, delay(X, d), 1e-12)
    if np.abs(w.eigs).min() < 1e-3:
        raise Skip()
    rec = np.asarray(w.reconstructed_data)
    mon.eq("wrapper-shape", rec.shape, X.shape)
    want = expected(w.modes, w.amplitudes, w.eigs, n, d, method, np.arange(m, dtype=float))
    mon.close("wrapper-reconstruction", rec, want, 1e-8, meth, scale=max(1e-9, np.abs(want).max()))
    mon.sig("wrapper", d, meth, np.iscomplexobj(X))


def too_short(rng, mon):
    d = int(rng.integers(2, 8))
    n = int(rng.integers(1, 4))
    X = rng.standard_normal((n, d - 1)) if d > 2 else rng.standard_normal((n, 1))
    cls = pick(rng, [HankelDMD, HODMD])
    mon.raises("too-few-snapshots", ValueError, lambda: cls(d=d, svd_rank=1).fit(X))
    mon.raises("wrong-weights", ValueError, lambda: cls(
        d=d, reconstruction_method=pick(rng, [[1.0] * (d + 1), np.ones(d - 1), np.ones((d, 2))])))
    k, lag = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    hv = HAVOK(delays=k, lag=lag, svd_rank=2)
    need = lag * (k - 1) + 1
    mon.raises("havok-too-few", ValueError, lambda: hv.hankel(rng.standard_normal(need - 1)))
    mon.eq("havok-just-enough", hv.hankel(rng.standard_normal(need)).shape, (k, 1))
    mon.sig(cls.__name__, d, k, lag)


def deriv(V, dt):
    D = np.empty_like(V)
    D[1:-1] = (V[2:] - V[:-2]) / (2 * dt)
    D[0] = (-1.5 * V[0] + 2 * V[1] - 0.5 * V[2]) / dt
    D[-1] = (1.5 * V[-1] - 2 * V[-2] + 0.5 * V[-3]) / dt
    return D


def foh(A, B, u, dt, v0):
    """exact solution of v' = A v + B u with u linear between the samples"""
    k, q = A.shape[0], B.shape[1]
    M = np.zeros((k + 2 * q, k + 2 * q))
    M[:k, :k], M[:k, k:k + q] = A, B
    M[k:k + q, k + q:] = np.eye(q) / dt
    E = sl.expm(M * dt)
    V = np.empty((len(u), k))
    V[0] = v0
    for i in range(len(u) - 1):
        V[i + 1] = E[:k, :k] @ V[i] + E[:k, k:k + q] @ u[i] + E[:k, k + q:] @ (u[i + 1] - u[i])
    return V


def havok(rng, mon):
    n = pick(rng, [1, 1, 2])
    k = int(rng.integers(4, 14))
    lag = int(rng.integers(1, 4))
    m = int(rng.integers(90, 160)) + lag * k
    dt = float(pick(rng, [0.02, 0.05, 0.1]))
    t0 = float(pick(rng, [0, 0, 2.5, -4]))
    t = t0 + np.arange(m) * dt
    ws = rng.uniform(0.5, 1.0, 3) * np.array([1.0, 2.6, 5.2]) * (0.05 / dt) ** 0.5
    X = np.stack([sum(rng.uniform(0.5, 1.5) * np.cos(w * t + rng.uniform(0, 6.28)) for w in ws)
                  for _ in range(n)]) + 0.05 * rng.standard_normal((n, m))
    r = int(rng.integers(3, min(8, n * k) + 1))
    q = int(rng.integers(1, 3))
    q = min(q, r - 1)
    st = bool(rng.integers(2))
    hv = HAVOK(svd_rank=r, delays=k, lag=lag, num_chaos=q, structured=st,
               lstsq=bool(rng.integers(2)))
    Xin = X[0] if n == 1 and rng.random() < 0.5 else X
    hv.fit(as_layout(rng, Xin), t if t0 or rng.random() < 0.5 else dt)
    mon.describe(n=n, m=m, delays=k, lag=lag, r=r, q=q, structured=st, dt=dt, t0=t0)
    mon.sig("havok", n, lag, q, st, t0 != 0)
    Hm = m - (k - 1) * lag
    H = np.concatenate([X[:, i * lag:i * lag + Hm] for i in range(k)])
    mon.close("havok-hankel", hv.ho_snapshots, H, 1e-12)
    mon.close("havok-hankel", hv.hankel(X), H, 1e-12)
    mon.close("havok-dehankel-inverts", hv.dehankel(hv.hankel(X)), np.squeeze(X), 1e-12)
    mon.close("havok-time", hv.time, t, 1e-10)
    Hs = H[:, :-1] if st else H
    U, s, V = hv.modes, hv.singular_vals, hv.delay_embeddings
    mon.eq("havok-rank", (U.shape, s.shape, V.shape, hv.r),
           ((n * k, r), (r,), (Hs.shape[1], r), r))
    mon.close("havok-modes-orthonormal", U.T @ U, np.eye(r), 1e-9)
    mon.close("havok-embeddings-orthonormal", V.T @ V, np.eye(r), 1e-9)
    sv = np.linalg.svd(Hs, compute_uv=False)
    mon.close("havok-singular-values", s, sv[:r], 1e-9)
    mon.close("havok-factorisation", U.T @ Hs, s[:, None] * V.T, 1e-8)
    mon.eq("havok-split", (hv.linear_dynamics.shape[1], hv.forcing.shape[1]), (r - q, q))
    mon.close("havok-split-values", np.hstack([hv.linear_dynamics, hv.forcing]), V, 1e-14)
    # regression
    sep = np.min(sv[:r] / np.maximum(sv[1:r + 1], 1e-300)) if r < len(sv) else 2.0
    if st:
        if sep < 1.1:
            raise Skip()
        U2, s2, V2h = np.linalg.svd(H[:, 1:], full_matrices=False)
        V2 = V2h[:r].T * np.where(np.sum(U * U2[:, :r], 0) < 0, -1, 1)
        if np.min(np.abs(np.sum(U * U2[:, :r], 0))) < 0.3:
            raise Skip()
        Vd = (V2 - V) / dt
    else:
        Vd = deriv(V, dt)
    K = Vd.T @ V  # V has orthonormal columns
    mon.close("havok-operator", hv.operator, K, 1e-7, "structured=%s" % st)
    mon.close("havok-A", hv.A, K[:-q, :-q], 1e-7, scale=np.abs(K).max())
    mon.close("havok-B", hv.B, K[:-q, -q:], 1e-7, scale=np.abs(K).max())
    dist, _ = match_eigs(np.linalg.eigvals(hv.A), hv.eigs)
    mon.close("havok-eigs", dist, 0.0, 1e-7, scale=max(1.0, np.abs(hv.eigs).max()))
    # forced integration
    T = len(V) * dt
    if np.max(hv.eigs.real) * T > 8:
        raise Skip()
    E = foh(hv.A, hv.B, hv.forcing, dt, hv.linear_dynamics[0])
    sc = max(np.abs(E).max(), 1e-9)
    mon.close("havok-reconstructed-embeddings", hv.reconstructed_embeddings, E, 1e-6, scale=sc)
    Hr = (U[:, :r - q] * s[:r - q]) @ E.T
    D = np.full((n, Hs.shape[1] + (k - 1) * lag), np.nan)
    for i in range(k):
        D[:, i * lag:i * lag + Hs.shape[1]] = Hr[i * n:(i + 1) * n]
    mon.close("havok-reconstruction", hv.reconstructed_data, np.squeeze(D), 1e-6,
              scale=max(np.abs(D).max(), np.abs(X).max()))
    # predictions from custom forcing, times and initial conditions
    L = int(rng.integers(5, 30))
    i0 = int(rng.integers(0, len(V) - L))
    f = hv.forcing[i0:i0 + L] + 0.01 * rng.standard_normal((L, q))
    tp = pick(rng, [0.0, t0, 7.0]) + np.arange(L) * dt
    v0 = pick(rng, [i0, i0 - len(hv.linear_dynamics), None])
    start = hv.linear_dynamics[i0] if v0 is not None else rng.standard_normal(r - q) * 0.1
    E = foh(hv.A, hv.B, f, dt, start)
    Hr = (U[:, :r - q] * s[:r - q]) @ E.T
    D = np.full((n, L + (k - 1) * lag), np.nan)
    for i in range(k):
        D[:, i * lag:i * lag + L] = Hr[i * n:(i + 1) * n]
    got = hv.predict(f, tp, V0=v0 if v0 is not None else start)
    D = np.squeeze(D)
    ok = ~np.isnan(D)
    mon.eq("havok-predict-shape", got.shape, D.shape)
    if got.shape == D.shape:
        mon.close("havok-predict", got[ok], D[ok], 1e-6, scale=max(np.abs(D[ok]).max(), 1e-9))
    # thresholds
    fq = int(rng.integers(q))
    hy, hx = np.histogram(hv.forcing[:, fq], bins=50)
    hx = 0.5 * (hx[1:] + hx[:-1])
    c = np.cumsum(hy / hy.sum())
    for p in (0.02, 0.1, 0.4):
        lo = hx[np.argmax(c > 0.5 * p)]
        hi = hx[np.argmax(1 - c < 0.5 * p)]
        if np.min(np.abs(c - 0.5 * p)) > 1e-9 and np.min(np.abs(1 - c - 0.5 * p)) > 1e-9:
            mon.close("threshold-by-probability", hv.compute_threshold(fq, p=p),
                      0.5 * (abs(lo) + abs(hi)), 1e-9, p)
    g = np.exp(-0.5 * ((hx - hv.forcing[:, fq].mean()) / hv.forcing[:, fq].std()) ** 2)
    a = g / g.sum() - hy / hy.sum()
    i = np.flatnonzero(a[:-1] * a[1:] < 0)
    cand = np.sort(0.5 * (np.abs(hx[i]) + np.abs(hx[i + 1])))
    if len(cand) and np.abs(a).min() > 1e-12:
        p = int(rng.integers(len(cand)))
        mon.close("threshold-by-gaussian", hv.compute_threshold(fq, p=p), cand[p], 1e-9, p)


def havok_truth(rng, mon):
    """a pure sinusoid pair: the linear model recovers the frequencies"""
    k = int(rng.integers(20, 40))
    dt = 0.01
    m = 600
    t = np.arange(m) * dt
    w = np.array([rng.uniform(1.5, 3), rng.uniform(6, 9)])
    x = np.cos(w[0] * t + rng.uniform(0, 6)) + 0.6 * np.cos(w[1] * t + rng.uniform(0, 6))
    x = x + 1e-4 * rng.standard_normal(m)
    st = bool(rng.integers(2))
    hv = HAVOK(svd_rank=5, delays=k, lag=2, num_chaos=1, structured=st).fit(x, dt)
    want = np.array([1j * w[0], -1j * w[0], 1j * w[1], -1j * w[1]])
    dist, _ = match_eigs(want, hv.eigs)
    mon.describe(w=w, delays=k, structured=st)
    mon.sig("havok-truth", st)
    mon.close("havok-frequencies", dist, 0.0, 0.25, scale=8.0 if st else 1.0)


WORKLOADS = {
    "hankel-family": {"fn": hankel_family, "quick": 1200, "thorough": 26000},
    "wrapper": {"fn": wrapper, "quick": 300, "thorough": 5000},
    "rejects": {"fn": too_short, "quick": 80, "thorough": 800},
    "havok": {"fn": havok, "quick": 400, "thorough": 8000},
    "havok-truth": {"fn": havok_truth, "quick": 40, "thorough": 600},
}
REQUIRED = {
    "delay-matrix": 300,
    "eigenvalues-of-delay-matrix": 300,
    "signal-reproduced": 500,
    "reconstruction": 800,
    "havok-operator": 100,
    "havok-reconstructed-embeddings": 80,
    "havok-predict": 80,
    "threshold-by-probability": 200,
}
