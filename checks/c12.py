"""C12: DMD with control identifies and simulates the forced linear system."""

import numpy as np

from pydmd import DMD, DMDc
from vmon.core import Skip
from vmon.gen import as_layout, linear_system, match_eigs, ndshape, orth, pick, random_data

RULE = (
    "Forced linear systems x(j+lag) = A x(j) + B u(j) with random spectra, "
    "inputs, lags, embeddings in larger state spaces (ground truth known), and "
    "generic data with random truncations (least-squares solution recomputed); "
    "distinct = distinct (B known, lag, rank kind, dtype, workload) tuples."
)
ASSUMPTIONS = [
    "ground truth: persistently exciting input, cond of the stacked data < 1e4",
    "frequency/dynamics for lag > 1 are not judged (undocumented)",
]
CASE_TIMEOUT = 60


def system(rng, k, cplx):
    s = linear_system(rng, n=k, r=k, m=4, real=not cplx, rho=(0.6, 0.99), max_cond=1e9, sep=0.25)
    return s.A, s.eigs


def simulate(A, B, X0, U):
    """X0: first `lag` states by column"""
    out = [X0[:, i] for i in range(X0.shape[1])]
    for i in range(U.shape[1]):
        out.append(A @ out[i] + B @ U[:, i])
    return np.array(out).T


def rnd(rng, shape, cplx):
    a = rng.standard_normal(shape)
    return a + 1j * rng.standard_normal(shape) if cplx else a


def truth(rng, mon):
    cplx = bool(rng.random() < 0.35)
    k = int(rng.integers(1, 6))
    p = int(rng.integers(1, 4))
    lag = pick(rng, [1, 1, 1, 2, 3])
    m = lag * (3 * (k + p) + int(rng.integers(4, 20)))
    A, lam = system(rng, k, cplx)
    B = rnd(rng, (k, p), cplx)
    U = rnd(rng, (p, m - lag), cplx and rng.random() < 0.5)
    X0 = rnd(rng, (k, lag), cplx)
    X = simulate(A, B, X0, U)
    n = k
    Q = np.eye(k)
    if rng.random() < 0.5:
        n = k + int(rng.integers(1, 12))
        Q = orth(rng, n, k, cplx)
    Om = np.vstack([X[:, :-lag], U])
    if np.linalg.cond(Om) > 1e4 or np.linalg.cond(X[:, lag:]) > 1e4:
        raise Skip()
    if np.linalg.cond(np.linalg.eig(A)[1]) > 1e3:
        raise Skip()
    known = bool(rng.integers(2))
    sk = pick(rng, ["rank", "full", "auto"]) if n == k else "rank"
    rank = {"rank": k, "full": -1, "auto": 0.9999999}[sk]
    om = pick(rng, [-1, k + p]) if n == k else k + p
    Xf, Bf = Q @ X, Q @ B
    dmd = DMDc(svd_rank=rank, svd_rank_omega=om, lag=lag, opt=pick(rng, [False, True, 1]),
               tlsq_rank=pick(rng, [0, 0, k + p]))  # denoising exact data is harmless
    if sk == "auto" and np.linalg.matrix_rank(X, tol=1e-3 * np.linalg.norm(X, 2)) < k:
        raise Skip()
    shape = None
    Xin = as_layout(rng, Xf)
    if rng.random() < 0.3:
        shape = ndshape(rng, n)
        Xin = Xf.reshape(shape + (m,))
    Uin = as_layout(rng, U)
    if p == 1 and rng.random() < 0.4:
        Uin = U[0]
    if known:
        Bin = pick(rng, [Bf, Bf.tolist()])
        ret = dmd.fit(Xin, Uin, Bin)
    else:
        ret = dmd.fit(Xin, Uin)
    mon.describe(n=n, k=k, p=p, m=m, lag=lag, known=known, rank=rank, cplx=cplx)
    mon.sig("truth", known, lag, sk, cplx, n > k, shape is not None)
    mon.ok("fit-returns-self", ret is dmd)
    mon.eq("rank", len(dmd.eigs), k)
    if len(dmd.eigs) != k:
        return
    dist, _ = match_eigs(lam, dmd.eigs)
    mon.close("eigenvalues-of-A", dist, 0.0, 1e-6, scale=1.0)
    mon.close("B-identified", dmd.B, Bf, 1e-6)
    Ah = (dmd.modes * dmd.eigs) @ np.linalg.pinv(dmd.modes)
    Af = Q @ A @ Q.conj().T
    if min(abs(lam)) > 0.05:
        mon.close("A-identified", Ah @ Q, Af @ Q, 1e-5, scale=np.abs(Af).max())
    # the training data
    rec = dmd.reconstructed_data()
    mon.close("training-reproduced", rec, Xf, 1e-5)
    # any other control input, same length
    for _ in range(2):
        V = rnd(rng, U.shape, cplx) * 10.0 ** rng.integers(-1, 2)
        want = simulate(Af, Bf, Xf[:, :lag], V)
        got = dmd.reconstructed_data(pick(rng, [V, V.tolist()]))
        mon.close("new-control-simulated", got, want, 1e-5)
    # nor does it depend on the units of the time axis
    if rng.random() < 0.5:
        t0, dt = pick(rng, [0, 2, -3.5]), float(pick(rng, [2, 3, 0.5, 0.1, 10]))
        for d in (dmd.original_time, dmd.dmd_time):
            d["t0"], d["dt"], d["tend"] = t0, dt, t0 + dt * (m - 1)
        mon.close("time-axis-rescaled", dmd.reconstructed_data(), Xf, 1e-5)
    # the model is not affected by simulating
    mon.close("training-reproduced", dmd.reconstructed_data(), Xf, 1e-5)
    mon.raises("wrong-length-rejected", RuntimeError, lambda: dmd.reconstructed_data(
        rnd(rng, (p, m - lag + pick(rng, [-1, 1, 3])), False)))
    if sk == "rank" and not shape:
        mon.raises("wrong-width-rejected", ValueError, lambda: dmd.reconstructed_data(
            rnd(rng, (p + 1, m - lag), False)))


def generic(rng, mon):
    """noisy / generic data: the estimate is the (truncated) least-squares one"""
    cplx = bool(rng.random() < 0.4)
    n = int(rng.integers(2, 8))
    m = int(rng.integers(n + 6, n + 24))
    p = int(rng.integers(1, 3))
    lag = pick(rng, [1, 1, 2])
    X = random_data(rng, n=n, m=m, cplx=cplx, decay=rng.uniform(0.75, 0.95), scale=1.0)
    U = rnd(rng, (p, m - lag), cplx) * 0.3
    known = bool(rng.integers(2))
    rank = pick(rng, [-1, int(rng.integers(1, n + 1))])
    om = pick(rng, [-1, int(rng.integers(max(1, p), n + p + 1))])
    B0 = rnd(rng, (n, p), cplx)
    dmd = DMDc(svd_rank=rank, svd_rank_omega=om, lag=lag)
    mon.describe(n=n, m=m, p=p, lag=lag, known=known, rank=rank, om=om, cplx=cplx)
    mon.sig("generic", known, lag, rank == -1, om == -1, cplx)
    X1, Y = X[:, :-lag], X[:, lag:]
    Z = Y - B0 @ U if known else Y
    r = n if rank == -1 else rank

    def trunc(M, k):
        u, s, vh = np.linalg.svd(M, full_matrices=False)
        k = len(s) if k == -1 else k
        if k < len(s) and s[k - 1] / s[k] < 1.02:
            raise Skip()
        return u[:, :k], s[:k], vh[:k].conj().T

    if known:
        Ur, s, V = trunc(X1, rank)
        Ae = Z @ V @ np.diag(1 / s) @ Ur.conj().T
        Be = B0
        dmd.fit(X, U, B0)
    else:
        Uo, so, Vo = trunc(np.vstack([X1, U]), om)
        Ur = trunc(Y, rank)[0]
        G = Z @ Vo @ np.diag(1 / so) @ Uo.conj().T
        Ae = G[:, :n]
        Be = Ur @ (Ur.conj().T @ G[:, n:])
        dmd.fit(X, U)
    At = Ur.conj().T @ Ae @ Ur
    w, W = np.linalg.eig(At)
    if np.linalg.cond(W) > 300:
        raise Skip()
    mon.close("basis-projector", dmd.basis @ dmd.basis.conj().T, Ur @ Ur.conj().T, 1e-7)
    dist, j = match_eigs(w, dmd.eigs)
    sc = max(1.0, np.abs(w).max())
    mon.close("least-squares-eigenvalues", dist, 0.0, 1e-6, scale=sc)
    mon.close("least-squares-B", dmd.B, Be, 1e-7)
    # modes are eigenvectors: reduced operator applied to lifted eigenvectors
    Phi = Ae @ Ur @ W
    P1 = dmd.modes[:, j]
    big = np.abs(w) > 1e-3 * sc
    if len(w) > 1 and np.min(np.abs(w[:, None] - w[None]) + 9 * np.eye(len(w))) < 1e-3:
        raise Skip()
    for i in np.flatnonzero(big):
        a, b = Phi[:, i], P1[:, i]
        c = abs(np.vdot(a, b)) / max(1e-300, np.linalg.norm(a) * np.linalg.norm(b))
        if np.linalg.norm(a) > 1e-6:
            mon.close("modes-of-A", c, 1.0, 1e-6)
    # simulation uses exactly the published modes, eigenvalues and B
    Ah = (dmd.modes * dmd.eigs) @ np.linalg.pinv(dmd.modes)
    V = rnd(rng, U.shape, cplx)
    want = simulate(Ah, dmd.B, X[:, :lag], V)
    if np.abs(want).max() < 1e6:
        got = dmd.reconstructed_data(V)
        mon.close("simulation", got, want, 1e-6)
        V2 = rnd(rng, U.shape, cplx)
        z = dmd.reconstructed_data(np.zeros_like(V))
        s2 = max(np.abs(got).max(), 1.0)
        mon.close("affine-in-control", dmd.reconstructed_data(V + V2) + z,
                  got + dmd.reconstructed_data(V2), 1e-7, scale=s2 * 10)
        mon.close("first-snapshots-kept", got[:, :lag], X[:, :lag], 1e-12)
    # a selection of modes restricts the simulated operator
    if r > 1:
        k = rng.random(len(dmd.eigs)) < 0.6
        if k.any():
            dmd.modes_activation_bitmask = k
            Ah = (dmd.modes * dmd.eigs) @ np.linalg.pinv(dmd.modes)
            want = simulate(Ah, dmd.B, X[:, :lag], V)
            if np.abs(want).max() < 1e6:
                mon.close("masked-simulation", dmd.reconstructed_data(V), want, 1e-6)


def unforced(rng, mon):
    """no control effect: DMDc reduces to exact DMD"""
    s = linear_system(rng, r=int(rng.integers(1, 5)), rho=(0.8, 1.02))
    X = s.X + 0.01 * np.random.default_rng(int(rng.integers(1 << 30))).standard_normal((s.n, s.m))
    p = int(rng.integers(1, 3))
    U = rng.standard_normal((p, s.m - 1))
    B = np.zeros((s.n, p))
    rank = s.r
    c = DMDc(svd_rank=rank).fit(X, U, B)
    d = DMD(svd_rank=rank, exact=True).fit(X)
    mon.sig("unforced", s.real, rank)
    dist, _ = match_eigs(d.eigs, c.eigs)
    mon.close("unforced-eigenvalues", dist, 0.0, 1e-7, scale=1.0)
    mon.close("unforced-reconstruction-invariant", c.reconstructed_data(),
              c.reconstructed_data(10 * U), 1e-12)
    P = (d.modes * d.eigs) @ np.linalg.pinv(d.modes)
    want = simulate(P, B, X[:, :1], U)
    mon.close("unforced-simulation", c.reconstructed_data(), want, 1e-6)
    # and skips instants on a coarser time axis
    q = int(rng.integers(2, 4))
    L = 1 + (s.m - 1) // q
    if L > 1:
        c.dmd_time["dt"], c.dmd_time["tend"] = q, q * (L - 1)
        mon.close("coarse-simulation", c.reconstructed_data(np.zeros((p, L - 1))),
                  want[:, ::q][:, :L], 1e-6)


WORKLOADS = {
    "truth": {"fn": truth, "quick": 1500, "thorough": 30000},
    "generic": {"fn": generic, "quick": 1500, "thorough": 30000},
    "unforced": {"fn": unforced, "quick": 200, "thorough": 4000},
}
REQUIRED = {
    "eigenvalues-of-A": 500,
    "B-identified": 500,
    "new-control-simulated": 900,
    "least-squares-eigenvalues": 500,
    "least-squares-B": 500,
    "simulation": 300,
    "masked-simulation": 100,
}
