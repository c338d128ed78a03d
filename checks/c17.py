"""C17: EDMD - the kernel trick computes the Koopman approximation."""

import warnings

import numpy as np

from pydmd import DMD, EDMD
from vmon import gen
from vmon.core import Skip
from vmon.gen import as_layout, linear_system, ndshape, pick

RULE = (
    "EDMD with all sklearn kernels on linear, periodic (repeated singular "
    "values), polynomial and generic data; spectra and eigenfunctions against "
    "explicit feature maps and independently computed kernel matrices, known "
    "Koopman eigenfunctions as ground truth; distinct = distinct (workload, "
    "kernel, rank kind, data kind, pairs given) tuples."
)
ASSUMPTIONS = [
    "kernel matrices whose retained singular values span more than 1e5 are not "
    "judged (the kernel trick squares the condition number)",
    "near-defective spectra (eigenvector condition above 1e4) are not judged",
]
CASE_TIMEOUT = 60


def matched(a, b):
    return gen.match_eigs(a, b)[0]


def kernel(name, p, X, Y):
    """k(x_i, y_j) from the textbook formulas (columns are points)."""
    n = X.shape[0]
    g = p.get("gamma", 1.0 / n)
    dot = X.T @ Y
    if name == "linear":
        return dot
    if name in ("poly", "polynomial"):
        return (g * dot + p.get("coef0", 1)) ** p.get("degree", 3)
    if name == "sigmoid":
        return np.tanh(g * dot + p.get("coef0", 1))
    if name == "cosine":
        return dot / np.outer(np.linalg.norm(X, axis=0), np.linalg.norm(Y, axis=0))
    D = X[:, :, None] - Y[:, None, :]
    if name == "rbf":
        return np.exp(-g * (D ** 2).sum(0))
    if name == "laplacian":
        return np.exp(-g * np.abs(D).sum(0))
    S = X[:, :, None] + Y[:, None, :]
    q = -np.where(S > 0, D ** 2 / np.where(S > 0, S, 1), 0).sum(0)
    if name == "additive_chi2":
        return q
    return np.exp(p.get("gamma", 1.0) * q)


def koopman(G, A, r):
    """Reference: rank-r compression of the Koopman matrix (psd Gramian)."""
    w, Q = np.linalg.eigh((G + G.T) / 2)
    o = np.argsort(-np.abs(w))[:r]
    s = np.sqrt(np.abs(w[o]))
    Q = Q[:, o]
    return Q, s, (Q.T @ A @ Q) / np.outer(s, s), np.sqrt(np.sort(np.abs(w))[::-1])


def features(X, deg, g, c):
    """Explicit features of (g x.y + c)^deg."""
    Z = np.vstack([np.sqrt(g) * X, np.full((1, X.shape[1]), np.sqrt(c))])
    F = Z
    for _ in range(deg - 1):
        F = np.einsum("im,jm->ijm", F, Z).reshape(-1, X.shape[1])
    return F


def orbit(rng, n, m, kind):
    if kind == "periodic":
        k = max(1, n // 2)
        T = int(pick(rng, [m - 1, (m - 1) // 2 or 1]))
        t = np.arange(m)
        rows = []
        for j in range(k):
            a = rng.uniform(0.5, 2)
            rows += [a * np.cos(2 * np.pi * (j + 1) * t / T), a * np.sin(2 * np.pi * (j + 1) * t / T)]
        return np.array(rows)
    if kind == "linear":
        return linear_system(rng, n=n, r=n, m=m, real=True, rho=(0.85, 1.0), max_cond=1e3).X
    if kind == "random":
        return rng.standard_normal((n, m))
    t = np.arange(m) * 0.3
    X = np.array([np.sin((j + 1) * 0.7 * t + j) * np.exp(-0.02 * t) for j in range(n)])
    return X + 0.05 * rng.standard_normal((n, m))


def quiet_fit(d, *a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return d.fit(*a)


def build(rng, mon):
    """Any kernel on any data, against the kernel matrices of the formulas."""
    kind = pick(rng, ["periodic", "linear", "random", "smooth"])
    n = int(rng.integers(2, 7))
    m = int(rng.integers(8, 26))
    if rng.random() < 0.1:
        m = int(rng.integers(40, 90))
    X = orbit(rng, n, m, kind)
    n = len(X)
    name = pick(rng, ["linear", "poly", "polynomial", "rbf", "rbf", "laplacian", "cosine",
                      "chi2", "sigmoid", "additive_chi2"])
    if "chi2" in name:
        X = np.abs(X) + 0.1
    p = {}
    if name in ("poly", "polynomial"):
        p = dict(degree=pick(rng, [2, 3]), coef0=pick(rng, [0, 1, 0.5]), gamma=pick(rng, [1, 0.3]))
    elif name == "sigmoid":
        p = dict(gamma=0.1, coef0=0.2)
    elif name not in ("linear", "cosine", "additive_chi2"):
        p = dict(gamma=pick(rng, [0.1, 1.0, 5.0]))
    if rng.random() < 0.3:
        p = {}
    pairs = bool(rng.random() < 0.4)
    A, B = X[:, :-1], X[:, 1:]
    if pairs:
        q = rng.permutation(m - 1)
        A, B = A[:, q], B[:, q]
        mon.event("pairs")
    G, K = kernel(name, p, A, A), kernel(name, p, B, A)
    r = int(rng.integers(1, min(m - 1, 8) + 1))
    style = pick(rng, ["int", "int", "int", "energy", "all"])
    s = np.sqrt(np.sort(np.abs(np.linalg.eigvalsh((G + G.T) / 2)))[::-1])
    rank = r
    if style == "energy":
        e = np.cumsum(s ** 2) / (s ** 2).sum()
        rank = float(pick(rng, [0.5, 0.9, 0.99]))
        r = int(np.searchsorted(e, rank)) + 1
        if np.any(np.abs(e - rank) < 1e-9):
            raise Skip()
    elif style == "all":
        rank, r = -1, m - 1
    if s[r - 1] < 1e-5 * s[0]:
        raise Skip()
    if r < len(s) and s[r - 1] - s[r] < 1e-3 * s[0]:
        raise Skip()  # the truncated subspace is not unique
    where = f"{name}{p} rank={rank} {kind} {X.shape} pairs={pairs}"
    mon.describe(where=where)
    mon.sig(name, style, kind, pairs)
    d = EDMD(svd_rank=rank, kernel_metric=name, kernel_params=dict(p) or None)
    quiet_fit(d, *((as_layout(rng, A), as_layout(rng, B)) if pairs else (as_layout(rng, X),)))
    if name in ("sigmoid", "additive_chi2"):
        # not positive definite: no feature space; only well-formedness
        mon.ok("finite", np.all(np.isfinite(d.eigs)) and np.all(np.isfinite(d.modes)), where)
        return
    Q, sr, Kh, _ = koopman(G, K, r)
    ev, V = np.linalg.eig(Kh)
    if np.linalg.cond(V) > 1e4 or np.any(np.abs(ev) < 1e-8):
        raise Skip()
    mon.event("repeated" if r > 1 and np.min(-np.diff(sr)) < 1e-9 * sr[0] else "distinct")
    tol = 1e-10 * (sr[0] / sr[-1]) ** 2 * np.linalg.cond(V) + 1e-9
    sc = max(1.0, np.abs(ev).max())
    if not mon.eq("count", len(d.eigs), r, where):
        return
    mon.le("eigs", matched(d.eigs, ev), tol * sc, where)
    mon.close("svd-vals", d.operator.svd_vals, sr, 1e-9 * sr[0] / sr[-1], where)
    # modes: coordinates of the state in the eigenfunctions, phase free
    j = gen.match_eigs(d.eigs, ev)[1]
    W = A @ Q / sr @ np.linalg.inv(V).T
    sep = min([abs(a - b) for i, a in enumerate(ev) for b in ev[i + 1:]] or [1.0])
    if sep < 1e-4:
        return
    phi_ref = lambda x: kernel(name, p, x, A) @ (Q / sr) @ V
    pts = pick(rng, [A, X[:, -1:], X[:, :3] * 0.9 + 0.01])
    got = np.array([np.ravel(d.eigenfunctions(np.ascontiguousarray(pts[:, i])))
                    for i in range(pts.shape[1])])
    want = phi_ref(pts)
    tol2 = tol / min(1.0, sep) * 100
    # mode times eigenfunction is independent of the eigenvector scaling
    big = max(np.abs(want[:, i]).max() * np.abs(W[:, i]).max() for i in range(r))
    big = max(big, 1e-3 * np.abs(X).max())
    for i in range(r):
        a = np.outer(d.modes[:, i], got[:, i])
        b = np.outer(W[:, j[i]], want[:, j[i]])
        mon.close("mode-x-eigenfunction", a, b, tol2, where, scale=big)


def explicit(rng, mon):
    """Polynomial kernels: DMD on the explicit features has the same spectrum."""
    n = int(rng.integers(1, 4))
    deg = int(rng.integers(1, 4))
    c = float(pick(rng, [0.5, 1.0]))
    g = float(pick(rng, [1.0, 0.5]))
    m = int(rng.integers(15, 60))
    X = orbit(rng, n, m, pick(rng, ["random", "smooth", "periodic"]))
    if len(X) > 4:
        raise Skip()
    F = features(X, deg, g, c)
    s = np.linalg.svd(F[:, :-1], compute_uv=False)
    rk = int(np.sum(s > 1e-8 * s[0]))
    if s[rk - 1] < 1e-3 * s[0] or rk >= m - 1 or (rk < len(s) and s[rk] > 1e-11 * s[0]):
        raise Skip()
    ref = DMD(svd_rank=rk).fit(F)
    ev = ref.eigs
    if np.linalg.cond(ref.modes) > 1e4 or np.abs(ev).min() < 1e-7:
        raise Skip()
    d = quiet_fit(EDMD(svd_rank=rk, kernel_metric="poly",
                       kernel_params=dict(degree=deg, gamma=g, coef0=c)), X)
    where = f"poly deg={deg} n={n} m={m} rank={rk}"
    mon.sig("explicit", n, deg, rk)
    mon.describe(where=where)
    mon.le("same-as-features", matched(d.eigs, ev), 1e-5 * max(1, np.abs(ev).max()), where)


def truth(rng, mon):
    """x1' = a x1, x2' = b x2 + e x1^2: {x1, x2, x1^2} closes, so a, b and a^2
    are exact Koopman eigenvalues with exact eigenfunctions."""
    a, b = rng.uniform(0.4, 0.98, 2) * rng.choice([-1, 1], 2)
    e = rng.uniform(0.3, 1)
    lam = [a, b, a * a]
    if min(abs(lam[i] - lam[j]) for i in range(3) for j in range(i)) < 0.08:
        raise Skip()
    m = int(rng.integers(30, 70))
    X = rng.uniform(-1, 1, (2, m))
    F = lambda Z: np.array([a * Z[0], b * Z[1] + e * Z[0] ** 2])
    d = quiet_fit(EDMD(svd_rank=6, kernel_metric="poly",
                       kernel_params=dict(degree=2, gamma=1.0, coef0=1.0)), X, F(X))
    where = f"a={a:.3f} b={b:.3f} m={m}"
    mon.describe(where=where)
    mon.sig("truth", a > 0, b > 0, m // 10)
    ev = d.eigs
    # the constant, too, is an eigenfunction
    if len(ev) != 6:
        raise Skip()
    allv = list(ev)
    if min(abs(allv[i] - allv[j]) for i in range(6) for j in range(i)) < 1e-3:
        raise Skip()
    pts = rng.uniform(-1, 1, (2, 8))
    phi = lambda Z: np.array([np.ravel(d.eigenfunctions(np.ascontiguousarray(Z[:, i])))
                              for i in range(Z.shape[1])])
    p0, p1 = phi(pts), phi(F(pts))
    for v in (a, b, a * a, 1.0):
        i = int(np.argmin(np.abs(ev - v)))
        mon.le("koopman-eigenvalue", abs(ev[i] - v), 1e-6, f"{where} {v}")
        mon.close("koopman-eigenfunction", p1[:, i], v * p0[:, i], 1e-5, f"{where} {v}",
                  scale=np.abs(p0[:, i]).max() + 1e-300)
    # the state is the modes-weighted sum of the eigenfunctions, anywhere
    mon.close("state-in-eigenfunctions", p0 @ d.modes.T, pts.T, 1e-5, where, scale=1.0)


def linear(rng, mon):
    """Linear kernel: EDMD is exact DMD."""
    kind = pick(rng, ["periodic", "linear", "smooth"])
    n = int(rng.integers(2, 8))
    m = int(rng.integers(n + 4, 30))
    X = orbit(rng, n, m, kind)
    n = len(X)
    r = n if kind != "smooth" else int(rng.integers(1, n + 1))
    s = np.linalg.svd(X[:, :-1], compute_uv=False)
    if s[min(r, len(s)) - 1] < 1e-4 * s[0] or (r < len(s) and s[r - 1] - s[r] < 1e-6 * s[0]):
        raise Skip()
    opt = pick(rng, [False, True, 0, 3])
    where = f"linear kernel {kind} {X.shape} r={r} opt={opt}"
    mon.describe(where=where)
    mon.sig("linear", kind, r, opt)
    e = quiet_fit(EDMD(svd_rank=r, opt=opt), ndshape(rng, n) and X)
    d = DMD(svd_rank=r, exact=True, opt=opt).fit(X)
    if np.linalg.cond(d.modes) > 1e4 or np.abs(d.eigs).min() < 1e-6:
        raise Skip()
    mon.le("as-dmd-eigs", matched(e.eigs, d.eigs), 1e-6 * max(1, np.abs(d.eigs).max()), where)
    if kind != "smooth" or r == n:
        mon.close("as-dmd-data", e.reconstructed_data, d.reconstructed_data, 1e-5, where,
                  scale=np.abs(X).max() * max(1, np.abs(d.eigs).max() ** m))
    if kind in ("periodic", "linear"):
        mon.close("true-data", e.reconstructed_data, X, 1e-5, where)
        x = rng.standard_normal(n)
        f0 = np.ravel(e.eigenfunctions(x))
        A = X[:, 1:] @ np.linalg.pinv(X[:, :-1])
        f1 = np.ravel(e.eigenfunctions(A @ x))
        mon.close("linear-eigenfunctions", f1, e.eigs * f0, 1e-5, where,
                  scale=np.abs(f0).max() + 1e-300)


def vanishing(rng, mon):
    """components that die out at once: one eigenfunction per eigenvalue"""
    n = int(rng.integers(2, 6))
    lam = rng.uniform(0.3, 1.2, n) * rng.choice([-1, 1], n)
    lam[rng.permutation(n)[: int(rng.integers(1, n))]] = 0
    X = rng.standard_normal((n, n + int(rng.integers(3, 20))))
    if rng.random() < 0.3:
        X = np.rint(4 * X)
    if np.linalg.cond(X) > 1e3:
        raise Skip()
    where = f"vanishing {lam} {X.shape}"
    mon.describe(where=where)
    mon.sig("vanishing", n, int((lam == 0).sum()))
    e = quiet_fit(EDMD(svd_rank=n), X, lam[:, None] * X)
    live = np.abs(e.eigs) > 1e-6
    mon.le("live-eigs", matched(e.eigs[live], lam[lam != 0]) if live.sum() == (lam != 0).sum()
           else np.inf, 1e-6, where)
    x = rng.standard_normal(n)
    f0, f1 = (np.ravel(e.eigenfunctions(v)) for v in (x, lam * x))
    if mon.ok("one-eigenfunction-per-eig", f0.shape == e.eigs.shape, f"{where}: {f0.shape}"):
        mon.close("vanishing-eigenfunctions", f1, e.eigs * f0, 1e-6, where,
                  scale=np.abs(f0).max() + 1e-300)


def rejects(rng, mon):
    k = pick(rng, ["rank0", "params", "metric", "gamma", "unfitted", "point"])
    mon.sig("rejects", k)
    bad = (ValueError, TypeError)
    if k == "rank0":
        f = lambda: EDMD(svd_rank=0)
    elif k == "params":
        f = lambda: EDMD(svd_rank=2, kernel_params=pick(rng, [[1], "gamma", 3]))
    elif k == "metric":
        f = lambda: EDMD(svd_rank=2, kernel_metric=pick(rng, ["nope", "gaussian", ""]))
    elif k == "gamma":
        f = lambda: EDMD(svd_rank=2, kernel_metric="rbf", kernel_params={"radius": 1})
    elif k == "unfitted":
        f = lambda: EDMD(svd_rank=2).eigenfunctions(np.ones(3))
    else:
        d = quiet_fit(EDMD(svd_rank=2), rng.standard_normal((3, 9)))
        x = pick(rng, [np.ones((3, 1)), [1.0, 2.0, 3.0], np.ones((1, 3)), np.ones(4)])
        f = lambda: d.eigenfunctions(x)
    mon.raises("rejected", bad, f, k)


WORKLOADS = {
    "kernels": {"fn": build, "quick": 2500, "thorough": 30000},
    "explicit": {"fn": explicit, "quick": 500, "thorough": 6000},
    "truth": {"fn": truth, "quick": 300, "thorough": 4000},
    "linear": {"fn": linear, "quick": 600, "thorough": 8000},
    "vanishing": {"fn": vanishing, "quick": 200, "thorough": 2000},
    "rejects": {"fn": rejects, "quick": 60, "thorough": 300},
}
REQUIRED = {"eigs": 500, "mode-x-eigenfunction": 500, "same-as-features": 30,
            "koopman-eigenvalue": 300, "as-dmd-eigs": 200, "rejected": 40}
