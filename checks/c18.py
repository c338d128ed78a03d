"""C18: LANDO - kernel regression, fixed points, prediction."""

import warnings

import numpy as np
from scipy.linalg import expm

from pydmd import LANDO
from vmon import gen
from vmon.core import Skip
from vmon.gen import as_layout, linear_system, ndshape, pick

RULE = (
    "LANDO (batch and online, all kernels, custom kernels, scalar and vector "
    "rescaling, n-d snapshots) on linear, polynomial and generic maps; f against "
    "ground truth, an independent least-squares / recursive solution over the "
    "reported dictionary, Jacobians against finite differences of f; distinct = "
    "distinct (workload, kernel, mode, rescale kind, shape kind) tuples."
)
ASSUMPTIONS = [
    "dictionaries whose kernel matrix is ill-conditioned (above 1e8) and samples "
    "within 10 % of the dictionary threshold are not judged",
]
CASE_TIMEOUT = 60


def kern(name, p, X, Y):
    g = 1.0 / X.shape[0] if p.get("gamma") is None else p["gamma"]
    dot = X.T @ Y
    if name == "linear":
        return dot
    if name == "poly":
        return (g * dot + p.get("coef0", 1)) ** p.get("degree", 3)
    return np.exp(-g * ((X[:, :, None] - Y[:, None, :]) ** 2).sum(0))


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def options(rng, n, allow=("linear", "poly", "rbf")):
    name = pick(rng, list(allow))
    p = {}
    if name == "poly":
        p = pick(rng, [{}, dict(degree=2), dict(degree=2, coef0=0.5, gamma=0.7),
                       dict(degree=3, gamma=0.4), dict(coef0=0, degree=2),
                       dict(gamma=None, degree=2)])
    elif name == "rbf":
        p = pick(rng, [{}, dict(gamma=0.3), dict(gamma=2.0), dict(gamma=None)])
    sc = pick(rng, ["none", "none", "float", "array", "int"])
    c = {"none": 1.0, "float": float(rng.uniform(0.4, 2.5)), "int": 2,
         "array": rng.uniform(0.5, 2.0, n)}[sc]
    return name, dict(p), sc, c


def reshape_c(c, shp):
    return c.reshape(shp) if isinstance(c, np.ndarray) else c


def vec(c, n):
    return c if isinstance(c, np.ndarray) else np.full(n, float(c))


def points(rng, n, m, kind):
    if kind == "linear":
        return linear_system(rng, n=n, r=n, m=m, real=True, rho=(0.85, 1.0), max_cond=1e2).X
    return rng.uniform(-1, 1, (n, m))


def regression(rng, mon):
    """Batch fits: dictionary property and least squares over the dictionary."""
    n = int(rng.integers(1, 6))
    m = int(rng.integers(5, 40))
    kind = pick(rng, ["uniform", "linear"])
    X = points(rng, n, m, kind)
    name, p, sc, c = options(rng, n)
    Y = np.tanh(rng.standard_normal((n, n)) @ X) + 0.1 * X ** 2
    series = bool(rng.random() < 0.3)
    tol = float(pick(rng, [1e-6, 1e-4, 1e-2]))
    lst = bool(rng.random() < 0.6)
    perm = bool(rng.random() < 0.6)
    shp = ndshape(rng, n)
    where = f"{name}{p} rescale={sc} n={n} m={m} tol={tol} lstsq={lst} permute={perm} series={series}"
    mon.describe(where=where)
    mon.sig("batch", name, sc, len(shp), lst, series)
    d = LANDO(svd_rank=-1, kernel_metric=name, kernel_params=p or None,
              x_rescale=reshape_c(c, shp), dict_tol=tol, permute=perm, lstsq=lst)
    nd = lambda Z: as_layout(rng, Z.reshape(shp + (Z.shape[1],)))
    if series:
        quiet(d.fit, nd(X))
        A, B = X[:, :-1], X[:, 1:]
    else:
        quiet(d.fit, nd(X), nd(Y))
        A, B = X, Y
    D = d.sparse_dictionary
    mon.ok("partially-fitted", d.partially_fitted and not d.fitted, where)
    # the dictionary consists of distinct snapshots
    dist = np.abs(D[:, :, None] - A[:, None, :]).max(0)
    mon.le("dictionary-of-snapshots", dist.min(1).max(), 1e-12 * max(1, np.abs(A).max()), where)
    mon.eq("dictionary-distinct", len(set(dist.argmin(1))), D.shape[1], where)
    if not perm:
        mon.eq("dictionary-first", int(dist[0].argmin()), 0, where)
        mon.ok("dictionary-order", np.all(np.diff(dist.argmin(1)) > 0), where)
    s = vec(c, n)[:, None]
    Kd = kern(name, p, s * D, s * D)
    if np.linalg.cond(Kd) > 1e8:
        raise Skip()
    Ka = kern(name, p, s * D, s * A)
    kxx = np.array([kern(name, p, s * A[:, i:i + 1], s * A[:, i:i + 1])[0, 0] for i in range(A.shape[1])])
    delta = kxx - np.einsum("ij,ij->j", Ka, np.linalg.solve(Kd, Ka))
    mon.le("dictionary-covers", delta.max(), tol * 1.01 + 1e-7 * max(1.0, kxx.max()), where)
    # ... and none of its entries is redundant given the earlier ones
    for j in range(1, D.shape[1]) if not perm else ():
        kj = Kd[:j, j]
        dj = Kd[j, j] - kj @ np.linalg.solve(Kd[:j, :j], kj)
        mon.ok("dictionary-sparse", dj > tol * 0.99 - 1e-7 * max(1.0, Kd[j, j]), f"{where} {j} {dj}")
    if np.linalg.cond(Ka) > 1e6:
        raise Skip()
    W = np.linalg.lstsq(Ka.T, B.T, rcond=None)[0].T
    T = rng.uniform(-1, 1, (n, 6))
    want = W @ kern(name, p, s * D, s * T)
    mon.close("f-least-squares", d.f(T.reshape(shp + (6,))), want, 1e-6, where,
              scale=max(np.abs(B).max(), np.abs(want).max()) * max(1, np.abs(W).max() * 1e-2))


def truth(rng, mon):
    """Maps inside the kernel's function space are learned exactly."""
    n = int(rng.integers(1, 5))
    deg = int(pick(rng, [1, 2, 2, 3]))
    if deg == 3:
        n = min(n, 3)
    A = rng.standard_normal((n, n)) * 0.5
    b = rng.standard_normal((n, 1)) * 0.5
    Q = rng.standard_normal((n, n, n)) * 0.3
    Cc = rng.standard_normal((n, n, n, n)) * 0.2
    unit = 2.0 ** float(pick(rng, [0, 0, 0, -20, 10]))  # slow and fast dynamics
    A, b, Q, Cc = A * unit, b * unit, Q * unit, Cc * unit
    name, p = pick(rng, [("poly", dict(degree=deg)), ("poly", dict(degree=deg, gamma=1.0, coef0=0.8))])
    if deg == 1:
        b = b * 0
        name, p = "linear", {}
    F = lambda Z: (b if deg > 1 else 0) + A @ Z + (np.einsum("ijk,jm,km->im", Q, Z, Z) if deg > 1 else 0) + (
        np.einsum("ijkl,jm,km,lm->im", Cc, Z, Z, Z) if deg > 2 else 0)
    m = int(rng.integers(60, 120))
    X = rng.uniform(-1, 1, (n, m))
    sc = pick(rng, ["none", "float", "array"])
    c = {"none": 1.0, "float": float(rng.uniform(0.5, 2)), "array": rng.uniform(0.6, 1.6, n)}[sc]
    online = bool(rng.random() < 0.4)
    shp = ndshape(rng, n)
    d = LANDO(svd_rank=-1, kernel_metric=name, kernel_params=p or None, x_rescale=reshape_c(c, shp),
              dict_tol=1e-7, online=online, permute=bool(rng.random() < 0.5))
    where = f"{name}{p} n={n} deg={deg} rescale={sc} online={online}"
    mon.describe(where=where)
    mon.sig("truth", deg, n, sc, online, len(shp))
    nd = lambda Z: Z.reshape(shp + (Z.shape[1],))
    quiet(d.fit, nd(X), nd(F(X)))
    s = vec(c, n)[:, None]
    D = d.sparse_dictionary
    K = kern(name, p, s * D, s * D)
    if np.linalg.cond(K) > 1e8:
        raise Skip()
    tol = 1e-4 if online else 1e-5
    T = rng.uniform(-1, 1, (n, 7))
    sz = max(unit, np.abs(F(T)).max())
    mon.close("f-true", d.f(nd(T)), F(T), tol, where, scale=sz)
    x = rng.uniform(-1, 1, n)
    J = A.copy()
    if deg > 1:
        J += np.einsum("ijk,k->ij", Q, x) + np.einsum("ikj,k->ij", Q, x)
    if deg > 2:
        J += (np.einsum("ijkl,k,l->ij", Cc, x, x) + np.einsum("ikjl,k,l->ij", Cc, x, x)
              + np.einsum("iklj,k,l->ij", Cc, x, x))
    quiet(d.analyze_fixed_point, x.reshape(shp), True)
    f0 = F(x[:, None])
    mon.close("bias-true", d.bias, f0, tol, where, scale=sz)
    mon.close("jacobian-true", d.linear, J, 10 * tol, where, scale=max(unit, np.abs(J).max()))
    mon.close("nonlinear-true", d.nonlinear(nd(T)), F(x[:, None] + T) - f0 - J @ T, 100 * tol, where,
              scale=sz)
    ev = np.linalg.eigvals(J)
    V = np.linalg.eig(J)[1]
    if np.linalg.cond(V) < 50 and np.abs(ev).min() > 1e-3 * unit:
        mon.le("eigs-true", gen.match_eigs(d.eigs, ev)[0] / unit if len(d.eigs) == n else 9.0,
               100 * tol, where)
    # discrete prediction follows the map, as long as it stays in the domain
    k = int(rng.integers(1, 6))
    z = x * 0.3
    Z = [z]
    for _ in range(k - 1):
        Z.append(F(Z[-1][:, None])[:, 0])
    Z = np.array(Z).T
    if np.abs(Z).max() < 2:
        mon.close("predict-discrete", d.predict(z.reshape(shp), k, continuous=False), Z, 100 * tol, where,
                  scale=max(1.0, np.abs(Z).max()))


def analysis(rng, mon):
    """Any model: c, A, N and the diagnostics belong to its own f."""
    n = int(rng.integers(1, 6))
    m = int(rng.integers(10, 30))
    X = points(rng, n, m, "uniform")
    Y = np.tanh(rng.standard_normal((n, n)) @ X) + 0.2 * X ** 2 - 0.1
    name, p, sc, c = options(rng, n)
    custom = bool(rng.random() < 0.3)
    kw = dict(kernel_metric=name, kernel_params=p or None)
    if custom:
        q = float(rng.uniform(0.3, 1.5))
        Kf = lambda U, V: np.exp(q * (U.T @ V))
        Kg = lambda U, v: q * np.exp(q * (U.T @ v))[:, None] * U.T
        def kf(U, V):
            return Kf(U, V)
        def kg(U, v):
            return Kg(U, v)
        kw = dict(kernel_function=kf, kernel_gradient=kg)
        name = "custom"
    shp = ndshape(rng, n)
    online = bool(rng.random() < 0.3)
    rank = pick(rng, [-1, -1, 0.99, "r"])
    if rank == "r":
        rank = int(rng.integers(1, n + 1))
    d = LANDO(svd_rank=rank, x_rescale=reshape_c(c, shp), dict_tol=1e-3, online=online,
              opt=pick(rng, [False, True, 1]), **kw)
    where = f"{name}{p} n={n} m={m} rescale={sc} online={online} rank={rank}"
    mon.describe(where=where)
    mon.sig("analysis", name, sc, len(shp), online, type(rank).__name__)
    nd = lambda Z: Z.reshape(shp + (Z.shape[1],))
    quiet(d.fit, nd(X), nd(Y))
    x = rng.uniform(-0.5, 0.5, n)
    cA = bool(rng.random() < 0.5)
    if rng.random() < 0.3:  # an earlier analysis leaves no trace
        quiet(d.analyze_fixed_point, rng.uniform(-1, 1, n).reshape(shp), bool(rng.random() < 0.5))
        mon.event("reanalysed")
    quiet(d.analyze_fixed_point, x.reshape(shp), cA)
    f = lambda Z: d.f(nd(Z))
    mon.ok("fitted", d.fitted, where)
    mon.close("bias-is-f", d.bias, f(x[:, None]), 1e-12, where)
    mon.close("fixed-point", np.asarray(d.fixed_point).reshape(-1), x, 1e-14, where)
    # independent Jacobian by high-order central differences of f
    h = 1e-3
    E = np.eye(n) * h
    P = lambda k: f(x[:, None] + k * E)
    J = (45 * (P(1) - P(-1)) - 9 * (P(2) - P(-2)) + (P(3) - P(-3))) / (60 * h)
    jac_tol, sj = 1e-6, max(np.abs(J).max(), np.abs(f(X)).max(), 1.0)
    rough = max(1.0, np.abs(d.operator.weights).max())
    jac_tol *= max(1.0, rough * 1e-4)
    if jac_tol > 1e-4:
        raise Skip()
    A = quiet(lambda: d.linear)
    if cA:
        mon.close("linear-is-jacobian", A, J, jac_tol, where, scale=sj)
    else:
        mon.ok("linear-not-computed", A is None, where)
    T = rng.uniform(-1, 1, (n, 5))
    mon.close("nonlinear-is-rest", d.nonlinear(nd(T)), f(x[:, None] + T) - d.bias - J @ T, 10 * jac_tol,
              where, scale=sj)
    mon.close("nonlinear-zero", d.nonlinear(nd(np.zeros((n, 2)))), np.zeros((n, 2)), 1e-10, where,
              scale=sj)
    lam, M = d.eigs, d.modes
    mon.ok("sorted", np.all(np.diff(np.abs(lam)) <= 1e-12 * max(1.0, np.abs(lam).max())), where)
    mon.eq("shapes", M.shape, (n, len(lam)), where)
    if cA and rank == -1 and len(lam) and np.abs(lam).min() > 1e-6:
        mon.close("modes-eigenvectors", A @ M, M * lam, 1e-8, where,
                  scale=max(np.abs(M).max() * np.abs(lam).max(), 1e-300) / min(1.0, np.abs(lam).min() * 10))
        ev = np.linalg.eigvals(A)
        ev = ev[np.abs(ev) > 1e-9]
        V = np.linalg.eig(A)[1]
        if len(ev) == len(lam) and np.linalg.cond(V) < 1e4:
            mon.le("eigs-of-jacobian", gen.match_eigs(lam, ev)[0], 1e-7 * max(1.0, np.abs(ev).max()), where)
    # storing A or not makes no difference to anything else
    am = np.array(d.amplitudes)
    quiet(d.analyze_fixed_point, x.reshape(shp), not cA)
    mon.le("compute_A-eigs", gen.match_eigs(d.eigs, lam)[0] if len(d.eigs) == len(lam) else 9.0,
           1e-7 * max(1.0, np.abs(lam).max() if len(lam) else 1.0), where) if _simple(lam) else None
    if _simple(lam):
        mon.close("compute_A-data", d.modes * d.amplitudes, M * am, 1e-5, where,
                  scale=max(np.abs(M * am).max(), 1e-300) / min(1.0, np.abs(lam).min()))
    if cA:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            none = d.linear is None
        mon.ok("linear-dropped", none and len(w) > 0, where)


def _simple(lam):
    if not len(lam) or np.abs(lam).min() < 1e-2:
        return False
    return min([abs(a - b) for i, a in enumerate(lam) for b in lam[i + 1:]] or [1.0]) > 3e-2


def online(rng, mon):
    """Online fits equal the recursive kernel least-squares solution."""
    n = int(rng.integers(1, 5))
    m = int(rng.integers(6, 30))
    X = points(rng, n, m, pick(rng, ["uniform", "linear"]))
    Y = np.tanh(rng.standard_normal((n, n)) @ X) + 0.1
    name, p, sc, c = options(rng, n)
    tol = float(pick(rng, [1e-3, 1e-2, 0.1]))
    s = vec(c, n)[:, None]
    shp = ndshape(rng, n)
    nd = lambda Z: Z.reshape(shp + (Z.shape[1],))
    where = f"online {name}{p} n={n} m={m} rescale={sc} tol={tol}"
    mon.describe(where=where)
    # reference
    D, Pi = [0], np.ones((1, 1))
    for t in range(1, m):
        Sd, st = s * X[:, D], s * X[:, t:t + 1]
        K = kern(name, p, Sd, Sd)
        k = kern(name, p, Sd, st)[:, 0]
        a = np.linalg.solve(K, k)
        dl = kern(name, p, st, st)[0, 0] - k @ a
        if 0.9 * tol < abs(dl) < 1.1 * tol:
            raise Skip()
        if abs(dl) > tol:
            D.append(t)
            Pi = np.block([[Pi, np.zeros((len(Pi), 1))], [np.zeros((1, len(Pi[0]))), np.ones((1, 1))]])
        else:
            Pi = np.vstack([Pi, a[None]])
    Sd = s * X[:, D]
    K = kern(name, p, Sd, Sd)
    if np.linalg.cond(K) > 1e7 or np.linalg.cond(Pi) > 1e5:
        raise Skip()
    W = np.linalg.solve(K.T, np.linalg.lstsq(Pi, Y.T, rcond=None)[0]).T
    T = rng.uniform(-1, 1, (n, 5))
    want = W @ kern(name, p, Sd, s * T)
    size = max(np.abs(Y).max(), np.abs(want).max(), 1e-3 * np.abs(W).max())
    mk = lambda: LANDO(svd_rank=-1, kernel_metric=name, kernel_params=dict(p) or None, dict_tol=tol,
                       x_rescale=reshape_c(c, shp), online=True, permute=False)
    d = mk()
    quiet(d.fit, nd(X), nd(Y))
    mon.close("online-dictionary", d.sparse_dictionary, X[:, D], 1e-12, where) if mon.eq(
        "online-dictionary-size", d.sparse_dictionary.shape[1], len(D), where) else None
    mon.close("online-weights", d.f(nd(T)), want, 1e-6, where, scale=size)
    if len(D) == m:
        mon.event("all-independent")
        mon.close("interpolates", d.f(nd(X)), Y, 1e-5, where, scale=size)
    # the same in instalments
    cuts = sorted(set(int(q) for q in 2 * rng.integers(1, m // 2, int(rng.integers(1, 4)))))
    u = mk()
    quiet(u.fit, nd(X[:, :cuts[0]]), nd(Y[:, :cuts[0]]))
    an = rng.random() < 0.5
    x = rng.uniform(-0.5, 0.5, n)
    cA = bool(rng.random() < 0.7)
    if an:
        quiet(u.analyze_fixed_point, x.reshape(shp), cA)
    for a, b in zip(cuts, list(cuts[1:]) + [m]):
        if an and len(u.eigs) > 1 and rng.random() < 0.4:
            # a selection among the old modes does not outlive them
            mask = np.ones(len(u.eigs), bool)
            mask[int(rng.integers(len(mask)))] = False
            u.modes_activation_bitmask = mask
            mon.event("updated-under-selection")
        quiet(u.update, nd(X[:, a:b]), nd(Y[:, a:b]))
    mon.sig("online", name, sc, len(cuts), len(D) == m, an)
    mon.close("instalments", u.f(nd(T)), want, 1e-6, where, scale=size)
    if an:
        mon.event("updated-after-analysis")
        quiet(d.analyze_fixed_point, x.reshape(shp), cA)
        mon.close("instalments-bias", u.bias, d.bias, 1e-6, where, scale=size)
        mon.close("instalments-nonlinear", u.nonlinear(nd(T)), d.nonlinear(nd(T)), 1e-5, where, scale=size)
        if cA:
            mon.close("instalments-linear", u.linear, d.linear, 1e-5, where,
                      scale=max(size, np.abs(d.linear).max()))
        if _simple(d.eigs):
            mon.le("instalments-eigs", gen.match_eigs(u.eigs, d.eigs)[0] if len(u.eigs) == len(d.eigs) else 9.0,
                   1e-3 * max(1.0, np.abs(d.eigs).max()), where)
    # a second fit starts afresh
    quiet(u.fit, nd(X), nd(Y))
    mon.ok("refit-forgets", not u.fitted and u.partially_fitted, where)
    mon.close("refit", u.f(nd(T)), want, 1e-6, where, scale=size)


def total(rng, mon):
    """tlsq_rank projects every batch, that of a fit and that of an update"""
    n, q = int(rng.integers(2, 5)), int(rng.integers(1, 3))
    bs = [int(rng.integers(2 * n + 1, 14)) for _ in range(int(rng.integers(1, 4)))]
    shp = ndshape(rng, n)
    nd = lambda Z: Z.reshape(shp + (Z.shape[1],))
    A = rng.standard_normal((n, n))
    Xs = [rng.uniform(-1, 1, (n, b)) for b in bs]
    Ys = [np.tanh(A @ X) for X in Xs]
    name, p, sc, c = options(rng, n)
    mk = lambda r: LANDO(svd_rank=-1, tlsq_rank=r, kernel_metric=name, kernel_params=dict(p) or None,
                         dict_tol=1e-2, x_rescale=reshape_c(c, shp), online=True, permute=False)
    one, two = mk(q), mk(0)
    for i, (X, Y) in enumerate(zip(Xs, Ys)):
        U, s, Vh = np.linalg.svd(np.vstack([X, Y]), full_matrices=False)
        if s[q - 1] - s[q] < 1e-3 * s[0]:
            raise Skip()
        P = Vh[:q].T @ Vh[:q]
        quiet(one.update if i else one.fit, nd(X), nd(Y))
        quiet(two.update if i else two.fit, nd(X @ P), nd(Y @ P))
    T = nd(rng.uniform(-1, 1, (n, 5)))
    where = f"tlsq={q} {name} n={n} batches={bs}"
    mon.describe(where=where)
    mon.sig("tlsq", name, len(bs), q)
    if one.sparse_dictionary.shape != two.sparse_dictionary.shape:
        raise Skip()
    W = np.abs(two.operator.weights).max()
    if W > 1e4:
        raise Skip()
    mon.close("tlsq-batches", one.f(T), two.f(T), 1e-6, where, scale=max(1.0, W))


def rescale(rng, mon):
    """Rescaling the features = rescaling the kernel's arguments."""
    n = int(rng.integers(1, 5))
    m = int(rng.integers(8, 25))
    X = rng.uniform(-1, 1, (n, m))
    Y = np.sin(rng.standard_normal((n, n)) @ X)
    name, p, _, _ = options(rng, n)
    sc = pick(rng, ["float", "array"])
    c = float(rng.uniform(0.4, 2)) if sc == "float" else rng.uniform(0.4, 2, n)
    shp = ndshape(rng, n)
    onl = bool(rng.random() < 0.5)
    nd = lambda Z: Z.reshape(shp + (Z.shape[1],))
    kw = dict(svd_rank=-1, kernel_metric=name, kernel_params=p or None, dict_tol=1e-3, permute=False, online=onl)
    a = LANDO(x_rescale=reshape_c(c, shp), **kw)
    b = LANDO(**kw)
    s = vec(c, n)[:, None]
    quiet(a.fit, nd(X), nd(Y))
    quiet(b.fit, nd(s * X), nd(Y))
    where = f"rescale {name}{p} {sc} n={n} online={onl} shape={shp}"
    mon.describe(where=where)
    mon.sig("rescale", name, sc, onl, len(shp))
    if a.sparse_dictionary.shape != b.sparse_dictionary.shape:
        raise Skip()
    rough = max(1.0, np.abs(b.operator.weights).max())
    if rough > 1e5:
        raise Skip()
    tol = 1e-8 * rough
    T = rng.uniform(-1, 1, (n, 4))
    mon.close("rescale-dictionary", a.sparse_dictionary * s, b.sparse_dictionary, 1e-12, where, scale=2.0)
    mon.close("rescale-f", a.f(nd(T)), b.f(nd(s * T)), tol, where, scale=1.0)
    x = rng.uniform(-0.5, 0.5, n)
    quiet(a.analyze_fixed_point, x.reshape(shp), True)
    quiet(b.analyze_fixed_point, (s[:, 0] * x).reshape(shp), True)
    mon.close("rescale-linear", a.linear, b.linear * s.T, tol * 10, where,
              scale=max(1.0, np.abs(b.linear).max()))
    mon.close("rescale-nonlinear", a.nonlinear(nd(T)), b.nonlinear(nd(s * T)), tol * 10, where, scale=1.0)
    mon.close("rescale-bias", a.bias, b.bias, tol, where, scale=1.0)


def predict(rng, mon):
    """Continuous prediction integrates f, discrete prediction iterates it."""
    n = int(rng.integers(1, 5))
    shp = ndshape(rng, n)
    nd = lambda Z: Z.reshape(shp + (Z.shape[1],))
    X = rng.uniform(-1, 1, (n, 30))
    A = rng.standard_normal((n, n)) * 0.6
    k = int(rng.integers(2, 12)) if rng.random() < 0.7 else int(rng.integers(40, 300))
    dt = float(pick(rng, [1.0, 0.1, 0.37]))
    x0 = rng.uniform(-1, 1, n)
    if k > 12:
        A -= (np.linalg.eigvals(A).real.max() + 0.05) * np.eye(n)
    if rng.random() < 0.5:
        d = quiet(LANDO(svd_rank=-1, dict_tol=1e-8).fit, nd(X), nd(A @ X))
        mon.sig("ode", n, dt, len(shp))
        opts = dict(rtol=1e-9, atol=1e-11)
        got = d.predict(x0.reshape(shp), k, dt=dt, solve_ivp_opts=opts)
        want = np.array([expm(A * dt * i) @ x0 for i in range(k)]).T
        where = f"ode n={n} k={k} dt={dt}"
        mon.eq("ode-count", got.shape, (n, k), where)
        mon.close("ode", got, want, 1e-5, where, scale=max(1, np.abs(want).max()))
        loose = d.predict(x0.reshape(shp), k, dt=dt)
        mon.close("ode-default-accuracy", loose, want, 0.1, where, scale=max(1, np.abs(want).max()))
        d.analyze_fixed_point((0 * x0).reshape(shp))
        if k > 2 and n > 1:
            mon.close("start", got[:, 0], x0, 1e-12, where)
    else:
        name, p, sc, c = options(rng, n)
        d = LANDO(svd_rank=-1, kernel_metric=name, kernel_params=p or None, x_rescale=reshape_c(c, shp),
                  dict_tol=1e-3)
        quiet(d.fit, nd(X), nd(np.sin(A @ X)))
        mon.sig("iterate", name, sc, len(shp))
        try:
            got = d.predict(x0.reshape(shp), k, continuous=False, dt=dt)
        except ValueError as e:
            if "NaN" in str(e) or "infinity" in str(e):
                raise Skip()  # the learned map leaves the domain and overflows
            raise
        where = f"iterate {name} n={n} k={k}"
        mon.eq("iterate-count", got.shape, (n, k), where)
        if not np.all(np.isfinite(got)) or np.abs(got).max() > 1e3:
            raise Skip()
        mon.close("iterate-start", got[:, 0], x0, 1e-14, where)
        mon.close("iterate", got[:, 1:], d.f(nd(got[:, :-1])), 1e-9, where,
                  scale=max(1, np.abs(got).max(), np.abs(d.operator.weights).max() * 1e-3))


def gradients(rng, mon):
    """kernel_gradient is the gradient of kernel_function."""
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 8))
    name, p, _, _ = options(rng, n)
    d = LANDO(kernel_metric=name, kernel_params=p or None)
    X, y = rng.standard_normal((n, m)), rng.standard_normal(n)
    where = f"gradient {name}{p} n={n} m={m}"
    mon.describe(where=where)
    mon.sig("gradient", name, n, m)
    mon.close("kernel", d.kernel_function(X, X), kern(name, p, X, X), 1e-10, where)
    h = 1e-3
    g = np.array([(8 * (kern(name, p, X, (y + h * e)[:, None]) - kern(name, p, X, (y - h * e)[:, None]))
                   - kern(name, p, X, (y + 2 * h * e)[:, None]) + kern(name, p, X, (y - 2 * h * e)[:, None]))[:, 0]
                  / (12 * h) for e in np.eye(n)]).T
    got = d.kernel_gradient(X, y)
    mon.eq("gradient-shape", got.shape, (m, n), where)
    mon.close("gradient", got, g, 1e-6, where, scale=max(1.0, np.abs(g).max()))


def rejects(rng, mon):
    n = 3
    X = rng.uniform(-1, 1, (n, 12))
    Y = np.sin(X)
    k = pick(rng, ["metric", "params", "function", "gradient", "no-gradient", "f", "fixed", "predict",
                   "unfitted", "update-offline", "update-unfitted", "update-shape", "pairs", "rescale",
                   "rescale-type", "nonlinear"])
    mon.sig("rejects", k)
    bad = (ValueError, TypeError)
    d = LANDO(svd_rank=-1, kernel_metric="rbf", online=k == "update-shape")
    quiet(d.fit, X, Y)
    if k == "metric":
        f = lambda: LANDO(kernel_metric=pick(rng, ["laplacian", "nope", "sigmoid"]))
    elif k == "params":
        f = lambda: LANDO(kernel_metric="rbf", kernel_params=pick(rng, [{"radius": 2}, [1], "gamma"]))
    elif k == "function":
        f = lambda: LANDO(kernel_function=pick(rng, [3, "rbf", [1]]))
    elif k == "gradient":
        f = lambda: LANDO(kernel_function=lambda U, V: U.T @ V, kernel_gradient=pick(rng, [3, "rbf"]))
    elif k == "no-gradient":
        e = LANDO(svd_rank=-1, kernel_function=lambda U, V: U.T @ V)
        quiet(e.fit, X, Y)
        f = lambda: e.analyze_fixed_point(np.zeros(n))
    elif k == "f":
        f = lambda: d.f(pick(rng, [np.ones((n + 1, 2)), np.ones(n + 2), np.ones((2, n, 2))]))
    elif k == "fixed":
        f = lambda: d.analyze_fixed_point(pick(rng, [np.ones(n + 1), np.ones((n, 1)), 1.0]))
    elif k == "predict":
        f = lambda: d.predict(pick(rng, [np.ones(n + 1), np.ones((n, 1))]), 4)
    elif k == "unfitted":
        e = LANDO()
        f = pick(rng, [lambda: e.f(X), lambda: e.analyze_fixed_point(np.ones(n)), lambda: e.predict(np.ones(n), 3),
                       lambda: e.sparse_dictionary, lambda: d.bias, lambda: d.linear, lambda: d.nonlinear(X),
                       lambda: d.fixed_point])
    elif k == "update-offline":
        f = lambda: d.update(X, Y)
    elif k == "update-unfitted":
        f = lambda: LANDO(online=True).update(X, Y)
    elif k == "update-shape":
        f = lambda: d.update(X, Y[:, :-1])
    elif k == "pairs":
        f = lambda: LANDO().fit(X, Y[:, :-1])
    elif k == "rescale":
        f = lambda: LANDO(x_rescale=np.ones(n + 1)).fit(X, Y)
    elif k == "rescale-type":
        f = lambda: LANDO(x_rescale=pick(rng, ["2", [1.0, 1.0, 1.0]])).fit(X, Y)
    else:
        d.analyze_fixed_point(np.zeros(n))
        f = lambda: d.nonlinear(np.ones((n + 1, 2)))
    mon.raises("rejected", bad, f, k)


WORKLOADS = {
    "regression": {"fn": regression, "quick": 450, "thorough": 8000},
    "truth": {"fn": truth, "quick": 130, "thorough": 4000},
    "analysis": {"fn": analysis, "quick": 450, "thorough": 8000},
    "online": {"fn": online, "quick": 320, "thorough": 8000},
    "rescale": {"fn": rescale, "quick": 240, "thorough": 5000},
    "predict": {"fn": predict, "quick": 130, "thorough": 3000},
    "total": {"fn": total, "quick": 120, "thorough": 3000},
    "gradients": {"fn": gradients, "quick": 300, "thorough": 3000},
    "rejects": {"fn": rejects, "quick": 120, "thorough": 800},
}
REQUIRED = {"f-least-squares": 150, "f-true": 60, "linear-is-jacobian": 100, "online-weights": 120,
            "instalments": 100, "tlsq-batches": 50, "rescale-f": 100, "predict-discrete": 30, "gradient": 200, "rejected": 80}
