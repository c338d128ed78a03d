"""C19: SpDMD - sparse amplitudes that are optimal on their support."""

import contextlib
import io
import re
import warnings

import numpy as np

from pydmd import DMD, SpDMD
from vmon.core import Skip
from vmon.gen import as_layout, linear_system, ndshape, pick, random_data

RULE = (
    "SpDMD over all gamma/rho/tolerance/iteration settings and DMD options on "
    "linear, noisy and generic real/complex data; amplitudes against an "
    "independent restricted least-squares solution, the support against an "
    "independent proximal solver and a replay of the ADMM iteration; distinct = "
    "distinct (workload, gamma class, support class, options) tuples."
)
ASSUMPTIONS = [
    "restricted least-squares problems with condition number below 1e5",
    "supports that change when the data are perturbed by 1e-9 are not judged",
    "the support follows the iteration with the deviating soft-thresholding "
    "operator recorded as known finding soft-thresholding; projected modes deviate as "
    "in known finding opt-projected-normal-equations",
]
CASE_TIMEOUT = 60


def vander(eigs, m):
    return np.power(np.asarray(eigs, dtype=complex)[:, None], np.arange(m)[None])


def design(M, V):
    return np.stack([np.outer(M[:, k], V[k]).ravel() for k in range(M.shape[1])], 1)


def matrices(M, V, S, full):
    """Normal equations of min |S - M diag(a) V|_F (last instant left out of
    the right-hand side if not full)."""
    A = design(M, V)
    P = A.conj().T @ A
    if full:
        return P, A.conj().T @ S.ravel()
    return P, design(M, V[:, :-1]).conj().T @ S[:, :-1].ravel()


def admm(P, q, gamma, rho, atol, rtol, kmax, right, ztol=1e-12):
    """The published iteration; right=False uses (1-k) v/|v| for (1-k/|v|) v."""
    r = len(q)
    k = gamma / rho
    Pr = P + rho / 2 * np.eye(r)
    L = np.linalg.inv(Pr)
    b = np.zeros(r, complex)
    l = np.zeros(r, complex)
    n = 0
    while True:
        old = b
        a = L @ (q + (b - l / rho) * rho / 2)
        v = a + l / rho
        av = np.maximum(np.abs(v), 1e-300)
        b = np.where(np.abs(v) > k, (1 - k / av) * v if right else (1 - k) * v / av, 0)
        l = l + rho * (a - b)
        if (np.linalg.norm(a - b) < np.sqrt(r) * atol + rtol * max(np.linalg.norm(a), np.linalg.norm(b))
                and rho * np.linalg.norm(b - old) < np.sqrt(r) * atol + rtol * np.linalg.norm(l)):
            break
        if n >= kmax:
            break
        n += 1
    return np.abs(old) < ztol, n


def lasso(P, q, gamma):
    """Support of min a'Pa - 2 Re q'a + gamma |a|_1, None if not decided."""
    r = len(q)
    t = 1 / (2 * np.linalg.eigvalsh(P)[-1] + 1e-300)
    a = np.zeros(r, complex)
    y, s = a, 1.0
    for _ in range(20000):
        v = y - t * 2 * (P @ y - q)
        av = np.maximum(np.abs(v), 1e-300)
        new = np.where(av > gamma * t, (1 - gamma * t / av) * v, 0)
        s2 = (1 + np.sqrt(1 + 4 * s * s)) / 2
        y = new + (s - 1) / s2 * (new - a)
        if np.linalg.norm(new - a) < 1e-13 * (1 + np.linalg.norm(new)):
            a = new
            break
        a, s = new, s2
    else:
        return None
    g = np.abs(2 * (P @ a - q))
    z = np.abs(a) == 0
    if np.any(np.abs(g[z] - gamma) < 1e-4 * gamma) or np.any(np.abs(a[~z]) < 1e-5 * np.abs(a).max()):
        return None
    return z


def model(rng, mon):
    kind = pick(rng, ["linear", "noisy", "random"])
    cplx = bool(rng.random() < 0.5)
    n = int(rng.integers(3, 14))
    m = int(rng.integers(8, 24))
    if kind == "random":
        S = random_data(rng, n, m, cplx)
    else:
        L = linear_system(rng, n=n, r=int(rng.integers(2, min(n, 7) + 1)), m=m, real=not cplx,
                          rho=(0.7, 1.0), max_cond=1e2)
        S = L.X
        if kind == "noisy":
            S = S + 0.1 * np.abs(S).max() * random_data(
                rng, *S.shape, cplx, scale=10.0 ** rng.integers(-1, 3)) / 3
    units = rng.random() < 0.2
    if units:
        S = S * 2.0 ** int(rng.integers(0, 30))
    n, m = S.shape
    rank = int(rng.integers(1, min(n, m - 1, 8) + 1)) if kind != "linear" else min(L.Phi.shape[1], m - 1)
    exact = bool(rng.random() < 0.75)
    opts = dict(svd_rank=rank, exact=exact, opt=pick(rng, [False, True, 2]),
                sorted_eigs=pick(rng, [False, "abs", "real"]), tlsq_rank=pick(rng, [0, 0, 0, rank]))
    # one memory layout for both fits: round-off may flip signs of modes
    shp = ndshape(rng, n)
    data = as_layout(rng, S.reshape(shp + (m,)))
    d0 = DMD(**opts)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d0.fit(data)
    M, lam = d0.modes, d0.eigs
    if np.abs(lam).max() > 1.5 or np.abs(lam).max() < 1e-2:
        raise Skip()
    V = vander(lam, m)
    A = design(M, V)
    if np.linalg.cond(A) > 1e5:
        raise Skip()
    P, q = matrices(M, V, S, exact)
    aopt = np.linalg.lstsq(A, S.ravel(), rcond=None)[0]
    top = 2 * np.abs(q).max()
    g = pick(rng, ["zero", "tiny", "mid", "mid", "mid", "mid", "mid", "mid", "unit", "huge"])
    gamma = {"zero": 0.0, "tiny": 1e-9, "mid": float(top * 10 ** rng.uniform(-4, 0)),
             "unit": float(rng.uniform(0.1, 20)), "huge": 1e9 * max(1, top)}[g]
    rho = float(pick(rng, [1, 1, 0.1, 10, 100]))
    if g == "mid" and rng.random() < 0.5:
        rho = gamma * float(pick(rng, [1.5, 3, 10]))
    kmax = int(pick(rng, [0, 1, 2, 5, 30, 30, 200, 200]))
    at, rt = pick(rng, [(1e-6, 1e-4), (1e-4, 1e-3), (1e-9, 1e-8)])
    enforce = bool(rng.random() < 0.7)
    rel = bool(rng.random() < 0.5)
    ztol = float(pick(rng, [1e-12, 1e-12, 1e-12, 1e-10, 1e-3 * np.abs(aopt).max()]))
    where = f"{kind} {S.shape} {S.dtype} {opts} gamma={gamma:.3g} rho={rho:.3g} it={kmax}"
    mon.describe(where=where)
    d = SpDMD(gamma=gamma, rho=rho, max_iterations=kmax, abs_tolerance=at, rel_tolerance=rt,
              enforce_zero=enforce, release_memory=rel, verbose=True,
              zero_absolute_tolerance=ztol, **opts)
    out = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        if rng.random() < 0.2:  # history: an earlier fit leaves no trace
            d.fit(random_data(rng, n + 1, m + 2, cplx))
            mon.event("refit")
            out.truncate(0)
        d.fit(data)
    b = np.array(d.amplitudes)
    mon.close("same-eigs", d.eigs, lam, 1e-9, where)
    mon.close("same-modes", d.modes, M, 1e-7, where)
    z = np.abs(b) < 1e-9 * max(np.abs(aopt).max(), np.abs(b).max(), 1e-300)
    if enforce:
        mon.ok("exact-zeros", np.all(b[z] == 0), f"{where} {b}")
    sup = "none" if z.all() else "all" if not z.any() else "some"
    mon.sig(g, sup, kind, exact, cplx)
    mon.event(f"support-{sup}")
    # 1. optimal on the support
    def best(P, q):
        w = np.zeros(len(q), complex)
        if (~z).any():
            w[~z] = np.linalg.solve(P[np.ix_(~z, ~z)], q[~z])
        return w
    size = np.linalg.norm(S)
    w = np.zeros(len(b), complex)
    if (~z).any():
        w[~z] = np.linalg.lstsq(A[:, ~z], S.ravel(), rcond=None)[0]
    e1 = np.linalg.norm(A @ (b - w)) / size
    mon._hit("optimal-on-support", e1 / 1e-6)
    if e1 > 1e-6:
        e2 = np.linalg.norm(A @ (b - best(P, q))) / size
        mon.fail("optimal-on-support", f"{where}: {e1:.2e} {e2:.2e}",
                 "opt-projected-normal-equations" if not exact and e2 < 1e-6 else None)
    # 2. limits of gamma
    if g in ("zero", "tiny") and kmax > 0 and ztol < 1e-9 and top > 1e-2:
        mon.ok("no-penalty-keeps-all", not z.any() or np.abs(q[z]).max() < 1e-6 * np.abs(q).max(), f"{where} {b}")
    if g == "huge":
        mon.ok("huge-penalty-drops-all", z.all(), f"{where} {b}")
    # 3. the support
    alike = {}
    for right in (True, False):
        zs = [admm(P * (1 + e), q + e * np.abs(q).max() * rng.standard_normal(len(q)), gamma, rho, at, rt,
                   kmax, right, ztol) for e in (0, 1e-9, -1e-9)]
        alike[right] = zs[0] if all(np.array_equal(zs[0][0], y[0]) and zs[0][1] == y[1] for y in zs) else None
    if alike[False] is None or np.linalg.cond(P) > 1e8:
        return
    mon._hit("support")
    ok_right = alike[True] is not None and np.array_equal(z, alike[True][0])
    if not ok_right and rho > 0:
        ls = lasso(P, q, gamma) if kmax >= 200 and gamma > 0 else None
        ok_right = ls is not None and np.array_equal(z, ls)
    it = re.findall(r"ADMM: (\d+) iterations", out.getvalue())
    mon.eq("reports-iterations", len(it) >= 1, True, where)
    counts = {y[1] for y in alike.values() if y is not None}
    if alike[True] is not None and it and not units:  # absolute tolerances below round-off
        mon.ok("iterations", int(it[-1]) in counts, f"{where} {it} {counts}")
    if ok_right:
        mon.event("support-lasso")
        return
    if np.array_equal(z, alike[False][0]):
        mon.fail("support", where, "soft-thresholding")
    else:
        mon.fail("support", f"{where}: {z} expected {alike[False][0]}")


def quietness(rng, mon):
    """verbose=False prints nothing; memory of the iteration released or kept."""
    S = random_data(rng, 5, 10, bool(rng.integers(2)))
    rel = bool(rng.integers(2))
    d = SpDMD(svd_rank=3, verbose=False, release_memory=rel, max_iterations=20)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        d.fit(S)
    mon.sig("quiet", rel)
    mon.eq("silent", out.getvalue(), "", "verbose=False")
    e = SpDMD(svd_rank=3, verbose=False, release_memory=not rel, max_iterations=20).fit(S)
    mon.close("memory-option", e.amplitudes, d.amplitudes, 1e-12, "release_memory")
    r = d.reconstructed_data
    mon.ok("snapshots-kept", np.array_equal(d.snapshots, S), f"release_memory={rel}")
    mon.close("reconstruction", r, (d.modes * d.amplitudes) @ vander(d.eigs, 10), 1e-9, "reconstruction")


WORKLOADS = {
    "models": {"fn": model, "quick": 1500, "thorough": 20000},
    "quiet": {"fn": quietness, "quick": 60, "thorough": 400},
}
REQUIRED = {"optimal-on-support": 500, "support": 300, "huge-penalty-drops-all": 50,
            "no-penalty-keeps-all": 100, "same-modes": 500}
