"""C15: VarProDMD - variable projection DMD at arbitrary times."""

import warnings

import numpy as np

from pydmd import VarProDMD
from vmon import gen
from vmon.core import Skip
from vmon.gen import as_layout, cont_system, orth, pick

RULE = (
    "VarProDMD fitted on exact sums of exponentials at uneven, unordered and "
    "gapped times (ground truth), on noisy data (stationary point of the "
    "projected residual on the selected samples) and on generic data; distinct = "
    "distinct (workload, exact, sorting, compression, time axis, dtype) tuples."
)
ASSUMPTIONS = [
    "ground truth signals are slow compared with the sampling and separated in "
    "frequency (condition number of the sampled exponentials below 30), where "
    "the local search is expected to arrive",
    "searches which diverge on unstructured data are not judged",
]
CASE_TIMEOUT = 60
TIGHT = dict(method="trf", tr_solver="exact", loss="linear", x_scale="jac", gtol=1e-13,
             xtol=1e-13, ftol=1e-13)
SORTS = [False, True, "auto", "real", "imag", "abs"]


def match(a, b):
    return gen.match_eigs(a, b)[0]


def axis(rng, m):
    T = 10.0 ** rng.uniform(-1, 1)
    k = pick(rng, ["even", "jitter", "gap", "reversed"])
    u = np.arange(m, dtype=float)
    if k == "jitter":
        u = u + rng.uniform(-0.35, 0.35, m)
    elif k == "gap":
        u[m // 2:] += 1.5
    t = u / (m - 1) * T + pick(rng, [0.0, 0.0, rng.uniform(-1, 1) * T])
    return k, t


def fit(kw, X, t):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return VarProDMD(**kw).fit(X, t)


def structure(mon, d, X, t, kw, where):
    m = len(t)
    Phi, om, b = d.modes, d.eigs, d.amplitudes
    sc = max(np.abs(X).max(), 1e-300)
    E = np.exp(np.outer(om, t))
    if np.abs(E).max() > 1e6 or np.abs(E).max(1).min() < 1e-6 or not np.all(np.isfinite(Phi)):
        raise Skip()  # the search diverged
    big = max(sc, np.abs(b[:, None] * E).max())
    mon.close("unit-modes", np.linalg.norm(Phi, axis=0), np.ones(len(om)), 1e-10, where)
    mon.ok("amplitudes-nonneg", np.isrealobj(b) and np.all(b >= 0), where)
    mon.close("dynamics", d.dynamics, b[:, None] * E, 1e-10, where, scale=big)
    mon.close("reconstruction", d.reconstructed_data, (Phi * b) @ E, 1e-10, where, scale=big)
    mon.close("frequency", d.frequency, om.imag / 2 / np.pi, 1e-12, where)
    mon.close("growth", d.growth_rate, om.real, 1e-12, where)
    # the library
    i = np.asarray(d.selected_samples)
    c = kw.get("compression", 0)
    mon.ok("library-valid", i.ndim == 1 and len(set(i.tolist())) == len(i) and i.min() >= 0
           and i.max() < m, where)
    if c == 0:
        mon.ok("library-all", sorted(i.tolist()) == list(range(m)), where)
    else:
        want = {int(np.floor((1 - c) * m + e)) for e in (-1e-9, 1e-9)}
        if max(want) <= 1:
            want.add(m)
        mon.ok("library-size", len(i) in want, f"{where}: {len(i)} not in {want}")
    # best modes for these eigenvalues on the library
    Ei = E[:, i]
    D = X
    if not kw.get("exact", False):
        U = np.linalg.svd(X, full_matrices=False)[0][:, :len(om)]
        D = U @ (U.conj().T @ X)
    if np.linalg.cond(Ei) < 1e6 and len(i) >= len(om):
        best = np.linalg.lstsq(Ei.T, D[:, i].T, rcond=None)[0].T @ Ei
        mon.close("best-modes", (Phi * b) @ Ei, best, 1e-7, where, scale=big)
        rho = np.linalg.norm(D[:, i] - best)
        # cost and ssr describe this residual (all samples, all components)
        cost = 0.5 * rho ** 2
        mon.close("opt-cost", d.opt_stats.cost, cost, 1e-6, where,
                  scale=cost + 1e-12 * np.linalg.norm(D) ** 2)
        dof = max(m - len(i) * (len(X) if kw.get("exact", False) else len(om)) - len(om), 1)
        mon.close("ssr-value", d.ssr, rho / np.sqrt(dof), 1e-6, where,
                  scale=rho + 1e-4 * np.linalg.norm(D))
        mon.ok("ssr", d.ssr >= 0 and d.ssr <= rho * (1 + 1e-6) + 1e-10 * np.linalg.norm(D), where)
    s = kw.get("sorted_eigs", False)
    if s is not False:
        keys = {"real": np.abs(om.real), "imag": np.abs(om.imag), "abs": np.abs(om)}
        if s in keys:
            key = keys[s]
        else:
            key = max(keys.values(), key=np.var)
            second = sorted(np.var(v) for v in keys.values())[-2]
            if np.var(key) < second * (1 + 1e-9) + 1e-300:
                return
        mon.ok("sorted", np.all(np.diff(key) <= 1e-12 * (np.abs(om).max() + 1e-300)),
               f"{where}: {key}")


def options(rng, r):
    return dict(svd_rank=r, exact=bool(rng.integers(2)), sorted_eigs=pick(rng, SORTS),
                compression=pick(rng, [0, 0, 0.2, 0.5, 0.3]),
                optargs=dict(TIGHT))


def truth(rng, mon):
    m = int(rng.integers(24, 60))
    kind, t = axis(rng, m)
    s = cont_system(rng, t=t)
    if kind == "reversed":
        t = t[::-1]
    X = s.at(t)
    r = len(s.omega)
    kw = options(rng, pick(rng, [r, r, 1 - 1e-13]))
    where = f"{kind} r={r} {dict(kw, optargs=0)}"
    mon.describe(where=where, m=m, n=len(X))
    mon.sig("truth", kind, kw["exact"], kw["sorted_eigs"], kw["compression"], s.real,
            kw["svd_rank"] == r)
    d = fit(kw, as_layout(rng, X), t)
    if len(d.eigs) != r:
        raise Skip()
    rel = np.linalg.norm(d.reconstructed_data - X) / np.linalg.norm(X)
    mon.event("fits")
    structure(mon, d, X, t, kw, where)
    mon.le("arrives", rel, 1e-5, where)
    T = t.max() - t.min()
    mon.le("true-eigs", match(d.eigs, s.omega) * T, 1e-4, where)
    mon.close("true-data", d.reconstructed_data, X, 1e-4, where)
    t2 = np.sort(rng.uniform(t.min() - 0.2 * T, t.max() + 0.4 * T, int(rng.integers(1, 10))))
    mon.close("true-forecast", d.forecast(t2), s.at(t2), 1e-3, where)
    mon.le("ssr-small", d.ssr, 1e-4 * np.linalg.norm(X), where)
    # the same physics in other units, order, frame
    sym = pick(rng, ["shift", "stretch", "scale", "rotate", "nd", "sorting"])
    X2, t2, e2, kw2 = X, t, s.omega, kw
    if sym == "shift":
        t2 = t + rng.uniform(-1, 1) * T
    elif sym == "stretch":
        a = 10.0 ** rng.uniform(-1, 1)
        t2, e2 = t * a, s.omega / a
    elif sym == "scale":
        X2 = X * 10.0 ** rng.uniform(-4, 4)
    elif sym == "rotate":
        X2 = orth(rng, len(X), len(X), np.iscomplexobj(X)) @ X
    elif sym == "nd":
        X2 = X.reshape(1, -1, m)
    else:
        kw2 = dict(kw, sorted_eigs=pick(rng, SORTS))
    e = fit(kw2, X2, t2)
    R = np.asarray(e.reconstructed_data).reshape(X2.shape)
    mon.event("sym-" + sym)
    mon.le("sym-eigs", match(e.eigs, e2) * (t2.max() - t2.min()), 1e-3, where + sym)
    mon.close("sym-data", R, X2, 1e-3, where + sym)
    if sym in ("scale", "rotate", "sorting", "nd"):
        c = np.linalg.norm(X2) / np.linalg.norm(X)
        mon.close("sym-amplitudes", np.sort(e.amplitudes), np.sort(d.amplitudes) * c, 1e-3, where)


def reach(rng, mon):
    """Well sampled noise-free data from the default configuration: the search
    arrives (counted over a batch, since a local search may miss now and then)."""
    bad = tot = 0
    for _ in range(25):
        m = int(rng.integers(40, 80))
        _, t = axis(rng, m)
        try:
            s = cont_system(rng, t=t, damp=0.05, max_cond=8.0)
        except Skip:
            continue
        X = s.at(t)
        kw = options(rng, len(s.omega))
        del kw["optargs"]
        d = fit(kw, X, t)
        tot += 1
        bad += np.linalg.norm(d.reconstructed_data - X) > 1e-3 * np.linalg.norm(X)
    mon.event("reach-fits", tot)
    mon.event("reach-misses", int(bad))
    mon.sig("reach", tot)
    mon.le("search-arrives", bad, 0.2 * tot, f"{bad} of {tot} missed")


def optimum(rng, mon):
    m = int(rng.integers(24, 60))
    kind, t = axis(rng, m)
    s = cont_system(rng, t=t)
    sig = 10.0 ** rng.uniform(-4, -1.5)
    X = s.at(t)
    X = X + sig * (rng.standard_normal(X.shape)
                   + (0 if s.real else 1j * rng.standard_normal(X.shape)))
    r = len(s.omega)
    kw = options(rng, r)
    where = f"noise {sig:.1e} {kind} r={r} {dict(kw, optargs=0)}"
    mon.describe(where=where)
    mon.sig("noisy", kind, kw["exact"], kw["sorted_eigs"], kw["compression"], s.real)
    d = fit(kw, X, t)
    structure(mon, d, X, t, kw, where)
    T = t.max() - t.min()
    i = d.selected_samples
    if match(d.eigs, s.omega) * T > 0.5:
        mon.event("local-minimum")
        return
    U = np.linalg.svd(X, full_matrices=False)[0][:, :r]
    D = (X if kw["exact"] else U @ (U.conj().T @ X))[:, i]
    ti = t[i]

    def res(om):
        E = np.exp(np.outer(om, ti))
        return np.linalg.norm(D - np.linalg.lstsq(E.T, D.T, rcond=None)[0].T @ E)

    mon.event("near-truth")
    mon.le("no-worse-than-truth", res(d.eigs), res(s.omega) * (1 + 1e-6), where)
    base = res(d.eigs) ** 2
    for _ in range(6):
        v = rng.standard_normal(r) + 1j * rng.standard_normal(r)
        h = 1e-2 * sig / T * v / np.linalg.norm(v)
        g = (res(d.eigs + h) ** 2 - res(d.eigs - h) ** 2) / 2
        c = (res(d.eigs + h) ** 2 + res(d.eigs - h) ** 2) / 2 - base
        mon.le("stationary", abs(g), 5 * abs(c) + 1e-7 * base, where)


def generic(rng, mon):
    m = int(rng.integers(12, 40))
    kind, t = axis(rng, m)
    n = int(rng.integers(2, 10))
    cplx = bool(rng.integers(2))
    style = pick(rng, ["random", "decay", "ramp"])
    if style == "random":
        X = rng.standard_normal((n, m)) + (1j * rng.standard_normal((n, m)) if cplx else 0)
    elif style == "decay":
        X = np.exp(-np.outer(rng.uniform(0.1, 3, n), (t - t.min()) / (t.max() - t.min())))
    else:
        X = np.outer(rng.standard_normal(n), np.linspace(0, 1, m)) + 0.1 * rng.standard_normal((n, m))
    r = int(rng.integers(1, min(n, 4) + 1))
    kw = dict(options(rng, pick(rng, [r, r, 0.9])),
              optargs=dict(TIGHT, max_nfev=int(rng.integers(3, 30))))
    where = f"{style} {kind} n={n} m={m} {dict(kw, optargs=0)}"
    mon.describe(where=where)
    mon.sig("generic", style, kind, kw["exact"], kw["sorted_eigs"], kw["compression"], cplx)
    try:
        d = fit(kw, X, t)
    except (np.linalg.LinAlgError, ValueError) as e:
        if "finite" in str(e) or isinstance(e, np.linalg.LinAlgError):
            raise Skip()  # the search overflowed
        raise
    structure(mon, d, X, t, kw, where)
    f = t[: m // 2]
    mon.close("forecast-model", d.forecast(f), (d.modes * d.amplitudes) @
              np.exp(np.outer(d.eigs, f)), 1e-10, where,
              scale=max(1e-300, np.abs(d.dynamics).max()))


def rejects(rng, mon):
    k = pick(rng, ["sort", "compression", "unfitted", "time2d"])
    t = np.linspace(0, 2, 20)
    X = cont_system(rng, t=t, r=2, n=5).at(t)
    mon.sig("rejects", k)
    bad = ValueError
    if k == "sort":
        f = lambda: fit(dict(svd_rank=2, sorted_eigs=pick(rng, ["size", "", "REAL"])), X, t)
    elif k == "compression":
        f = lambda: fit(dict(svd_rank=2, compression=pick(rng, [1.0, 1.5, 3])), X, t)
    elif k == "time2d":
        f = lambda: fit(dict(svd_rank=2), X, np.stack([t, t]))
    else:
        a = pick(rng, ["ssr", "selected_samples", "opt_stats", "forecast"])
        d = VarProDMD(svd_rank=2)
        f = lambda: d.forecast(t) if a == "forecast" else getattr(d, a)
    mon.raises("rejected", bad, f, k)


WORKLOADS = {
    "truth": {"fn": truth, "quick": 900, "thorough": 12000},
    "reach": {"fn": reach, "quick": 12, "thorough": 150},
    "optimum": {"fn": optimum, "quick": 300, "thorough": 4000},
    "generic": {"fn": generic, "quick": 700, "thorough": 9000},
    "rejects": {"fn": rejects, "quick": 60, "thorough": 300},
}
REQUIRED = {"true-eigs": 300, "sym-eigs": 200, "best-modes": 600, "stationary": 400,
            "library-size": 300, "sorted": 300, "search-arrives": 6, "rejected": 40}
