"""C14: BOPDMD - optimized DMD, constraints, bagging, forecasts."""

import contextlib
import io
import warnings

import numpy as np

from pydmd import BOPDMD
from vmon.core import Skip
from vmon import gen
from vmon.gen import as_layout, cont_system, orth, pick

RULE = (
    "Optimized DMD fitted on exact sums of exponentials at uneven, unordered and "
    "gapped times (ground truth), on noisy and on unstructured data (variable "
    "projection identities, constraints), and in bagged form; distinct = distinct "
    "(workload, projection, constraint, initial guess, time axis, dtype) tuples."
)
ASSUMPTIONS = [
    "ground truth is judged when the initial guess lies within 5% of the "
    "frequency separation, or is computed by PyDMD from a well sampled, ordered "
    "time axis",
    "bagged statistics are judged for eigenvalues the chosen sorting separates",
]
CASE_TIMEOUT = 60
OPTS = dict(tol=1e-10, maxiter=100, eps_stall=1e-15)


def match_eigs(a, b):
    return gen.match_eigs(a, b)[0]


def axis(rng, m):
    """(name, time vector): positive length, no repeated instant."""
    T = 10.0 ** rng.uniform(-1, 1)
    k = pick(rng, ["even", "jitter", "gap", "shuffled", "reversed"])
    u = np.arange(m, dtype=float)
    if k == "jitter":
        u = u + rng.uniform(-0.35, 0.35, m)
    elif k == "gap":
        u[m // 2:] += 1.5
    t = u / (m - 1) * T + pick(rng, [0.0, 0.0, rng.uniform(-1, 1) * T])
    return k, t


def order(rng, kind, m):
    if kind == "shuffled":
        return rng.permutation(m)
    if kind == "reversed":
        return np.arange(m)[::-1]
    return np.arange(m)


def expmat(eigs, t):
    return np.exp(np.outer(eigs, t))


def quiet_fit(d, *a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return d.fit(*a)


def structure(mon, d, X, t, where, use_proj=True, prox=False, cons=None, tol=1e-7):
    """Relations that hold after every unbagged fit."""
    Phi, om, b = d.modes, d.eigs, d.amplitudes
    sc = max(np.abs(X).max(), 1e-300)
    E = expmat(om, t)
    # a mode which does not contribute at all is reported as zero
    nrm = np.linalg.norm(Phi, axis=0)
    if not prox:
        live = np.abs(b) > 0
        mon.close("unit-modes", nrm[live], np.ones(live.sum()), 1e-10, where)
    mon.ok("amplitudes-nonneg", np.all(np.isreal(b)) and np.all(np.real(b) >= 0), where)
    grow = max(1.0, np.abs(E).max() * np.abs(b).max() / sc)
    mon.close("dynamics", d.dynamics, np.diag(b) @ E, 1e-9, where, scale=grow * sc)
    mon.close("reconstruction", d.reconstructed_data, Phi @ np.diag(b) @ E, 1e-9, where,
              scale=grow * sc)
    mon.close("time", d.time, t, 1e-15, where)
    # variable projection: the modes are the best ones for these eigenvalues
    if not prox:
        D = X if not use_proj else d.proj_basis @ (d.proj_basis.conj().T @ X)
        if np.linalg.cond(E) < 1e6:
            best = np.linalg.lstsq(E.T, D.T, rcond=None)[0].T @ E
            mon.close("best-modes", Phi @ np.diag(b) @ E, best, tol, where, scale=grow * sc)
    check_cons(mon, om, cons, where)
    # operators
    Q = d.proj_basis
    w = Q.conj().T @ Phi
    if np.all(nrm > 0) and np.linalg.cond(Phi) < 1e4 and not prox:
        os = max(1e-12, np.abs(om).max())
        mon.close("atilde-eigenpairs", d.atilde @ w, w * om, 1e-6, where, scale=os)
        if d.compute_A:
            mon.close("A-eigenpairs", d.A @ Phi, Phi * om, 1e-6, where, scale=os)
            mon.close("A-low-rank", d.A @ (np.eye(len(Phi)) - Phi @ np.linalg.pinv(Phi)),
                      np.zeros_like(d.A), 1e-6, where, scale=os)


def check_cons(mon, om, cons, where):
    if not cons or callable(cons):
        return
    s = max(1e-12, np.abs(om).max())
    if "stable" in cons:
        mon.le("stable", om.real.max(), 1e-14 * s, where)
    if "imag" in cons:
        mon.le("imaginary", np.abs(om.real).max(), 1e-14 * s, where)
    if "conjugate_pairs" in cons:
        mon.le("conjugate-pairs", match_eigs(om, om.conj()), 1e-9 * s, where)


def noconj(fn):
    """conjugate_pairs documents a ValueError for unsuited eigenvalues"""
    try:
        return fn()
    except ValueError as e:
        if "conjugate" in str(e):
            raise Skip()
        raise


def guess(rng, s, t, kind):
    """initial eigenvalues near the truth, in random order, or None"""
    if kind == "own":
        return None
    sep = 2 * np.pi / (t.max() - t.min())
    g = s.omega + 0.05 * sep * (rng.standard_normal(len(s.omega))
                                + 1j * rng.standard_normal(len(s.omega)))
    return g[rng.permutation(len(g))]


def fully(rng, mon):
    m = int(rng.integers(24, 60))
    kind, t = axis(rng, m)
    cons = pick(rng, [None, None, {"stable"}, {"imag"}, {"conjugate_pairs"},
                      {"conjugate_pairs", "stable"}, {"conjugate_pairs", "imag"}, "fn"])
    real = True if cons and "conjugate_pairs" in cons else None
    s = cont_system(rng, t=t, real=real, imag=bool(cons and "imag" in cons),
                    stable=bool(cons and "stable" in cons))
    p = order(rng, kind, m)
    t = t[p]
    X = s.at(t)
    n, r = X.shape[0], len(s.omega)
    gk = pick(rng, ["own", "given"]) if kind not in ("shuffled",) else "given"
    use_proj = bool(rng.random() < 0.6)
    fn = None
    if cons == "fn":
        lim = np.abs(s.omega.real).max() * 1.5 + 1e-9

        def fn(e):
            return np.clip(e.real, -lim, lim) + 1j * e.imag

    kw = dict(svd_rank=pick(rng, [r, r, -2]), use_proj=use_proj,
              compute_A=bool(rng.integers(2)), init_alpha=guess(rng, s, t, gk),
              eig_constraints=fn if cons == "fn" else cons,
              varpro_opts_dict=dict(OPTS, use_fulljac=bool(rng.integers(2)),
                                    use_levmarq=bool(rng.integers(2))))
    if kw["svd_rank"] == -2:
        kw["svd_rank"] = r
        if use_proj:
            kw["proj_basis"] = np.linalg.svd(X, full_matrices=False)[0][:, :r] @ orth(
                rng, r, r, np.iscomplexobj(X))
    where = f"{kind} t, {r} eigs, proj={use_proj}, cons={cons}, guess={gk}"
    mon.describe(where=where, n=n, m=m, real=s.real)
    mon.sig("exact", kind, use_proj, cons if isinstance(cons, str) else sorted(cons or []),
            gk, s.real, "proj_basis" in kw)
    d = BOPDMD(**kw)
    noconj(lambda: quiet_fit(d, as_layout(rng, X), pick(rng, [t, list(t), t[None]])))
    sep = 2 * np.pi / (t.max() - t.min())
    rel = np.linalg.norm(d.reconstructed_data - X) / np.linalg.norm(X)
    if gk == "own" and rel > 1e-6:
        raise Skip()  # local search from a rough guess
    mon.event("recovered")
    mon.le("true-eigs", match_eigs(d.eigs, s.omega) / sep, 1e-5, where)
    mon.close("true-data", d.reconstructed_data, X, 1e-6, where)
    structure(mon, d, X, t, where, use_proj, cons=cons if cons != "fn" else None)
    # elsewhere in time, also outside the window
    T = t.max() - t.min()
    t2 = np.sort(rng.uniform(t.min() - 0.2 * T, t.max() + 0.5 * T, int(rng.integers(1, 12))))
    mon.close("true-forecast", d.forecast(pick(rng, [t2, list(t2)])), s.at(t2), 1e-5, where)
    if d.compute_A and rng.random() < 0.5:
        # the generator moves the state as the system does
        import scipy.linalg as sl
        h = 0.1 * T
        mon.close("A-generates", sl.expm(d.A * h) @ s.at(t[:1]), s.at(t[:1] + h), 1e-5, where)
    symmetry(rng, mon, kw, X, t, d, s, where)


def symmetry(rng, mon, kw, X, t, d, s, where):
    """The same physics in other units, another order, another frame."""
    kind = pick(rng, ["shift", "stretch", "permute", "scale", "rotate", "econ", "nd"])
    kw = dict(kw)
    X2, t2, eig2, U, c = X, t, d.eigs, None, 1.0
    if kind == "shift":
        t2 = t + rng.uniform(-1, 1) * (t.max() - t.min())
    elif kind == "stretch":
        a = 10.0 ** rng.uniform(-2, 2)
        t2, eig2 = t * a, d.eigs / a
        if kw["init_alpha"] is not None:
            kw["init_alpha"] = kw["init_alpha"] / a
        if callable(kw["eig_constraints"]):
            kw["eig_constraints"] = None
    elif kind == "permute":
        p = rng.permutation(len(t))
        X2, t2 = X[:, p], t[p]
        kw["init_alpha"] = guess(rng, s, t, "given")
    elif kind == "scale":
        c = 10.0 ** rng.uniform(-6, 6)
        X2 = X * c
    elif kind == "rotate":
        U = orth(rng, X.shape[0], X.shape[0], np.iscomplexobj(X))
        X2 = U @ X
        if kw.get("proj_basis") is not None:
            kw["proj_basis"] = U @ kw["proj_basis"]
    elif kind == "econ":
        r = len(d.eigs)
        if not kw["use_proj"]:
            return
        Us, ss, Vs = np.linalg.svd(X, full_matrices=False)
        kw["proj_basis"] = Us[:, :r]
        e = BOPDMD(**kw)
        if kw["init_alpha"] is None and r > 2 and rng.random() < 0.5:
            # an instance that held a smaller model before
            e = BOPDMD(**dict(kw, svd_rank=r - 2, proj_basis=None))
            noconj(lambda: quiet_fit(e, X, t))
            e.svd_rank, e.proj_basis = r, kw["proj_basis"]
            mon.event("econ-after-fit")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            noconj(lambda: e.fit_econ(pick(rng, [ss[:r], list(ss[:r])]), Vs[:r], t))
        mon.event("econ")
    elif kind == "nd":
        X2 = X.reshape(1, -1, len(t))
    if kind != "econ":
        e = BOPDMD(**kw)
        noconj(lambda: quiet_fit(e, X2, t2))
    mon.event("sym-" + kind)
    w2 = where + " vs " + kind
    rel = np.linalg.norm(e.modes @ e.dynamics - X2.reshape(-1, len(t))) / np.linalg.norm(X2)
    if rel > 1e-6 and kw["init_alpha"] is None:
        raise Skip()
    sep = 2 * np.pi / (t2.max() - t2.min())
    mon.le("sym-eigs", match_eigs(e.eigs, eig2) / sep, 1e-5, w2)
    rec = e.reconstructed_data if kind != "econ" else e.modes @ e.dynamics
    mon.close("sym-data", rec.reshape(X2.shape), X2, 1e-6, w2)
    if kind == "scale":
        a, b = np.sort(np.abs(e.amplitudes)), np.sort(np.abs(d.amplitudes)) * c
        mon.close("sym-amplitudes", a, b, 1e-5, w2)


def generic(rng, mon):
    """Any data at all: what a fit reports is consistent and admissible."""
    m = int(rng.integers(10, 40))
    kind, t = axis(rng, m)
    p = order(rng, kind, m)
    cons = pick(rng, [None, None, {"stable"}, {"imag"}, {"conjugate_pairs"},
                      {"conjugate_pairs", "stable"}, {"conjugate_pairs", "imag"}, "fn"])
    style = pick(rng, ["noisy", "noisy", "random", "growing"])
    n = int(rng.integers(2, 12))
    cplx = bool(rng.random() < 0.4)
    if style == "noisy":
        s = cont_system(rng, t=t, n=n, real=not cplx, r=min(n, int(rng.integers(1, 4)) * 2) // 2 * 2
                        or 1)
        X = s.at(t)
        X = X + 10.0 ** rng.uniform(-4, -0.5) * rng.standard_normal(X.shape)
    elif style == "random":
        X = rng.standard_normal((n, m)) + (1j * rng.standard_normal((n, m)) if cplx else 0)
    else:
        T = t.max() - t.min()
        X = np.outer(rng.standard_normal(n), np.exp((t - t.min()) / T * rng.uniform(1, 4)))
        X = X + 0.1 * rng.standard_normal((n, m))
    t = t[p]
    X = X[:, p] * 10.0 ** rng.uniform(-3, 3)
    n = len(X)
    r = int(rng.integers(1, min(n, 5) + 1))
    T = t.max() - t.min()
    lim = 3.0 / T
    seen = []

    def box(e):
        seen.append(np.array(e))
        return np.clip(e.real, -lim, 0.5 * lim) + 1j * np.clip(e.imag, -30 / T, 30 / T)

    init = None
    if rng.random() < 0.5 or kind == "shuffled":
        init = (rng.uniform(-2, 1, r) + 1j * rng.uniform(-8, 8, r)) / T
        if cons and cons != "fn" and "conjugate_pairs" in cons and rng.random() < 0.7:
            h = r // 2
            init = np.concatenate([init[:h], init[:h].conj(), init[2 * h:].real])
    use_proj = bool(rng.random() < 0.6)
    proxk = pick(rng, ["none", "none", "none", "shrink"]) if use_proj else "none"
    kw = dict(svd_rank=r, use_proj=use_proj, compute_A=bool(rng.integers(2)), init_alpha=init,
              eig_constraints=box if cons == "fn" else cons,
              mode_prox=(lambda w: 0.5 * w) if proxk == "shrink" else None,
              varpro_opts_dict=dict(maxiter=int(pick(rng, [1, 5, 30, 60])),
                                    use_fulljac=bool(rng.integers(2)),
                                    use_levmarq=bool(rng.integers(2))))
    where = f"{style} {kind} n={n} m={m} r={r} proj={use_proj} cons={cons} prox={proxk}"
    mon.describe(where=where, init=init is not None)
    mon.sig("generic", style, kind, use_proj, cons if isinstance(cons, str) else
            sorted(cons or []), init is None, cplx, proxk)
    d = BOPDMD(**kw)
    try:
        noconj(lambda: quiet_fit(d, X, t))
    except np.linalg.LinAlgError:
        raise Skip()  # diverging search on data without structure
    if not np.all(np.isfinite(d.modes)) or not np.all(np.isfinite(d.eigs)):
        raise Skip()
    om = d.eigs
    if np.abs(expmat(om, t)).max() > 1e8:
        check_cons(mon, om, cons if cons != "fn" else None, where)
        return
    structure(mon, d, X, t, where, use_proj, prox=proxk != "none",
              cons=cons if cons != "fn" else None, tol=1e-6)
    if cons == "fn":
        mon.close("custom-constraint", box(om), om, 1e-12, where, scale=1 / T)
    if proxk == "shrink":
        free = BOPDMD(**dict(kw, mode_prox=None))
        noconj(lambda: quiet_fit(free, X, t))
        mon.close("prox-applied", d.modes, 0.5 * free.modes, 1e-9, where)
        mon.close("prox-eigs", d.eigs, free.eigs, 1e-9, where)
    # never worse than where the search started
    if proxk == "none":
        D = X if not use_proj else d.proj_basis @ (d.proj_basis.conj().T @ X)
        a0 = d.init_alpha
        if cons == "fn":
            a0 = box(a0)
        elif cons:
            if "stable" in cons:
                a0 = np.minimum(a0.real, 0) + 1j * a0.imag
            if "imag" in cons:
                a0 = 1j * a0.imag
            if "conjugate_pairs" in cons and (
                    init is None or match_eigs(init, init.conj()) > 0):
                a0 = None
        if a0 is not None and np.abs(expmat(a0, t)).max() < 1e8:
            E0 = expmat(a0, t)
            r0 = np.linalg.norm(D - np.linalg.lstsq(E0.T, D.T, rcond=None)[0].T @ E0)
            r1 = np.linalg.norm(D - d.reconstructed_data)
            mon.le("no-worse-than-start", r1, r0 * (1 + 1e-6) + 1e-7 * np.linalg.norm(D), where)
    f = np.asarray(t[: max(1, m // 3)])
    mon.close("forecast-model", d.forecast(f), d.modes @ np.diag(d.amplitudes) @ expmat(om, f),
              1e-9, where, scale=max(1e-300, np.abs(d.dynamics).max() + np.abs(X).max()))


def optimum(rng, mon):
    """Noisy data: the search ends at a stationary point of the residual."""
    m = int(rng.integers(24, 60))
    _, t = axis(rng, m)
    s = cont_system(rng, t=t)
    X = s.at(t)
    sig = 10.0 ** rng.uniform(-4, -1.5)
    X = X + sig * (rng.standard_normal(X.shape)
                   + (0 if s.real else 1j * rng.standard_normal(X.shape)))
    r = len(s.omega)
    use_proj = bool(rng.integers(2))
    lm = bool(rng.integers(2))
    full = bool(rng.random() < 0.7)
    d = BOPDMD(svd_rank=r, use_proj=use_proj, init_alpha=guess(rng, s, t, "given"),
               varpro_opts_dict=dict(maxiter=300, tol=1e-14, eps_stall=1e-14, use_levmarq=lm,
                                     use_fulljac=full))
    quiet_fit(d, X, t)
    where = f"noise {sig:.1e} proj={use_proj} r={r} full={full} lm={lm}"
    mon.describe(where=where)
    mon.sig("optimum", use_proj, r, full, lm, s.real)
    D = X if not use_proj else d.proj_basis @ (d.proj_basis.conj().T @ X)
    T = t.max() - t.min()

    def res(om):
        E = expmat(om, t)
        return np.linalg.norm(D - np.linalg.lstsq(E.T, D.T, rcond=None)[0].T @ E)

    mon.le("no-worse-than-truth", res(d.eigs), res(s.omega) * (1 + 1e-6), where)
    mon.close("eigs-near-truth", np.array([match_eigs(d.eigs, s.omega) * T / 2 / np.pi]),
              np.zeros(1), 1.0, where, scale=min(1.0, 40 * sig))
    base = res(d.eigs) ** 2
    for _ in range(6):
        v = rng.standard_normal(r) + 1j * rng.standard_normal(r)
        h = 1e-3 * sig / T * v / np.linalg.norm(v)
        g = (res(d.eigs + h) ** 2 - res(d.eigs - h) ** 2) / 2
        c = (res(d.eigs + h) ** 2 + res(d.eigs - h) ** 2) / 2 - base
        # slope against curvature: the minimum along v is within g/c steps
        mon.le("stationary", abs(g), 400 * abs(c) + 1e-9 * base, where)


def bagging(rng, mon):
    m = int(rng.integers(24, 50))
    _, t = axis(rng, m)
    s = cont_system(rng, t=t, damp=0.05)
    X = s.at(t)
    r = len(s.omega)
    kind = pick(rng, ["exact", "whole", "noisy", "recorded"])
    sig = 0.0 if kind == "exact" else 10.0 ** rng.uniform(-4, -2)
    X = X + sig * rng.standard_normal(X.shape)
    trials = int(rng.integers(1, 8))
    size = pick(rng, [0.5, 0.8, 0.99, m - 2, int(0.6 * m)])
    if kind == "whole":
        size = m
    use_proj = True if kind == "recorded" else bool(rng.integers(2))
    log = []

    def prox(w):
        log.append(np.array(w))
        return w

    es = pick(rng, ["imag", "auto"])
    if es == "auto" and np.var(s.omega.imag) < 4 * max(np.var(s.omega.real),
                                                       np.var(np.abs(s.omega))):
        es = "imag"
    init = guess(rng, s, t, "given")
    rmv = kind == "exact" and bool(rng.integers(2))
    kw = dict(svd_rank=r, use_proj=use_proj, num_trials=trials, trial_size=size, eig_sort=es,
              init_alpha=init, compute_A=bool(rng.integers(2)), remove_bad_bags=rmv,
              mode_prox=prox if kind == "recorded" else None,
              varpro_opts_dict=dict(OPTS, tol=1e-8 if kind == "exact" else 1e-10))
    seed = int(rng.integers(2**31))
    where = f"bag {kind} trials={trials} size={size} of {m} r={r} sort={es} proj={use_proj} " \
            f"remove_bad={rmv}"
    mon.describe(where=where)
    mon.sig("bag", kind, trials, str(size) if isinstance(size, float) else "int", es, use_proj, r)

    def run(**more):
        log.clear()
        np.random.seed(seed)
        return quiet_fit(BOPDMD(**dict(kw, **more)), X, t)

    d = run()
    W = log[1:]  # the callback saw every trial; trial 0 is the unbagged start
    T = t.max() - t.min()
    sep = 2 * np.pi / T
    for nm, a, ref in (("modes_std", d.modes_std, d.modes), ("eigs_std", d.eigenvalues_std, d.eigs),
                       ("amps_std", d.amplitudes_std, d.amplitudes)):
        mon.ok("std-shape", np.shape(a) == np.shape(ref) and np.all(np.isreal(a))
               and np.all(np.real(a) >= 0), f"{where} {nm}")
    mon.ok("sorted-by-imag", np.all(np.diff(d.eigs.imag) > 0), where)
    if r > 1 and rng.random() < 0.5:
        # a selection of modes selects their deviations
        every = [np.array(a) for a in (d.modes_std, d.eigenvalues_std, d.amplitudes_std)]
        mask = rng.random(len(d.eigs)) < 0.5
        mask[int(rng.integers(len(mask)))] = True
        d.modes_activation_bitmask = mask
        for a, f in zip((d.modes_std, d.eigenvalues_std, d.amplitudes_std), every):
            mon.ok("std-of-selection", np.array_equal(a, f[..., mask]), where)
        d.modes_activation_bitmask = np.ones(len(mask), bool)
        for a, f in zip((d.modes_std, d.eigenvalues_std, d.amplitudes_std), every):
            mon.ok("std-of-selection", np.array_equal(a, f), where)
    single = quiet_fit(BOPDMD(**dict(kw, num_trials=0)), X, t)
    mon.ok("single-has-no-std", single.eigenvalues_std is None and single.modes_std is None
           and single.amplitudes_std is None, where)
    p = np.argsort(single.eigs.imag)
    lim = {"exact": 1e-5, "whole": 1e-5}.get(kind, 60 * sig)
    mon.le("mean-eigs", np.abs(d.eigs - single.eigs[p]).max() / sep, lim, where)
    mon.close("mean-modes", d.modes, single.modes[:, p], lim, where, scale=1.0)
    mon.close("mean-amps", d.amplitudes, single.amplitudes[p], lim, where,
              scale=np.abs(single.amplitudes).max())
    mon.le("eigs-std", np.max(d.eigenvalues_std) / sep, max(lim, 1e-7), where)
    mon.le("modes-std", np.max(d.modes_std), max(lim, 1e-7), where)
    mon.le("amps-std", np.max(d.amplitudes_std) / np.abs(single.amplitudes).max(),
           max(lim, 1e-7), where)
    if kind == "recorded" and trials > 1:
        if mon.eq("trial-count", len(W), trials, where):
            ws = []
            for w in W:
                c = np.abs(d.modes.conj().T @ w)
                q = np.argmax(c, axis=1)
                if sorted(q) != list(range(r)):
                    raise Skip()
                ws.append(w[:, q])
            ws = np.array(ws)
            mu = ws.mean(0)
            mon.close("bag-mean", d.modes, mu, 1e-9, where, scale=1.0)
            var = (np.abs(ws - mu) ** 2).mean(0)
            mon.close("bag-var", d.modes_std ** 2, var, 1e-9, where, scale=1.0)
            if sig > 1e-3:
                mon.ok("bags-differ", np.max(var) > 0 and len({w.tobytes() for w in W}) > 1, where)
    if kind == "noisy" and trials > 1:
        mon.ok("spread", np.max(d.eigenvalues_std) > 1e-3 * sig * sep / m, where)
    e = run()
    mon.ok("seeded", np.array_equal(d.eigs, e.eigs) and np.array_equal(d.modes, e.modes), where)
    if np.linalg.cond(d.modes) < 1e4:
        w = d.proj_basis.conj().T @ d.modes
        os = np.abs(d.eigs).max()
        mon.close("bag-atilde", d.atilde @ w, w * d.eigs, 1e-6, where, scale=os)
        if d.compute_A:
            mon.close("bag-A", d.A @ d.modes, d.modes * d.eigs, 1e-6, where, scale=os)
    # ensemble forecast: mean and variance of the drawn models
    f = np.sort(rng.uniform(t.min(), t.max(), 5))
    np.random.seed(seed)
    mean, var = d.forecast(f)
    plain = d.modes @ np.diag(d.amplitudes) @ expmat(d.eigs, f)
    mon.ok("ensemble-shape", mean.shape == plain.shape == var.shape and np.all(np.isreal(var))
           and np.all(var.real >= 0), where)
    flim = 2e-4 if kind in ("exact", "whole") else 600 * sig
    big = np.abs(plain).max() + 1e-300
    mon.close("ensemble-mean", mean, plain, flim, where, scale=big)
    mon.le("ensemble-var", var.max() / big ** 2, flim ** 2, where)
    np.random.seed(seed)
    # the same draws, taken by the documented recipe with another generator
    draws = []
    g = np.random.default_rng(seed)
    for _ in range(400):
        ek = d.eigs + g.standard_normal(r) * d.eigenvalues_std
        bk = d.amplitudes + g.standard_normal(r) * d.amplitudes_std
        draws.append(d.modes @ np.diag(bk) @ expmat(ek, f))
    v400 = np.var(np.array(draws), axis=0)
    if kind == "noisy" and trials > 2:
        tot = 0
        for k in range(12):
            np.random.seed(seed + k + 1)
            tot = tot + d.forecast(f)[1]
        tot = tot / 12 * trials / (trials - 1)
        ratio = tot.sum() / v400.sum()
        mon.ok("ensemble-var-size", 0.08 < ratio < 8, f"{where} ratio {ratio:.2f}")


def badbags(rng, mon):
    m = int(rng.integers(20, 40))
    _, t = axis(rng, m)
    s = cont_system(rng, t=t)
    X = s.at(t) + 0.05 * rng.standard_normal((len(s.Phi), m))
    r = len(s.omega)
    kind = pick(rng, ["hopeless", "fine", "keep", "sizes"])
    init = guess(rng, s, t, "given")
    base = dict(svd_rank=r, init_alpha=init, num_trials=3)
    where = f"{kind} m={m} r={r}"
    mon.sig("badbags", kind, r)
    mon.describe(where=where)
    if kind == "hopeless":
        d = BOPDMD(**base, trial_size=0.8, remove_bad_bags=True, bag_maxfail=int(rng.integers(1, 4)),
                   varpro_opts_dict=dict(tol=1e-12, maxiter=5))
        mon.raises("gives-up", RuntimeError, lambda: quiet_fit(d, X, t), where)
    elif kind == "fine":
        # exact data, converged trials: nothing is thrown away
        Z = s.at(t)
        d = BOPDMD(**dict(base, init_alpha=pick(rng, [init, s.omega.copy()])), trial_size=0.8,
                   remove_bad_bags=True, bag_maxfail=3,
                   use_proj=bool(rng.integers(2)),
                   varpro_opts_dict=dict(tol=10.0 ** rng.integers(-9, -4), maxiter=60))
        try:
            quiet_fit(d, Z, t)
        except RuntimeError as e:
            mon.ok("good-bags-kept", False, f"{where}: {e}")
            return
        mon.ok("good-bags-kept", True, where)
        mon.le("good-bags-eigs", match_eigs(d.eigs, s.omega) * (t.max() - t.min()), 1e-3, where)
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            BOPDMD(svd_rank=r, init_alpha=s.omega.copy(),
                   varpro_opts_dict=dict(tol=1e-6)).fit(Z, t)
        mon.ok("no-spurious-warning", not any("converge" in str(w.message) for w in rec), where)
    elif kind == "keep":
        d = BOPDMD(**base, trial_size=0.8, remove_bad_bags=False, bag_maxfail=1,
                   varpro_opts_dict=dict(tol=1e-12, maxiter=5))
        quiet_fit(d, X, t)
        mon.ok("kept", d.eigenvalues_std is not None, where)
    else:
        bad = pick(rng, [0, -1, -0.5, 1.5, 1.0, m + 1, 0.5 / m, "3"])
        d = BOPDMD(**base, trial_size=bad)
        mon.raises("bad-size", (ValueError, TypeError), lambda: quiet_fit(d, X, t), f"{where} {bad!r}")


def streaks(rng, mon):
    """One spoiled snapshot: the trials that draw it fail, the others go on;
    scattered failures are no reason to give up, and leave no trace."""
    m = int(rng.integers(24, 40))
    t = np.sort(axis(rng, m)[1])
    s = cont_system(rng, t=t, r=2, n=int(rng.integers(2, 5)), real=False)
    if s.cond(t) > 10:
        raise Skip()
    X = np.array(s.at(t))
    X[:, int(rng.integers(m))] += 0.2 * np.abs(X).max()
    size = 0.4
    d = BOPDMD(svd_rank=2, init_alpha=s.omega.copy(), num_trials=50, trial_size=size,
               remove_bad_bags=True, bag_maxfail=18, eig_sort="imag",
               varpro_opts_dict=dict(tol=1e-6, maxiter=40))
    where = f"streaks m={m} n={len(X)}"
    mon.describe(where=where)
    mon.sig("streaks", m // 4, len(X))
    np.random.seed(int(rng.integers(2**31)))
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            quiet_fit(d, X, t)
    except RuntimeError as e:
        mon.ok("scattered-failures-tolerated", False, f"{where}: {e}")
        return
    mon.ok("scattered-failures-tolerated", True, where)
    o = np.argsort(s.omega.imag)
    if np.abs(np.diff(s.omega.imag)).min() * (t[-1] - t[0]) > 0.5:
        mon.le("bad-bags-leave-no-trace", np.abs(d.eigs - s.omega[o]).max() * (t[-1] - t[0]), 1e-3,
               where)


def descent(rng, mon):
    """However the step length is controlled, further iterations never lose
    what earlier ones gained."""
    m = int(rng.integers(10, 40))
    t = np.sort(axis(rng, m)[1])
    r = int(rng.integers(1, 5))
    n = int(rng.integers(r, 8))
    X = rng.standard_normal((n, m)) + 1j * rng.standard_normal((n, m))
    if rng.random() < 0.5:
        s = cont_system(rng, t=t, n=n, r=r, real=False)
        X = s.at(t) + 10.0 ** rng.uniform(-4, -0.5) * X
    T = t[-1] - t[0]
    init = (rng.uniform(-2, 1, r) + 1j * rng.uniform(-m, m, r)) / T
    cons = pick(rng, [None, None, {"stable"}, {"imag"}])
    if cons == {"stable"}:
        init = -np.abs(init.real) + 1j * init.imag
    elif cons == {"imag"}:
        init = 1j * init.imag
    opts = dict(init_lambda=10.0 ** rng.uniform(-12, 3), maxlam=int(rng.integers(1, 6)),
                lamup=float(rng.uniform(1.02, 4)), use_levmarq=bool(rng.integers(2)),
                tol=1e-12, eps_stall=float(pick(rng, [1e-15, 1e-6])))
    proj = bool(rng.integers(2))
    where = f"descent m={m} n={n} r={r} {opts} {cons} proj={proj}"
    mon.describe(where=where)
    mon.sig("descent", n, r, opts["maxlam"], str(cons))
    H = X.T
    if proj:
        # the objective is that of the projected data
        U = np.linalg.svd(X, full_matrices=False)[0][:, :r]
        H = (U.conj().T @ X).T

    def err(om):
        P = np.exp(np.outer(t, om))
        if not np.isfinite(P).all() or np.linalg.cond(P) > 1e7:
            raise Skip()
        return np.linalg.norm(H - P @ np.linalg.lstsq(P, H, rcond=None)[0]) / np.linalg.norm(H)

    last = err(init)
    for k in (1, 2, 3, 5, 9):
        try:
            d = quiet_fit(BOPDMD(svd_rank=r, init_alpha=init.copy(), eig_constraints=cons, use_proj=proj,
                                 varpro_opts_dict=dict(opts, maxiter=k)), X, t)
        except (np.linalg.LinAlgError, ValueError):
            raise Skip()
        e = err(d.eigs)
        mon.le("never-uphill", e, last * (1 + 1e-7) + 1e-12, f"{where} maxiter={k}")
        last = e


def rejects(rng, mon):
    kind = pick(rng, ["sort", "constraint", "mix", "type", "proj", "init", "econ-no-basis",
                      "econ-shape"])
    m = 20
    t = np.linspace(0, 3, m)
    X = cont_system(rng, t=t, r=2, n=5).at(t)
    mon.sig("reject", kind)
    bad = (ValueError, TypeError)
    if kind == "sort":
        f = lambda: BOPDMD(svd_rank=2, num_trials=2, trial_size=0.8, eig_sort="size").fit(X, t)
    elif kind == "constraint":
        f = lambda: BOPDMD(svd_rank=2, eig_constraints={pick(rng, ["unstable", "real", ""])})
    elif kind == "mix":
        f = lambda: BOPDMD(svd_rank=2, eig_constraints={"stable", "imag"})
    elif kind == "type":
        f = lambda: BOPDMD(svd_rank=2, eig_constraints=pick(rng, [["stable"], "stable", 3]))
    elif kind == "proj":
        f = lambda: BOPDMD(svd_rank=2, proj_basis=np.eye(5)[:, :3]).fit(X, t)
    elif kind == "init":
        f = lambda: BOPDMD(svd_rank=2, init_alpha=np.ones(4, complex)).fit(X, t)
    elif kind == "econ-no-basis":
        U, s, V = np.linalg.svd(X, full_matrices=False)
        f = lambda: BOPDMD(svd_rank=2).fit_econ(s[:2], V[:2], t)
    else:
        U, s, V = np.linalg.svd(X, full_matrices=False)
        args = pick(rng, [(s[:3], V[:2], t), (s[:2], V[:3], t), (s[:2], V[:2], t[:-1])])
        f = lambda: BOPDMD(svd_rank=2, proj_basis=U[:, :2]).fit_econ(*args)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mon.raises("rejected", bad, f, kind)


def odd_pairs(rng, mon):
    """a pair-constrained fit with a fast decaying real eigenvalue, from a good guess"""
    k = int(rng.integers(1, 3))
    w = np.array([1.0, 2.3])[:k] * rng.uniform(0.8, 1.2)
    osc = rng.uniform(-0.3, 0.0, k) + 1j * w
    real = rng.uniform(-4.0, -2.0)
    lam = np.concatenate([osc, osc.conj(), [real]])
    lam = lam[rng.permutation(len(lam))]
    t = np.linspace(0, rng.uniform(3, 5), int(rng.integers(40, 70)))
    n = int(rng.integers(6, 10))
    P = {}
    cols = []
    for z in lam:
        key = (round(z.real, 9), round(abs(z.imag), 9))
        if key not in P:
            P[key] = rng.standard_normal(n) + 1j * (abs(z.imag) > 0) * rng.standard_normal(n)
        cols.append(P[key] if z.imag >= 0 else P[key].conj())
    X = (np.array(cols).T @ np.exp(np.outer(lam, t))).real
    if np.linalg.svd(X, compute_uv=False)[len(lam) - 1] < 1e-3 * np.linalg.norm(X):
        raise Skip()
    init = lam + 1e-3 * rng.standard_normal(len(lam)) * (1 + 0j)
    mon.describe(lam=lam, n=n, m=len(t))
    mon.sig("odd-pairs", k, n)
    m = BOPDMD(svd_rank=len(lam), eig_constraints={"conjugate_pairs"}, init_alpha=init,
               varpro_opts_dict={"tol": 1e-10, "maxiter": 50})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(X, t)
    e = np.asarray(m.eigs)
    mon.le("odd-pairs-eigs", match_eigs(lam, e), 1e-5, "conjugate pairs and a real one")
    mon.ok("odd-pairs-real", np.sum(e.imag == 0) == 1, e)


WORKLOADS = {
    "odd_pairs": {"fn": odd_pairs, "quick": 60, "thorough": 1000},
    "exact": {"fn": fully, "quick": 700, "thorough": 8000},
    "generic": {"fn": generic, "quick": 900, "thorough": 12000},
    "optimum": {"fn": optimum, "quick": 150, "thorough": 2500},
    "bagging": {"fn": bagging, "quick": 250, "thorough": 3500},
    "badbags": {"fn": badbags, "quick": 120, "thorough": 1500},
    "streaks": {"fn": streaks, "quick": 16, "thorough": 200},
    "descent": {"fn": descent, "quick": 250, "thorough": 6000},
    "rejects": {"fn": rejects, "quick": 60, "thorough": 300},
}
REQUIRED = {"true-eigs": 200, "true-forecast": 200, "sym-eigs": 150, "best-modes": 400,
            "stable": 50, "imaginary": 50, "conjugate-pairs": 40, "no-worse-than-start": 150,
            "stationary": 200, "mean-eigs": 100, "bag-mean": 15, "rejected": 30}
