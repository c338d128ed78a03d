"""C01: exact recovery of linear dynamics by every snapshot-based variant."""

import numpy as np

import pydmd
from pydmd import (
    CDMD,
    DMD,
    EDMD,
    RDMD,
    FbDMD,
    HankelDMD,
    HODMD,
    OptDMD,
    SubspaceDMD,
)
from vmon.core import Skip
from vmon.gen import (
    as_layout,
    linear_system,
    match_eigs,
    ndshape,
    pick,
    subspace_dist,
    well_conditioned,
)

RULE = (
    "Random noiseless linear systems (real/complex, rank 1-6, distinct "
    "eigenvalues, dynamics condition number < 300) x random algorithm and "
    "option combination x random array layout / snapshot shape / forecast "
    "window; a case is non-trivial when the fitted model was compared with "
    "the generating system; distinct = distinct (class, option set, "
    "real/complex, shape kind, rank) tuples."
)
ASSUMPTIONS = [
    "snapshot count and rank suffice (m >= 2r+4) and the data are well "
    "conditioned, so round-off cannot exceed the 1e-6 relative tolerance",
    "forward-backward variants: only the invariant that holds for either "
    "choice of backward basis is enforced as a new violation (see known "
    "finding fb-basis)",
]
TOL = 1e-6


def layout_input(rng, X, nd_ok=True):
    """(input object, shape kind)"""
    k = int(rng.integers(4)) if nd_ok else 0
    if k == 1:
        shp = ndshape(rng, X.shape[0])
        return as_layout(rng, X.reshape(shp + (X.shape[1],))), "nd%d" % len(shp)
    if k == 2:
        return [as_layout(rng, c) for c in X.T], "list"
    if k == 3:
        shp = ndshape(rng, X.shape[0])
        return [c.reshape(shp) for c in X.T], "listnd"
    return as_layout(rng, X), "2d"


def rank_spec(rng, X, r):
    """A rank request that, by the documentation, selects exactly r."""
    s = np.linalg.svd(X, compute_uv=False)
    opts = ["int"]
    en = np.cumsum(s**2) / np.sum(s**2)
    lo = en[r - 2] if r > 1 else 0.0
    if en[r - 1] - lo > 1e-5:
        opts.append("float")
    if min(X.shape) == r:
        opts.append("full")
    k = pick(rng, opts)
    if k == "int":
        return r
    if k == "full":
        return -1
    return float(lo + (min(en[r - 1], 1.0) - lo) * rng.uniform(0.3, 0.7))


def common_opts(rng, r, m, names):
    kw = {}
    if "exact" in names:
        kw["exact"] = bool(rng.integers(2))
    if "opt" in names:
        kw["opt"] = pick(
            rng, [False, True, 0, 1, -1, -2, int(rng.integers(0, m))]
        )
    if "tlsq_rank" in names:
        kw["tlsq_rank"] = pick(rng, [0, 0, r, r + 1, m + 50])
    if "rescale_mode" in names:
        kw["rescale_mode"] = pick(
            rng, [None, None, "auto", rng.uniform(0.5, 2.0, r)]
        )
    if "forward_backward" in names:
        kw["forward_backward"] = bool(rng.random() < 0.15)
    if "sorted_eigs" in names:
        kw["sorted_eigs"] = pick(rng, [False, "abs", "real"])
    if "tikhonov_regularization" in names:
        kw["tikhonov_regularization"] = pick(rng, [None, None, 0, 1e-14])
    return kw


ALL = (
    "exact",
    "opt",
    "tlsq_rank",
    "rescale_mode",
    "forward_backward",
    "sorted_eigs",
    "tikhonov_regularization",
)


def build(rng, name, s, X):
    r, m = s.r, s.m
    if name == "DMD":
        kw = common_opts(rng, r, m, ALL)
        return DMD(svd_rank=rank_spec(rng, X[:, :-1], r), **kw), kw
    if name == "FbDMD":
        kw = common_opts(
            rng, r, m, ("exact", "opt", "tlsq_rank", "rescale_mode", "sorted_eigs")
        )
        kw["forward_backward"] = True
        k2 = dict(kw)
        k2.pop("forward_backward")
        return FbDMD(svd_rank=r, **k2), kw
    if name == "CDMD":
        kw = common_opts(rng, r, m, ALL[1:])
        mats = ["normal", "normal", "uniform", "sparse", "array", "carray"]
        if X.shape[0] >= m and m >= 3 * r:
            mats.append("sample")
        c = pick(rng, mats)
        if c == "array":
            c = rng.standard_normal((int(rng.integers(r + 2, r + 12)), X.shape[0]))
        elif isinstance(c, str) and c == "carray":
            q = int(rng.integers(r + 2, r + 12))
            c = rng.standard_normal((q, X.shape[0])) + 1j * rng.standard_normal(
                (q, X.shape[0])
            )
        kw2 = dict(kw, compression_matrix=c)
        return CDMD(svd_rank=r, **kw2), kw2
    if name == "RDMD":
        kw = common_opts(rng, r, m, ALL[1:])
        kw2 = dict(
            kw,
            oversampling=int(rng.integers(2, 12)),
            power_iters=int(rng.integers(0, 4)),
            seed=pick(rng, [None, 3]),
        )
        if rng.random() < 0.25:
            kw2["test_matrix"] = rng.standard_normal((m, r + 4))
        return RDMD(svd_rank=r, **kw2), kw2
    if name == "SubspaceDMD":
        kw = common_opts(rng, r, m, ("opt", "rescale_mode", "sorted_eigs"))
        return SubspaceDMD(svd_rank=r, **kw), kw
    if name == "EDMD":
        kw = common_opts(rng, r, m, ("opt", "tlsq_rank"))
        return EDMD(svd_rank=r, **kw), kw
    if name in ("HankelDMD", "HODMD"):
        names = ALL if name == "HankelDMD" else ALL[:-1]
        kw = common_opts(rng, r, m, names)
        d = int(rng.integers(1, max(2, min(6, m - r - 3))))
        nw = m - d + 1
        if isinstance(kw["opt"], int) and not isinstance(kw["opt"], bool):
            kw["opt"] = int(kw["opt"]) % max(1, nw - 1)
        kw["tlsq_rank"] = min(kw["tlsq_rank"], m)
        rec = pick(rng, ["first", "mean", "w"])
        if rec == "w":
            w = rng.uniform(0.2, 1.0, d)
            rec = pick(rng, [w, list(w), tuple(w)])
        kw.update(d=d, reconstruction_method=rec)
        if name == "HODMD":
            kw["svd_rank_extra"] = pick(rng, [r, r, r + 3, -1])
            return HODMD(svd_rank=r, **kw), kw
        return HankelDMD(svd_rank=r, **kw), kw
    raise AssertionError(name)


def kwsig(kw):
    out = []
    for k, v in sorted(kw.items()):
        if isinstance(v, np.ndarray):
            v = "arr" + ("c" if np.iscomplexobj(v) else "")
        elif isinstance(v, (list, tuple)):
            v = type(v).__name__
        elif k == "opt" and not isinstance(v, bool):
            v = "neg" if v < 0 else "int"
        elif k in ("oversampling", "tlsq_rank", "d"):
            v = "0" if not v else ("1" if v == 1 else "+")
        out.append("%s=%s" % (k, v))
    return ",".join(out)


VARIANTS = [
    "DMD",
    "DMD",
    "DMD",
    "FbDMD",
    "CDMD",
    "CDMD",
    "RDMD",
    "RDMD",
    "SubspaceDMD",
    "EDMD",
    "HankelDMD",
    "HankelDMD",
    "HODMD",
    "HODMD",
]


def variants(rng, mon):
    name = pick(rng, VARIANTS)
    real = True if name == "EDMD" else None
    s = linear_system(rng, real=real)
    scale = pick(rng, [1.0, 1.0, 1e-3, 1e3, 1e5])
    s.b = s.b * scale
    X = s.X
    dmd, kw = build(rng, name, s, X)
    fb = bool(kw.get("forward_backward"))
    if kw.get("tikhonov_regularization"):
        kw["tikhonov_regularization"] *= 1  # value already tiny
        if s.dyn_cond(s.m - 1) > 100 or not 0.1 < np.abs(X).max() < 100:
            raise Skip()
    inp, kind = layout_input(rng, X)
    mon.describe(cls=name, kw=kwsig(kw), n=s.n, r=s.r, m=s.m, real=s.real,
                 input=kind, scale=scale)
    ret = dmd.fit(inp)
    mon.ok("fit-returns-model", ret is not None and hasattr(ret, "eigs"))
    mon.sig(name, kwsig(kw), s.real, kind, s.r)
    mon.event("fit:" + name)
    check_model(rng, mon, dmd, name, kw, s, X, fb)


def check_model(rng, mon, dmd, name, kw, s, X, fb):
    tag = name
    eigs = np.asarray(dmd.eigs)
    if not mon.eq("mode-count", eigs.shape, (s.r,), tag):
        return
    xs = np.abs(X).max()
    opt = kw.get("opt", False)
    opt_true = isinstance(opt, bool) and opt
    known_opt = opt_true and name in ("DMD", "FbDMD", "HankelDMD", "HODMD") and not kw.get(
        "exact", False
    )
    if fb:
        mon.close(
            "fb-determinant",
            np.abs(np.prod(eigs)),
            np.abs(np.prod(s.eigs)),
            1e-5,
            tag,
        )
        modes = np.asarray(dmd.modes)
        good = match_eigs(s.eigs, eigs)[0] < TOL
        if good and name not in ("HankelDMD", "HODMD"):
            Mn = modes / np.linalg.norm(modes, axis=0)
            good = np.max(np.abs(s.A @ Mn - Mn * eigs)) < TOL
        elif good:
            rec = np.asarray(dmd.reconstructed_data)
            good = rec.shape == X.shape and np.max(np.abs(rec - X)) <= TOL * xs
        if not good:
            # sign ambiguity of the square root is inherent to the method
            if np.all(s.eigs.real > 1e-3):
                mon.fail("fb-recovery", "eigs %s vs %s" % (eigs, s.eigs), "fb-basis")
            mon.event("fb-not-recovered")
            return
    else:
        d, _ = match_eigs(s.eigs, eigs)
        mon.close("eigs-recovered", d, 0.0, TOL, tag, scale=1.0)
    # modes are eigenvectors of the true system for their own eigenvalue
    modes = np.asarray(dmd.modes)
    if name not in ("HankelDMD", "HODMD"):
        nrm = np.linalg.norm(modes, axis=0)
        mon.ok("modes-nonzero", np.all(nrm > 1e-12 * max(1e-6, nrm.max())), tag)
        Mn = modes / nrm
        res = np.max(np.abs(s.A @ Mn - Mn * eigs))
        mon.close("mode-eigen-pairing", res, 0.0, TOL, tag, scale=1.0)
        mon.close(
            "mode-span",
            subspace_dist(s.Phi, Mn),
            0.0,
            TOL,
            tag,
            scale=1.0,
        )
    rec = np.asarray(dmd.reconstructed_data)
    if known_opt:
        # P is assembled with one more time instant than q (pinned by the
        # existing tests): accept the documented optimum, report the known
        # deviation under its own kind, anything else as new
        if rec.shape == X.shape and np.max(np.abs(rec - X)) <= TOL * xs:
            mon._hit("reconstruction")
        else:
            known_opt_check(mon, dmd, name, kw, s, X, rec)
        return
    mon.close("reconstruction", rec, X, TOL, tag)
    if name not in ("HankelDMD", "HODMD"):
        # forecast / hindcast on an arbitrary affine time axis
        dt = pick(rng, [1, 0.5, 2, 0.25])
        t0 = pick(rng, [0, 3, -2, 10.5])
        dmd.original_time["t0"] = t0
        dmd.original_time["dt"] = dt
        dmd.original_time["tend"] = t0 + dt * (s.m - 1)
        a = int(rng.integers(-2, s.m))
        b = a + int(rng.integers(0, 12))
        sub = pick(rng, [1, 1, 2])
        if np.any(np.abs(np.angle(s.eigs)) > np.pi - 0.05):
            sub = 1  # fractional powers of negative reals: branch undefined
        dmd.dmd_time["t0"] = t0 + a * dt
        dmd.dmd_time["tend"] = t0 + b * dt
        dmd.dmd_time["dt"] = dt / sub
        steps = a + np.arange(sub * (b - a) + 1) / sub
        truth = s.at(steps)
        mon.close(
            "forecast",
            dmd.reconstructed_data,
            truth,
            1e-5,
            tag,
            scale=max(xs, np.abs(truth).max()),
        )
        mon.close("timesteps", dmd.dmd_timesteps, t0 + dt * steps, 1e-9, tag)
    else:
        k = int(rng.integers(0, 6))
        a = int(rng.integers(0, s.m))
        dmd.dmd_time["t0"] = a
        dmd.dmd_time["tend"] = s.m - 1 + k
        truth = s.at(np.arange(a, s.m + k))
        mon.close(
            "hankel-forecast",
            dmd.reconstructed_data,
            truth,
            1e-5,
            tag,
            scale=max(xs, np.abs(truth).max()),
        )


def known_opt_check(mon, dmd, name, kw, s, X, rec):
    """opt=True, projected modes: known mismatch between P and q."""
    if name in ("DMD", "FbDMD"):
        W, m = np.asarray(dmd.modes), s.m
        V = np.power(np.asarray(dmd.eigs)[:, None].astype(complex), np.arange(m))
        D = np.asarray(dmd.amplitudes)
        # normal equations with all instants on the left, all but the last
        # on the right
        P = (W.conj().T @ W) * np.conj(V @ V.conj().T)
        Vs = V[:, : m - 1]
        q = np.conj(np.diag(Vs @ X[:, : m - 1].conj().T @ W))
        bad = np.linalg.norm(P @ D - q) <= 1e-6 * np.linalg.norm(q)
        mon._hit("opt-projected-characterised")
        mon.fail(
            "reconstruction",
            "opt=True, projected",
            "opt-projected-normal-equations" if bad else "opt-projected-other",
        )
    else:
        err = np.max(np.abs(rec - X)) / np.abs(X).max()
        mon._hit("opt-projected-characterised")
        mon.fail(
            "reconstruction",
            "opt=True, projected: rel err %.2e" % err,
            "opt-projected-normal-equations" if err < 1.5 else "opt-projected-other",
        )


def pairs(rng, mon):
    """fit(X, Y) on unordered snapshot pairs of one linear map."""
    name = pick(rng, ["DMD", "DMD", "EDMD", "OptDMD", "OptDMD"])
    s = linear_system(rng, real=True if name == "EDMD" else None)
    m = int(rng.integers(s.r + 2, s.r + 20))
    C = well_conditioned(rng, m, s.r, not s.real).T if m >= s.r else None
    if s.real:
        # real combinations: stay in the real span
        B = np.linalg.qr(np.hstack([s.Phi.real, s.Phi.imag]))[0]
        U = np.linalg.svd(np.hstack([s.Phi.real, s.Phi.imag]))[0][:, : s.r]
        X = U @ C.real
        del B
    else:
        X = s.Phi @ C
    Y = s.A @ X
    sc = np.linalg.svd(X, compute_uv=False)
    if sc[0] / sc[s.r - 1] > 300:
        raise Skip()
    if name == "OptDMD":
        fac = pick(rng, ["svd", "evd"])
        kw = {"factorization": fac, "tlsq_rank": pick(rng, [0, s.r, m + 3])}
        dmd = OptDMD(svd_rank=s.r, **kw)
    elif name == "EDMD":
        kw = {"tlsq_rank": pick(rng, [0, s.r])}
        dmd = EDMD(svd_rank=s.r, **kw)
    else:
        kw = common_opts(rng, s.r, m, ("exact", "tlsq_rank", "rescale_mode",
                                       "sorted_eigs"))
        kw["opt"] = int(rng.integers(0, m))
        dmd = DMD(svd_rank=s.r, **kw)
    seq = name == "OptDMD" and rng.random() < 0.4
    mon.describe(cls=name, kw=kwsig(kw), n=s.n, r=s.r, m=m, real=s.real, seq=seq)
    if seq:
        X = s.X
        dmd.fit(as_layout(rng, X))
        X, Y = X[:, :-1], X[:, 1:]
    else:
        dmd.fit(as_layout(rng, X), as_layout(rng, Y))
    mon.event("fit-pairs:" + name)
    mon.sig("pairs", name, kwsig(kw), s.real, s.r, seq)
    if name == "OptDMD":
        Z = X if rng.random() < 0.5 else s.Phi @ rng.standard_normal((s.r, 3))
        mon.close("optdmd-predict", dmd.predict(Z), s.A @ Z, TOL, fac)
        j = int(rng.integers(X.shape[1]))
        mon.close("optdmd-predict", dmd.predict(X[:, j]), Y[:, j], TOL, fac,
                  scale=np.abs(Y).max())
        if fac == "svd":
            return
    d, _ = match_eigs(s.eigs, dmd.eigs)
    mon.close("pairs-eigs-recovered", d, 0.0, TOL, name, scale=1.0)
    modes = np.asarray(dmd.modes)
    nrm = np.linalg.norm(modes, axis=0)
    mon.ok("modes-nonzero", np.all(nrm > 1e-10 * nrm.max()), name)
    Mn = modes / nrm
    mon.close(
        "mode-eigen-pairing",
        np.max(np.abs(s.A @ Mn - Mn * np.asarray(dmd.eigs))),
        0.0,
        TOL,
        name,
        scale=1.0,
    )
    if name in ("DMD", "EDMD"):
        Z = s.Phi @ (rng.standard_normal((s.r, 2)) + 0j)
        mon.close("predict-one-step", dmd.predict(Z), s.A @ Z, 1e-5, name)
        j = kw.get("opt", 0)
        mon.close(
            "amplitudes-fit-snapshot",
            modes @ np.asarray(dmd.amplitudes),
            X[:, j],
            1e-6,
            name,
            scale=np.abs(X).max(),
        )


def predict(rng, mon):
    """One-step prediction of plain DMD equals the true linear map."""
    s = linear_system(rng)
    kw = common_opts(rng, s.r, s.m, ("exact", "opt", "tlsq_rank", "rescale_mode",
                                     "sorted_eigs"))
    dmd = DMD(svd_rank=s.r, **kw).fit(s.X)
    mon.describe(kw=kwsig(kw), n=s.n, r=s.r, m=s.m, real=s.real)
    mon.sig("predict", kwsig(kw), s.real, s.r)
    Z = s.Phi @ (rng.standard_normal((s.r, int(rng.integers(1, 5)))) + 0j)
    mon.close("predict-one-step", dmd.predict(Z), s.A @ Z, 1e-5)
    mon.close("predict-one-step", dmd.predict(Z[:, 0]), s.A @ Z[:, 0], 1e-5,
              scale=np.abs(Z).max())


def weak(rng, mon):
    """Weak and nearly parallel modes are recovered like the others."""
    s = linear_system(rng, r=int(rng.integers(2, 6)), real_eig=False)
    Phi, b = s.Phi.copy(), s.b.copy()
    pair = 2 if s.real else 1
    if rng.random() < 0.6:
        for i in range(0, s.r, pair):
            b[i : i + pair] *= 10.0 ** rng.uniform(-4, 0)
    if s.r >= 2 * pair and rng.random() < 0.6:
        eps = 10.0 ** rng.uniform(-4, -2)
        Phi[:, pair : 2 * pair] = Phi[:, :pair] + eps * Phi[:, pair : 2 * pair]
    s = type(s)(Phi, s.eigs, b, s.m, s.real)
    sv = np.linalg.svd(s.X[:, :-1], compute_uv=False)
    K = sv[0] / sv[s.r - 1]
    if K > 1e7 or sv.size > s.r and sv[s.r] > 1e-4 * sv[s.r - 1]:
        raise Skip()
    name = pick(rng, ["DMD", "DMD", "RDMD", "CDMD", "SubspaceDMD", "HODMD", "HankelDMD"])
    kw = {"svd_rank": s.r}
    if name == "DMD":
        kw["exact"] = bool(rng.integers(2))
        kw["sorted_eigs"] = pick(rng, [False, "abs", "real"])
    elif name == "CDMD":
        kw["compression_matrix"] = rng.standard_normal((s.r + 8, s.n))
    elif name == "RDMD":
        kw.update(seed=3, oversampling=10, power_iters=1)
    elif name in ("HODMD", "HankelDMD"):
        kw["d"] = int(rng.integers(1, 3))
        if name == "HODMD":
            kw["svd_rank_extra"] = -1
    if name == "SubspaceDMD" and s.m < 4 * s.r:
        raise Skip()
    dmd = {c.__name__: c for c in (DMD, RDMD, CDMD, SubspaceDMD, HODMD, HankelDMD)}[name](**kw)
    dmd.fit(s.X)
    mon.describe(cls=name, kw=kwsig(kw), n=s.n, r=s.r, m=s.m, real=s.real, K="%.1e" % K)
    mon.sig("weak", name, s.real, s.r, int(np.log10(K)))
    tol = 1e-9 + 3e-13 * K * (100 if name in ("CDMD", "SubspaceDMD") else 1)
    if tol > 1e-4:
        raise Skip()
    e = np.asarray(dmd.eigs)
    if not mon.eq("weak-count", e.size, s.r, name):
        return
    d = np.abs(e[:, None] - s.eigs[None])
    mon.le("weak-eigs", float(max(d.min(axis=0).max(), d.min(axis=1).max())), tol)
    dmd.dmd_time["tend"] = s.m + 3
    R = np.asarray(dmd.reconstructed_data)
    want = (Phi * b) @ s.eigs[:, None] ** np.arange(R.shape[1])
    mon.close("weak-forecast", R, want, tol, scale=np.abs(want).max())
    if name == "DMD":
        Z = Phi @ (rng.standard_normal((s.r, 2)) + 0j)
        Z = Z / np.linalg.norm(Z, axis=0)
        c = np.linalg.cond(Phi / np.linalg.norm(Phi, axis=0))
        if tol * c < 1e-4:
            mon.close("weak-predict", dmd.predict(Z), s.A @ Z, max(tol * c, 1e-7),
                      scale=max(1.0, np.abs(s.A @ Z).max()))


WORKLOADS = {
    "weak": {"fn": weak, "quick": 1500, "thorough": 30000},
    "variants": {"fn": variants, "quick": 9000, "thorough": 200000},
    "pairs": {"fn": pairs, "quick": 2000, "thorough": 40000},
    "predict": {"fn": predict, "quick": 800, "thorough": 12000},
}
REQUIRED = {
    "eigs-recovered": 300,
    "reconstruction": 300,
    "forecast": 150,
    "mode-eigen-pairing": 200,
    "optdmd-predict": 40,
    "hankel-forecast": 60,
    "pairs-eigs-recovered": 60,
    "predict-one-step": 60,
}
