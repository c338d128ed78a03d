"""C23: parametric DMD."""

import copy
import os
import shutil
import tempfile

import numpy as np

from pydmd import BOPDMD, DMD, HODMD, HankelDMD, ParametricDMD, SpDMD, SubspaceDMD
from vmon.core import Skip
from vmon.gen import as_layout, linear_system, pick
from vmon.kits import Interp, Svd

RULE = (
    "Random histories (fit, refit, windows, parameters, save/load, copies) of "
    "monolithic and partitioned ParametricDMD over several DMD classes, reductions "
    "(own, EZyRB) and interpolators (own, EZyRB, scikit-learn), one to three "
    "parameters, real and complex data, compared after every step with bare DMDs "
    "of independently reduced data and independent interpolation; data linear in "
    "the parameter as ground truth; distinct = distinct (approach, classes, "
    "history) tuples."
)
ASSUMPTIONS = ["reductions of the reference are separate instances of the same class"]
CASE_TIMEOUT = 60


class Fixed:
    """Reduction onto a given (not orthonormal) basis with an offset; records."""

    def __init__(self, B, off):
        self.B, self.off, self.log = B, off, []

    def fit(self, X):
        self.log.append(("fit", X.shape))
        self.mean = X.mean(axis=1) * self.off
        return self

    def reduce(self, X):
        self.log.append(("reduce", X.shape))
        return np.linalg.pinv(self.B) @ (X - self.mean[:, None])

    def expand(self, z):
        self.log.append(("expand", np.shape(z)))
        z = np.asarray(z)
        m = self.mean if z.ndim == 1 else self.mean[:, None]
        return self.B @ z + m


class Shepard:
    """Inverse distance weighting in any number of parameters."""

    def fit(self, p, v):
        assert np.ndim(p) == 2 and len(p) == len(v)
        self.p, self.v = np.array(p, float), np.array(v)
        return self

    def predict(self, q):
        assert np.ndim(q) == 2 and np.shape(q)[1] == self.p.shape[1]
        d = np.linalg.norm(np.asarray(q, float)[:, None] - self.p[None], axis=2)
        out = []
        for row in d:
            j = np.argmin(row)
            if row[j] < 1e-14:
                out.append(self.v[j])
            else:
                w = 1 / row ** 2
                out.append((w / w.sum()) @ self.v)
        return np.array(out)


class Nearest:
    """Value at the nearest parameter; returns a list of arrays' array."""

    def fit(self, p, v):
        self.p, self.v = np.array(p, float), np.array(v)

    def predict(self, q):
        return np.array([self.v[np.argmin(np.linalg.norm(self.p - x, axis=1))] for x in np.asarray(q)])


class Affine:
    """Least squares fit, affine in the parameters."""

    def fit(self, p, v):
        p = np.asarray(p, float)
        self.c = np.linalg.lstsq(np.column_stack([np.ones(len(p)), p]).astype(
            np.asarray(v).dtype), np.asarray(v), rcond=None)[0]
        return self

    def predict(self, q):
        q = np.asarray(q, float)
        return np.column_stack([np.ones(len(q)), q]) @ self.c


def interpolator(rng, dim, cplx, k, name=None):
    names = ["shepard", "affine"]
    if dim == 1:
        names += ["lagrange"]
    if not cplx:
        names += ["nearest"]
        if k > dim + 1:
            names += ["rbf"]
    name = name or pick(rng, names)
    if name == "lagrange":
        return name, Interp
    if name == "shepard":
        return name, Shepard
    if name == "affine":
        return name, Affine
    if name == "rbf":
        from ezyrb import RBF
        return name, RBF
    return name, Nearest


def reduction(rng, n, r, cplx):
    name = pick(rng, ["svd", "fixed", "fixed-mean", "ezyrb"])
    if name == "svd":
        return name, lambda: Svd(r)
    if name == "ezyrb":
        from ezyrb import POD
        return name, lambda: POD("svd", rank=r)
    B = rng.standard_normal((n, r)) + (1j * rng.standard_normal((n, r)) if cplx else 0)
    return name, lambda: Fixed(B, float(name == "fixed-mean"))


def model(rng, k, m):
    name = pick(rng, ["DMD", "DMD", "DMD-opt", "HankelDMD", "SubspaceDMD", "SpDMD", "HODMD", "BOPDMD"])
    a = {}
    if name == "DMD":
        rk = int(pick(rng, [2, 3, -1]))
        f = lambda: DMD(svd_rank=rk, exact=True)
    elif name == "DMD-opt":
        f = lambda: DMD(svd_rank=3, opt=True)
    elif name == "HankelDMD":
        f = lambda: HankelDMD(svd_rank=3, d=3)
    elif name == "HODMD":
        f = lambda: HODMD(svd_rank=3, d=2)
    elif name == "SubspaceDMD":
        f = lambda: SubspaceDMD(svd_rank=2)
    elif name == "SpDMD":
        f = lambda: SpDMD(svd_rank=3, gamma=0.1, verbose=False, abs_tolerance=1e-9,
                          rel_tolerance=1e-9)
    else:
        t = np.arange(m) * 0.5
        f = lambda: BOPDMD(svd_rank=2, num_trials=0)
        if rng.random() < 0.5:
            a["dmd_fit_args"] = pick(rng, [(t,), [t]])
        else:
            a["dmd_fit_kwargs"] = {"t": t}
    return name, f, a


def data(rng, k, n, m, cplx):
    sys = [linear_system(rng, n, 3 if cplx else 4, m, real=not cplx) for _ in range(k)]
    X = np.stack([s.X for s in sys])
    X = X / np.abs(X).max(axis=(1, 2), keepdims=True)
    unit = 2.0 ** float(pick(rng, [0, 0, 0, 0, -30, 20]))
    return unit * (X + 0.01 * (rng.standard_normal(X.shape) + (1j * rng.standard_normal(
        X.shape) if cplx else 0)))


def params(rng, k, dim):
    if dim == 1:
        p = np.sort(rng.uniform(0.1, 0.9, k)) + np.arange(k)
        return rng.permutation(p)
    while True:
        p = rng.uniform(0, 1, (k, dim))
        if np.linalg.norm(p[:, None] - p[None], axis=2)[~np.eye(k, dtype=bool)].min() > 0.1:
            return p


class Ref:
    def __init__(self, f_dmd, f_pod, f_app, part, k, fa):
        self.__dict__.update(f_dmd=f_dmd, f_pod=f_pod, f_app=f_app, part=part, k=k, fa=fa)

    def fit(self, X, p):
        k, n, m = X.shape
        self.X, self.p = X.copy(), np.array(p, float).reshape(k, -1)
        flat = np.concatenate([X[i] for i in range(k)], axis=1)
        self.pod = self.f_pod().fit(flat)
        Z = self.pod.reduce(flat)
        self.Z = [Z[:, i * m:(i + 1) * m] for i in range(k)]
        a = list(self.fa.get("dmd_fit_args", ()))
        kw = self.fa.get("dmd_fit_kwargs", {})
        todo = self.Z if self.part else [np.concatenate(self.Z, axis=0)]
        self.d = []
        for z in todo:
            d = self.f_dmd()
            d.fit(z, *a, **kw)
            self.d.append(d)
        self.win = None
        # nonlinear fits of unsuited data amplify rounding: not comparable then
        self.shaky = False
        if isinstance(self.d[0], BOPDMD):
            for z, d in zip(todo, self.d):
                e = self.f_dmd()
                w = np.random.RandomState(5).uniform(-1, 1, z.shape)
                e.fit(z * (1 + 1e-11 * w), *a, **kw)
                u, v = np.asarray(d.reconstructed_data), np.asarray(e.reconstructed_data)
                if not np.abs(u - v).max() <= 1e-8 * np.abs(u).max():
                    self.shaky = True

    def forecast(self):
        out = []
        for d in self.d:
            if self.win is not None:
                for a, b in self.win.items():
                    d.dmd_time[a] = b
            out.append(np.asarray(d.reconstructed_data))
        Y = np.concatenate(out, axis=0)
        r = Y.shape[0] // self.k
        return np.stack([Y[i * r:(i + 1) * r] for i in range(self.k)])

    def interp(self, q):
        F = self.forecast()
        out = []
        for j in range(F.shape[2]):
            app = self.f_app()
            app.fit(self.p, F[:, :, j])
            out.append(np.asarray(app.predict(q)))
        return np.stack(out, axis=2)

    def rec(self, q):
        Q = self.interp(q)
        return np.stack([np.stack([np.asarray(self.pod.expand(Q[i, :, j])) for j in range(
            Q.shape[2])], axis=1) for i in range(Q.shape[0])])


def compare(mon, d, ref, q, where, gauge):
    """gauge: coefficients comparable entry by entry."""
    sc = np.abs(ref.X).max() * 5
    if gauge and not d._light:
        mon.close("training-coefficients", d.training_modal_coefficients, np.stack(ref.Z), 1e-9,
                  where, scale=max(np.abs(z).max() for z in ref.Z))
    F = ref.forecast()
    big = np.abs(F).max()
    if ref.shaky:
        mon.event("ill-conditioned nonlinear fit")
        return
    if not np.isfinite(big) or big > 1e4 * max(np.abs(z).max() for z in ref.Z):
        mon.event("diverged forecasts")
        return
    got = np.asarray(d.forecasted_modal_coefficients)
    if not mon.eq("forecast-shape", got.shape, F.shape, where):
        return
    if gauge:
        mon.close("forecast", got, F, 1e-6, where, scale=big)
    if q is None:
        mon.raises("no-parameters", ValueError, lambda: d.reconstructed_data, where)
        return
    I = ref.interp(q)
    got = np.asarray(d.interpolated_modal_coefficients)
    if mon.eq("interpolated-shape", got.shape, I.shape, where) and gauge:
        mon.close("interpolated", got, I, 1e-6, where, scale=max(big, np.abs(I).max()))
    R = ref.rec(q)
    got = np.asarray(d.reconstructed_data)
    if mon.eq("reconstruction-shape", got.shape, R.shape, where):
        mon.close("reconstruction", got, R, 1e-6, where, scale=max(np.abs(R).max(), sc))


def w_replay(rng, mon):
    k, n, m = int(rng.integers(2, 6)), int(rng.integers(5, 9)), int(rng.integers(12, 20))
    cplx = bool(rng.random() < 0.3)
    dim = int(pick(rng, [1, 1, 2, 3]))
    r = int(rng.integers(2, 5))
    part = bool(rng.integers(2))
    dn, f_dmd, fa = model(rng, k, m)
    pn, f_pod = reduction(rng, n, r, cplx)
    an, f_app = interpolator(rng, dim, cplx, k)
    light = bool(rng.integers(2))
    if r < 3 and dn in ("DMD-opt", "SpDMD"):
        r = 3
    d = ParametricDMD([f_dmd() for _ in range(k)] if part else f_dmd(), f_pod(), f_app(),
                      light=light, **fa)
    ref = Ref(f_dmd, f_pod, f_app, part, k, fa)
    base = f"{'part' if part else 'mono'} {dn} {pn} {an} k={k} n={n} m={m} r={r} dim={dim} cplx={cplx}"
    mon.eq("is-partitioned", bool(d.is_partitioned), part, base)
    mon.raises("coefficients-before-fit", RuntimeError, lambda: d.training_modal_coefficients, base)
    hist, q = [], None
    steps = ["fit"] + [pick(rng, ["fit", "params", "window", "window", "reset", "save", "copy",
                                  "params-list"]) for _ in range(int(rng.integers(2, 6)))]
    tmp = tempfile.mkdtemp()
    try:
        for st in steps:
            hist.append(st)
            where = f"{base} {hist}"
            mon.describe(where=where)
            if st == "fit":
                X, p = as_layout(rng, data(rng, k, n, m, cplx)), params(rng, k, dim)
                pp = p.tolist() if rng.random() < 0.3 else p.copy()
                if dim == 1 and rng.random() < 0.3:
                    pp = np.asarray(pp).reshape(-1, 1)
                X0, p0 = X.copy(), copy.deepcopy(pp)
                try:
                    ref.fit(X, p)
                    d.fit(X, pp)
                except (np.linalg.LinAlgError,):
                    raise Skip()
                mon.ok("input-unchanged", np.array_equal(X, X0) and np.array_equal(pp, p0), where)
                mon.ok("training-parameters", np.array_equal(np.asarray(
                    d.training_parameters), ref.p), where)
                if light:
                    mon.raises("light", RuntimeError, lambda: d.training_modal_coefficients, where)
                if dn != "BOPDMD":
                    o = d.original_time
                    mon.eq("original-time", (o["t0"], o["tend"], o["dt"]), (0, m - 1, 1), where)
            elif st in ("params", "params-list"):
                nq = int(rng.integers(1, 4))
                lo, hi = ref.p.min(0), ref.p.max(0)
                q = rng.uniform(lo, hi, (nq, dim))
                if rng.random() < 0.3:
                    q[0] = ref.p[int(rng.integers(k))]
                v = q[:, 0] if dim == 1 and rng.random() < 0.5 else q
                d.parameters = v.tolist() if st == "params-list" else v.copy()
                mon.ok("parameters", np.array_equal(np.asarray(d.parameters), q), where)
            elif st == "window" and dn != "BOPDMD":
                a = int(rng.integers(0, 4))
                w = {"t0": a, "tend": a + int(rng.integers(0, (m + 4) * int(
                    pick(rng, [1, 1, 1, 5]))))}
                for x, y in w.items():
                    d.dmd_time[x] = y
                ref.win = {**(ref.win or {}), **w}
                mon.eq("timesteps", list(d.dmd_timesteps), list(range(w["t0"], w["tend"] + 1)), where)
            elif st == "reset" and dn != "BOPDMD":
                a = int(rng.integers(0, m))
                d.dmd_time["tend"] = a
                ref.win = {**(ref.win or {}), "tend": a, "t0": 0}
                d.dmd_time["t0"] = 0
            elif st == "save":
                f = os.path.join(tmp, "x.pdmd")
                d.save(f)
                d = ParametricDMD.load(f)
            elif st == "copy":
                other = copy.deepcopy(d)
                if dn != "BOPDMD":
                    other.dmd_time["tend"] = 2
                other.parameters = np.full((1, dim), 0.5)
            compare(mon, d, ref, q, where, True)
    finally:
        shutil.rmtree(tmp)
    mon.sig(part, dn, pn, an, dim, cplx, tuple(hist[-2:]))


def w_truth(rng, mon):
    """x(t, mu) affine in mu with common eigenvalues: exact everywhere."""
    cplx = bool(rng.integers(2))
    dim = int(rng.integers(1, 3))
    k = int(rng.integers(dim + 2, 6))
    r = int(pick(rng, [2, 3, 4])) if cplx else int(pick(rng, [2, 4]))
    n, m = int(rng.integers(r + 1, 10)), int(rng.integers(2 * r + 4, 20))
    L = linear_system(rng, n, r, m, real=not cplx)
    p = params(rng, k, dim).reshape(k, dim)
    part = bool(rng.integers(2))
    # amplitude factors affine in mu, conjugate-symmetric for real data
    G = [linear_system(rng, n, r, m, real=not cplx).b for _ in range(dim)]
    c0 = rng.uniform(0.5, 1.5, r)
    C = rng.uniform(-0.3, 0.3, (dim, r))
    if not cplx:  # same factor for both members of a pair
        for i in range(r):
            j = int(np.argmin(np.abs(L.eigs - np.conj(L.eigs[i]))))
            c0[j] = c0[i]
            C[:, j] = C[:, i]

    def truth(mu, steps):
        b = L.b * (c0 + mu @ C)
        x = (L.Phi * b) @ np.power(L.eigs[:, None].astype(complex), np.asarray(steps, float)[None])
        return x if cplx else x.real

    X = np.stack([truth(mu, np.arange(m)) for mu in p])
    if L.dyn_cond() > 1e4 or np.linalg.cond(np.column_stack([np.ones(k), p])) > 1e3:
        raise Skip()
    amp = np.abs(c0 + p @ C).min()
    if amp < 0.2:
        raise Skip()
    red = pick(rng, ["svd", "ezyrb", "fixed"])
    if red == "fixed":
        B = np.linalg.qr(rng.standard_normal((n, n)))[0]
        pod = Fixed(B, 0.0)
    elif red == "svd":
        pod = Svd(r)
    else:
        from ezyrb import POD
        pod = POD("svd", rank=r)
    mk = lambda: DMD(svd_rank=r, exact=True, opt=bool(rng.integers(2)))
    d = ParametricDMD([mk() for _ in range(k)] if part else mk(), pod, Affine(),
                      light=bool(rng.integers(2)))
    d.fit(as_layout(rng, X), p if dim > 1 or rng.random() < 0.5 else p[:, 0])
    where = f"{'part' if part else 'mono'} {red} k={k} dim={dim} r={r} n={n} m={m} cplx={cplx}"
    mon.describe(where=where)
    for _ in range(3):
        q = rng.uniform(p.min(0), p.max(0), (int(rng.integers(1, 4)), dim))
        d.parameters = q
        a = int(rng.integers(0, m))
        b = a + int(rng.integers(0, m * int(pick(rng, [1, 1, 5] if np.abs(
            L.eigs).max() < 1.02 else [1]))))
        d.dmd_time["t0"], d.dmd_time["tend"] = a, b
        want = np.stack([truth(mu, np.arange(a, b + 1)) for mu in q])
        got = np.asarray(d.reconstructed_data)
        if mon.eq("truth-shape", got.shape, want.shape, where):
            mon.close("truth", got, want, 1e-6, (where, a, b),
                      scale=max(np.abs(want).max(), np.abs(X).max()) * L.dyn_cond())
    mon.sig(part, red, dim, r, cplx, k)


def w_reject(rng, mon):
    k, n, m = int(rng.integers(2, 5)), 5, 12
    X = data(rng, k, n, m, False)
    p = params(rng, k, 1)
    mk = lambda part, kk=k: ParametricDMD([DMD(svd_rank=2) for _ in range(kk)] if part else DMD(
        svd_rank=2), Svd(3), Interp())
    for part in (False, True):
        for dk in (-1, 1):
            mon.raises("parameter-count", ValueError, lambda: mk(part).fit(
                X, np.arange(float(k + dk))), (part, dk))
        mon.raises("3d-training-parameters", ValueError, lambda: mk(part).fit(
            X, np.zeros((k, 2, 2))), part)
        d = mk(part)
        d.fit(X, p)
        mon.raises("3d-parameters", ValueError, lambda: setattr(d, "parameters", np.zeros((2, 1, 1))))
        for nm in ("reconstructed_data", "interpolated_modal_coefficients"):
            mon.raises("no-parameters", ValueError, lambda: getattr(d, nm), (part, nm))
        d.parameters = np.zeros((0, 1))
        mon.raises("empty-parameters", ValueError, lambda: d.reconstructed_data, part)
    for kk in (k - 1, k + 1):
        mon.raises("dmd-count", ValueError, lambda: mk(True, kk).fit(X, p), kk)
    for bad in (3, "a", {"x": 1}, np.arange(3)):
        mon.raises("fit-args-type", TypeError, lambda: ParametricDMD(
            DMD(), Svd(2), Interp(), dmd_fit_args=bad), type(bad))
    for bad in (3, "a", [1], (1,)):
        mon.raises("fit-kwargs-type", TypeError, lambda: ParametricDMD(
            DMD(), Svd(2), Interp(), dmd_fit_kwargs=bad), type(bad))
    mon.sig("reject", k)


WORKLOADS = {
    "replay": dict(fn=w_replay, quick=220, thorough=8000),
    "truth": dict(fn=w_truth, quick=150, thorough=4000),
    "reject": dict(fn=w_reject, quick=6, thorough=60),
}
REQUIRED = {"reconstruction": 200, "forecast": 400, "truth": 150, "training-coefficients": 100}
