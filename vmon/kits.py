"""Model kits: one uniform way to build, fit and observe every public class.

A kit owns a fixed random configuration.  `data(rng)` draws a training set that
is valid for the configuration (shapes differ from draw to draw), `fit` runs
the real fit, `obs(model)` reads the public results into {name: value}.
"""

import copy

import numpy as np

from pydmd import (
    BOPDMD,
    CDMD,
    DMD,
    EDMD,
    HAVOK,
    HODMD,
    LANDO,
    RDMD,
    DMDc,
    FbDMD,
    HankelDMD,
    MrDMD,
    OptDMD,
    ParametricDMD,
    PiDMD,
    SpDMD,
    SubspaceDMD,
    VarProDMD,
)
from pydmd.costs import COSTS
from pydmd.mrcosts import mrCOSTS
from pydmd.preprocessing import (
    hankel_preprocessing,
    randomized_preprocessing,
    svd_projection_preprocessing,
    zero_mean_preprocessing,
)
from vmon.gen import cont_system, linear_system, pick


class Svd:
    """A minimal POD for ParametricDMD (fit/reduce/expand)."""

    def __init__(self, rank):
        self.rank = rank

    def fit(self, X):
        self.U = np.linalg.svd(X, full_matrices=False)[0][:, : self.rank]
        return self

    def reduce(self, X):
        return self.U.conj().T @ X

    def expand(self, Z):
        return self.U @ Z


class Interp:
    """Lagrange interpolation in a scalar parameter (fit/predict)."""

    def fit(self, p, v):
        self.p, self.v = np.asarray(p, float).ravel(), np.asarray(v)
        return self

    def predict(self, q):
        q = np.asarray(q, float).ravel()
        W = np.ones((len(q), len(self.p)))
        for j, pj in enumerate(self.p):
            for k, pk in enumerate(self.p):
                if k != j:
                    W[:, j] *= (q - pk) / (pj - pk)
        return W @ self.v


def noisy(rng, n, m, real=True, r=None, noise=0.02):
    r = min(n, 4) if r is None else r
    s = linear_system(rng, n=n, r=r, m=m, real=real, max_cond=1e4, sep=0.2)
    X = s.X
    E = rng.standard_normal(X.shape)
    if not real:
        E = E + 1j * rng.standard_normal(X.shape)
    return X + noise * np.abs(X).max() * E


def slow(rng, n, t, r, cplx, noise=0.003):
    """noisy data of a slow continuous-time system"""
    s = cont_system(rng, n=n, r=r, real=not cplx and r % 2 == 0, t=t)
    X = s.at(t)
    if not cplx:
        X = X.real.copy()
    return X + noise * np.abs(X).max() * rng.standard_normal(X.shape)


BASE_OBS = (
    "eigs", "modes", "amplitudes", "dynamics", "reconstructed_data",
    "dmd_timesteps", "original_timesteps", "frequency", "growth_rate",
    "snapshots", "snapshots_shape",
)


class Kit:
    tol = 1e-6  # comparison tolerance between two runs on equal inputs
    random = False  # uses numpy's global generator
    pickles = True
    props = BASE_OBS
    real_only = False

    def __init__(self, name, make, data, fit=None, props=None, extra=None, **kw):
        self.name, self._make, self._data = name, make, data
        self._fit, self._extra = fit, extra
        if props is not None:
            self.props = props
        for k, v in kw.items():
            setattr(self, k, v)

    def build(self):
        return self._make()

    def data(self, rng):
        """(args, kwargs) of fit, freshly allocated."""
        a = self._data(rng)
        return a if isinstance(a, tuple) else (a,)

    def fit(self, model, args):
        return self._fit(model, args) if self._fit else model.fit(*args)

    def obs(self, model):
        out = {}
        for p in self.props:
            out[p] = copy.deepcopy(getattr(model, p))
        if self._extra:
            for k, f in self._extra.items():
                out[k] = copy.deepcopy(f(model))
        return out


def times(kit):
    return dict(
        dmd_time=lambda d: dict(d.dmd_time),
        original_time=lambda d: dict(d.original_time),
    )


def _opts(rng, tlsq=True):
    kw = dict(
        svd_rank=pick(rng, [-1, 0, 2, 3, 4, 0.9999]),
        opt=pick(rng, [False, False, True, 1, -2]),
        sorted_eigs=pick(rng, [False, "abs", "real"]),
        rescale_mode=pick(rng, [None, None, "auto"]),
    )
    if tlsq and rng.random() < 0.25:
        kw.update(svd_rank=int(rng.integers(1, 4)), tlsq_rank=4, rescale_mode=None)
    return kw


NAMES = [
    "DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "EDMD", "SpDMD", "HankelDMD",
    "HODMD", "OptDMD", "DMDc", "PiDMD", "BOPDMD", "VarProDMD", "MrDMD", "LANDO",
    "HAVOK", "ParametricDMD", "COSTS", "mrCOSTS", "wrap-hankel", "wrap-svd",
    "wrap-mean", "wrap-rand",
]
# classes deriving from DMDBase with the whole DMDBase surface
BASELIKE = [
    "DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "EDMD", "SpDMD", "HankelDMD",
    "HODMD", "DMDc", "PiDMD", "wrap-hankel", "wrap-svd", "wrap-mean", "wrap-rand",
]


def make_kit(rng, name, n=None, cplx=None, raw=False, pairs=False):
    """`pairs`: some data draws are (X, Y) pairs where the class takes them;
    `n`: fix the space dimension of every data draw; `raw`: hand the very
    objects of kit.kw to the constructor (to observe changes to them)."""
    cp = (lambda x: x) if raw else copy.deepcopy
    cplx_ok = name not in ("EDMD", "LANDO", "HAVOK", "COSTS", "mrCOSTS", "PiDMD")
    cplx = (bool(rng.random() < 0.4) if cplx is None else cplx) and cplx_ok
    need_n = n

    def dims(g, mlo=12, mhi=20):
        nn = need_n if need_n is not None else int(g.integers(6, 12))
        return nn, int(g.integers(mlo, mhi))

    def snap(g):
        nn, m = dims(g)
        X = noisy(g, nn, m, real=not (cplx and g.random() < 0.7))
        if not np.iscomplexobj(X) and g.random() < 0.15:
            X = np.round(X * 200).astype(np.int64)
        return X

    def pair(g):
        X = snap(g)
        if pairs and g.random() < 0.25:
            return X[..., :-1].copy(), X[..., 1:].copy()
        return X

    snap_y = {"snapshots_y": lambda d: d.snapshots_y} if pairs else {}
    pred = {"predict": lambda d: d.predict(np.asarray(d.snapshots)[:, :3])}
    tm = times(None)
    kw = _opts(rng)
    if name == "DMD":
        kw.update(exact=bool(rng.integers(2)),
                  tikhonov_regularization=pick(rng, [None, None, 0.01]))
        return Kit(name, lambda: DMD(**kw), pair, extra={**pred, **tm, **snap_y}, kw=kw)
    if name == "FbDMD":
        kw.update(exact=bool(rng.integers(2)), svd_rank=pick(rng, [2, 3]),
                  tlsq_rank=0)
        return Kit(name, lambda: FbDMD(**kw), pair, extra={**pred, **tm, **snap_y}, kw=kw)
    if name == "CDMD":
        kw.update(compression_matrix=pick(rng, ["normal", "uniform", "sparse", "sample"]))
        if kw["compression_matrix"] in ("sparse", "sample"):
            kw["compression_matrix"] = "normal"
        kw.update(svd_rank=int(rng.integers(1, 4)), tlsq_rank=0,
                  tikhonov_regularization=pick(rng, [None, None, 0.01]))
        if need_n is not None and rng.random() < 0.5:
            kw["compression_matrix"] = rng.standard_normal((need_n + 2, need_n))
        return Kit(name, lambda: CDMD(**cp(kw)), snap, extra=tm,
                   random=True, kw=kw)
    if name == "RDMD":
        seed = pick(rng, [0, 1, int(rng.integers(1000))])
        kw.update(seed=seed, oversampling=5, power_iters=int(rng.integers(0, 3)))
        if kw.get("tlsq_rank"):
            kw["tlsq_rank"] = 0
        kw["svd_rank"] = int(rng.integers(1, 4))
        kw["tikhonov_regularization"] = pick(rng, [None, None, 0.01])
        return Kit(name, lambda: RDMD(**kw), snap, extra=tm, random=True, kw=kw)
    if name == "SubspaceDMD":
        k2 = dict(svd_rank=int(rng.integers(1, 4)), opt=kw["opt"],
                  sorted_eigs=kw["sorted_eigs"])
        return Kit(name, lambda: SubspaceDMD(**k2), snap, extra=tm, kw=k2)
    if name == "EDMD":
        met, kp = pick(rng, [("linear", {}), ("rbf", {"gamma": 0.2}),
                             ("poly", {"degree": 2, "coef0": 1.0})])
        k2 = dict(svd_rank=int(rng.integers(1, 4)), opt=kw["opt"], kernel_metric=met,
                  kernel_params=kp)
        return Kit(name, lambda: EDMD(**cp(k2)), pair, tol=1e-5,
                   extra={**tm, **snap_y, "eigenfunctions": lambda d: d.eigenfunctions(
                       np.asarray(d.snapshots)[:, 1])}, kw=k2)
    if name == "SpDMD":
        kw.update(rho=10.0, gamma=float(10 ** rng.uniform(-2, 1)), verbose=False,
                  max_iterations=300, release_memory=bool(rng.integers(2)))
        return Kit(name, lambda: SpDMD(**kw), snap, extra=tm, kw=kw)
    if name in ("HankelDMD", "HODMD"):
        d = int(rng.integers(1, 4))
        w = rng.uniform(0.3, 1, d)
        kw.update(d=d, reconstruction_method=pick(rng, ["first", "mean", w]))
        kw["svd_rank"] = int(rng.integers(1, 4))
        if name == "HODMD":
            kw["svd_rank_extra"] = pick(rng, [-1, 3])
            if kw["svd_rank_extra"] == 3:
                kw["svd_rank"] = min(kw["svd_rank"], 3)
            kw.pop("tlsq_rank", None)
            return Kit(name, lambda: HODMD(**cp(kw)), snap, extra=tm, kw=kw)
        kw["tikhonov_regularization"] = pick(rng, [None, None, 0.01])
        return Kit(name, lambda: HankelDMD(**cp(kw)), snap, extra=tm, kw=kw)
    if name == "OptDMD":
        k2 = dict(svd_rank=int(rng.integers(1, 4)),
                  factorization=pick(rng, ["evd", "svd"]))
        pairs = k2["factorization"] == "svd" or bool(rng.integers(2))

        def dat(g):
            X = snap(g)
            return (X[:, :-1].copy(), X[:, 1:].copy()) if pairs else X

        ev = {"modes": lambda d: d.modes,
              "predict": lambda d: d.predict(np.eye(d.modes.shape[0])[:, :3])}
        if k2["factorization"] == "evd":
            ev["eigs"] = lambda d: d.eigs
        if k2["factorization"] == "svd":
            ev.pop("predict")
        return Kit(name, lambda: OptDMD(**k2), dat, props=(), extra=ev, kw=k2)
    if name == "DMDc":
        lag = int(rng.integers(1, 3))
        k2 = dict(svd_rank=-1, opt=pick(rng, [False, 1]), lag=lag)
        known = bool(rng.integers(2))
        if not known:
            k2["svd_rank_omega"] = -1

        def dat(g):
            nn, m = 4, int(g.integers(14, 20))
            A = np.linalg.qr(g.standard_normal((nn, nn)))[0] * 0.95
            B = g.standard_normal((nn, 2))
            u = g.standard_normal((2, m - lag))
            X = np.zeros((nn, m))
            X[:, :lag] = g.standard_normal((nn, lag))
            for i in range(m - lag):
                X[:, i + lag] = A @ X[:, i] + B @ u[:, i]
            return (X, u, B) if known else (X, u)

        props = tuple(p for p in BASE_OBS if p != "reconstructed_data")
        return Kit(name, lambda: DMDc(**k2), dat, props=props,
                   extra={**tm, "B": lambda d: d.B, "basis": lambda d: d.basis,
                          "rec": lambda d: d.reconstructed_data()}, kw=k2)
    if name == "PiDMD":
        man, mo = pick(rng, [("unitary", None), ("uppertriangular", None),
                             ("lowertriangular", None), ("diagonal", 1),
                             ("symmetric", None), ("skewsymmetric", None),
                             ("toeplitz", None), ("hankel", None), ("circulant", None),
                             ("circulant_unitary", None), ("circulant_symmetric", None),
                             ("symmetric_tridiagonal", None)])
        k2 = dict(manifold=man, manifold_opt=mo, compute_A=True, svd_rank=-1,
                  opt=pick(rng, [False, 1]))
        return Kit(name, lambda: PiDMD(**k2), pair, props=("snapshots",), tol=1e-5,
                   extra={**tm, **snap_y, "A": lambda d: d.A}, kw=k2)
    if name == "BOPDMD":
        trials = pick(rng, [0, 0, 3])
        k2 = dict(svd_rank=int(rng.integers(2, 4)), num_trials=trials, trial_size=0.7,
                  use_proj=bool(rng.integers(2)), compute_A=bool(rng.integers(2)),
                  eig_sort=pick(rng, ["auto", "real", "imag", "abs"]),
                  eig_constraints=pick(rng, [set(), {"stable"}, {"imag"},
                                             {"conjugate_pairs"}]),
                  varpro_opts_dict=dict(maxiter=15, verbose=False))
        if "conjugate_pairs" in k2["eig_constraints"]:
            k2["svd_rank"] = 2
        elif rng.random() < 0.3:
            k2["svd_rank"] = pick(rng, [0, 0.99])

        def dat(g):
            nn, m = dims(g, 16, 24)
            t = np.arange(m) * 0.1 + float(g.integers(3))
            if g.random() < 0.4:
                t = t + g.uniform(-0.02, 0.02, m)
            pairs = "conjugate_pairs" in k2["eig_constraints"]
            r = k2["svd_rank"] if k2["svd_rank"] >= 1 else int(g.integers(2, 4))
            return slow(g, nn, t, r, cplx and not pairs), t

        def fc(d):
            st = np.random.get_state()
            np.random.seed(5)  # Monte Carlo forecast of the ensemble
            out = d.forecast(np.linspace(0.0, 2.0, 7))
            np.random.set_state(st)
            return out

        return Kit(name, lambda: BOPDMD(**cp(k2)), dat, tol=1e-4, random=True,
                   props=("eigs", "modes", "amplitudes", "dynamics", "reconstructed_data",
                          "time", "atilde", "snapshots",
                          "amplitudes_std", "eigenvalues_std", "modes_std"),
                   extra={"forecast": fc}, kw=k2)
    if name == "VarProDMD":
        k2 = dict(svd_rank=pick(rng, [2, 3, 2, 3, 0, 0.99]), exact=bool(rng.integers(2)),
                  sorted_eigs=pick(rng, [False, "auto", "real", "imag", "abs", True]),
                  compression=pick(rng, [0, 0, 0.3]))

        def dat(g):
            nn, m = dims(g, 16, 24)
            t = np.arange(m) * 0.1 + float(g.integers(2))
            r = k2["svd_rank"] if k2["svd_rank"] >= 1 else int(g.integers(2, 4))
            return slow(g, nn, t, r, True), t

        return Kit(name, lambda: VarProDMD(**k2), dat, tol=1e-4,
                   props=("eigs", "modes", "amplitudes", "dynamics", "reconstructed_data",
                          "frequency", "growth_rate", "snapshots", "ssr",
                          "selected_samples"),
                   extra={"forecast": lambda d: d.forecast(np.linspace(0, 2, 7))}, kw=k2)
    if name == "MrDMD":
        style = pick(rng, ["one", "list", "fn"])
        lev = int(rng.integers(1, 4))
        k1 = dict(svd_rank=pick(rng, [-1, 2, 3]), exact=True, opt=pick(rng, [False, True]))

        def build():
            if style == "one":
                dm = DMD(**k1)
            elif style == "list":
                dm = [DMD(**k1) for _ in range(lev + 1)]
            else:
                def dm(level, leaf):
                    return DMD(**k1)
            return MrDMD(dm, max_level=lev, max_cycles=1)

        def dat(g):
            nn = need_n if need_n is not None else int(g.integers(6, 12))
            return noisy(g, nn, int(g.integers(33, 80)), real=not cplx)

        ex = {**tm,
              "pmodes": lambda d: [d.partial_modes(level=k) for k in range(d.max_level + 1)],
              "peigs": lambda d: [d.partial_eigs(level=k) for k in range(d.max_level + 1)],
              "prec": lambda d: d.partial_reconstructed_data(level=0),
              "ti": lambda d: d.partial_time_interval(d.max_level, 0)}
        return Kit(name, build, dat, tol=1e-4, props=("reconstructed_data", "snapshots"),
                   extra=ex, pickles=style != "fn", kw=dict(k1, style=style, lev=lev))
    if name == "LANDO":
        met, kp = pick(rng, [("linear", {}), ("poly", {"degree": 2, "coef0": 1.0, "gamma": 1.0}),
                             ("rbf", {"gamma": 0.1})])
        k2 = dict(svd_rank=int(rng.integers(1, 4)), kernel_metric=met, kernel_params=kp,
                  dict_tol=1e-3, online=bool(rng.integers(2)), permute=bool(rng.integers(2)),
                  x_rescale=pick(rng, [1.0, 0.5]))
        if need_n is not None and rng.random() < 0.5:
            k2["x_rescale"] = rng.uniform(0.5, 1.5, need_n)

        def dat(g):
            nn = need_n if need_n is not None else 4
            X = g.uniform(-1, 1, (nn, int(g.integers(25, 40))))
            A = g.standard_normal((nn, nn)) * 0.4
            return X, A @ X + 0.1 * X ** 2

        def fit(d, args):
            r = d.fit(*args)
            d.analyze_fixed_point(np.full(args[0].shape[0], 0.1), compute_A=True)
            return r

        def f(d):
            return d.f(np.asarray(d.snapshots)[:, :4] * 0.5)

        return Kit(name, lambda: LANDO(**cp(k2)), dat, fit=fit, tol=1e-4, random=True,
                   props=("eigs", "modes", "snapshots", "bias", "linear", "fixed_point",
                          "sparse_dictionary"),
                   extra={**tm, "f": f, "nonlinear": lambda d: d.nonlinear(
                       np.asarray(d.snapshots)[:, :4])}, kw=k2)
    if name == "HAVOK":
        k2 = dict(svd_rank=int(rng.integers(3, 6)), delays=int(rng.integers(6, 12)),
                  lag=int(rng.integers(1, 3)), num_chaos=1,
                  structured=bool(rng.integers(2)), lstsq=bool(rng.integers(2)))

        def dat(g):
            m = int(g.integers(80, 120))
            t = np.arange(m) * 0.05
            x = sum(g.uniform(0.5, 1) * np.sin(w * t + g.uniform(0, 6)) for w in
                    (1.0, 2.3, 4.1)) + 0.02 * g.standard_normal(m)
            return x, pick(g, [t, 0.05])

        return Kit(name, lambda: HAVOK(**k2), dat, tol=1e-5,
                   props=("snapshots", "ho_snapshots", "time", "modes", "singular_vals",
                          "delay_embeddings", "linear_dynamics", "forcing", "operator",
                          "A", "B", "eigs", "r", "reconstructed_embeddings",
                          "reconstructed_data"), kw=k2)
    if name == "ParametricDMD":
        part = bool(rng.integers(2))
        k = int(rng.integers(2, 4))
        light = bool(rng.integers(2))

        def build():
            def mk():
                return DMD(svd_rank=3, opt=False)
            return ParametricDMD([mk() for _ in range(k)] if part else mk(), Svd(4),
                                 Interp(), light=light)

        def dat(g):
            nn, m = dims(g)
            X = np.stack([noisy(g, nn, m) for _ in range(k)])
            return X, np.sort(g.uniform(0, 1, k)) + np.arange(k)

        def fit(d, args):
            r = d.fit(*args)
            d.parameters = np.array([0.3, 1.2])
            return r

        ex = {**tm}
        pr = ("reconstructed_data", "training_parameters", "parameters", "dmd_timesteps",
              "forecasted_modal_coefficients", "interpolated_modal_coefficients")
        if not light:
            pr = pr + ("training_modal_coefficients",)
        return Kit(name, build, dat, fit=fit, props=pr, extra=ex, tol=1e-4,
                   kw=dict(part=part, k=k))
    if name in ("COSTS", "mrCOSTS"):
        gs = bool(rng.integers(2))
        rank = 0 if gs and name == "COSTS" and rng.random() < 0.4 else 4

        def dat(g):
            m = int(g.integers(60, 90))
            t = np.arange(m) * 0.1
            nn = 4
            Q = np.linalg.qr(g.standard_normal((nn, nn)))[0]
            S = np.stack([np.cos(0.9 * t), np.sin(0.9 * t), np.cos(5 * t), np.sin(5 * t)])
            if rank == 0 and g.random() < 0.5:
                S[2:] = 0.0
            X = Q @ (S * np.array([2, 2, 1, 1])[:, None]) + 0.001 * g.standard_normal((nn, m))
            return X, t

        pk = pick(rng, [None, {"eig_constraints": {"conjugate_pairs"}}])
        if name == "COSTS":
            def build():
                return COSTS(svd_rank=rank, global_svd=gs, pydmd_kwargs=cp(pk))

            def fit(d, args):
                X, t = args
                d.fit(X, np.atleast_2d(t), 30, 7)
                d.cluster_omega(n_components=2, transform_method="absolute")
                return d

            return Kit(name, build, dat, fit=fit, tol=1e-4,
                       props=("modes_array", "amplitudes_array", "omega_array", "time_array",
                              "window_means_array", "cluster_centroids", "omega_classes",
                              "n_components", "n_slides", "svd_rank"),
                       extra={"rec": lambda d: d.global_reconstruction(),
                              "sep": lambda d: d.scale_separation(),
                              "periods": lambda d: d.periods()},
                       kw=dict(gs=gs, pk=pk, rank=rank), heavy=True)

        def build():
            return mrCOSTS(window_length_array=[20, 40], step_size_array=[8, 12],
                           svd_rank_array=[4, 4], n_components_array=[2, 2],
                           transform_method="absolute", cluster_sweep=False,
                           pydmd_kwargs=cp(pk))

        def fit(d, args):
            X, t = args
            d.fit(X, t, verbose=False)
            return d

        return Kit(name, build, dat, fit=fit, tol=1e-4, props=("n_components_array",
                   "n_decompositions"),
                   extra={"om": lambda d: [c.omega_array for c in d.costs_array],
                          "rec": lambda d: [c.global_reconstruction() for c in d.costs_array]},
                   kw=dict(gs=gs, pk=pk), heavy=True)
    if name.startswith("wrap-"):
        k2 = dict(svd_rank=int(rng.integers(1, 4)), opt=pick(rng, [False, True]))
        inner = pick(rng, ["DMD", "SubspaceDMD"])
        icls = {"DMD": DMD, "SubspaceDMD": SubspaceDMD}[inner]
        p = dict(d=int(rng.integers(1, 4)), rec=pick(rng, ["first", "mean"]),
                 axis=pick(rng, [None, 1]))

        def build():
            dm = icls(**k2)
            if name == "wrap-hankel":
                return hankel_preprocessing(dm, d=p["d"], reconstruction_method=p["rec"])
            if name == "wrap-svd":
                return svd_projection_preprocessing(dm, svd_rank=4)
            if name == "wrap-mean":
                return (zero_mean_preprocessing(dm) if p["axis"] is None else
                        zero_mean_preprocessing(dm, axis=1))
            return randomized_preprocessing(dm, svd_rank=4, seed=7)

        return Kit(name, build, snap, extra=tm, kw=dict(k2, inner=inner, **p))
    raise AssertionError(name)


def diff(a, b, tol):
    """None if the observations agree, else the first difference."""
    if set(a) != set(b):
        return "keys %s" % (set(a) ^ set(b))
    for k in a:
        d = vdiff(a[k], b[k], tol)
        if d:
            return "%s: %s" % (k, d)
    return None


def vdiff(x, y, tol):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        if len(x) != len(y):
            return "len %d != %d" % (len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            d = vdiff(p, q, tol)
            if d:
                return "[%d] %s" % (i, d)
        return None
    if isinstance(x, dict) and isinstance(y, dict):
        if set(x) != set(y):
            return "keys differ"
        for k in x:
            d = vdiff(x[k], y[k], tol)
            if d:
                return "[%r] %s" % (k, d)
        return None
    if x is None or y is None or isinstance(x, (str, bool)):
        return None if (x is None) == (y is None) and x == y else "%r != %r" % (x, y)
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return "shape %s != %s" % (x.shape, y.shape)
    if x.size == 0:
        return None
    if x.dtype == object or y.dtype == object:
        for i, (p, q) in enumerate(zip(x.ravel(), y.ravel())):
            d = vdiff(p, q, tol)
            if d:
                return "[%d] %s" % (i, d)
        return None
    if x.dtype == bool or y.dtype == bool:
        return None if np.array_equal(x, y) else "boolean arrays differ"
    nx, ny = ~np.isfinite(x), ~np.isfinite(y)
    if not np.array_equal(nx, ny):
        return "non-finite pattern differs"
    x = np.where(nx, 0, x)
    y = np.where(ny, 0, y)
    s = max(float(np.abs(x).max()), float(np.abs(y).max()), 1e-12)
    e = float(np.abs(x - y).max()) / s
    return None if e <= tol else "rel diff %.2e" % e
