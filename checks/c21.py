"""C21: pre/post-processing decorators."""

import copy
import warnings

import numpy as np

from pydmd import BOPDMD, DMD, DMDc, HODMD, MrDMD, PiDMD, SpDMD, SubspaceDMD
from pydmd.preprocessing import (
    PrePostProcessingDMD,
    hankel_preprocessing,
    randomized_preprocessing,
    svd_projection_preprocessing,
    zero_mean_preprocessing,
)
from pydmd.preprocessing.pre_post_processing import PrePostProcessing
from vmon.core import Skip
from vmon.gen import cont_system, linear_system, pick, random_data

RULE = (
    "Every decorator (hankel, svd projection, zero mean, randomized, custom, "
    "nested) around eight DMD classes, compared with the bare class fitted on "
    "independently pre-processed data and an independent inverse transformation, "
    "over refits, time windows, mode selections and copies; linear data as ground "
    "truth; distinct = distinct (decorators, inner class, history) tuples."
)
ASSUMPTIONS = [
    "randomized projections are compared through the projection onto the data's "
    "own range (targets of full rank) or a given test matrix",
]
CASE_TIMEOUT = 60


def hankel(X, d):
    m = X.shape[1] - d + 1
    return np.vstack([X[:, i:i + m] for i in range(d)])


def unhankel(Y, d, method):
    n, k = Y.shape[0] // d, Y.shape[1]
    out = np.zeros((n, k + d - 1), dtype=complex)
    for t in range(k + d - 1):
        vs = {j: Y[j * n:(j + 1) * n, t - j] for j in range(d) if 0 <= t - j < k}
        if isinstance(method, str) and method == "first":
            out[:, t] = vs[max(vs)] if t < d - 1 or (d - 1) not in vs else vs[d - 1]
        elif isinstance(method, str):
            out[:, t] = np.mean(list(vs.values()), 0)
        else:
            w = np.array([method[j] for j in vs])
            out[:, t] = (w[:, None] * np.array(list(vs.values()))).sum(0) / w.sum()
    return out


class Own(PrePostProcessing):
    """User-defined: rows scaled; the state is what pre_processing returned."""

    def __init__(self, s):
        self.s = s
        self.log = []

    def pre_processing(self, X):
        f = self.s * np.abs(X).max()
        self.log.append("pre")
        return f, X / f

    def post_processing(self, f, Y):
        self.log.append("post")
        return Y * f


def decorators(rng, X, allow_hankel=True):
    """[(name, wrap(dmd), pre(X)->(state, X'), post(state, Y))]"""
    n, m = X.shape
    name = pick(rng, (["hankel"] * 3 if allow_hankel else []) + ["svd", "mean", "mean-axis", "mean-w", "rand", "own",
                                                               "identity"])
    if name == "hankel":
        d = int(rng.integers(1, max(2, min(5, m // 3))))
        if rng.random() < 0.15:
            d = int(rng.integers(1, max(2, m - 4)))
        meth = pick(rng, ["first", "mean", "w", "wl", "default"])
        w = rng.uniform(0.2, 2, d)
        arg = {"w": w, "wl": list(w)}.get(meth, meth)
        ref = w if meth in ("w", "wl") else "first" if meth == "default" else meth
        wrap = (lambda q: hankel_preprocessing(q, d=d)) if meth == "default" else (
            lambda q: hankel_preprocessing(q, d=d, reconstruction_method=arg))
        return f"hankel-{meth}", wrap, lambda Z: (None, hankel(Z, d)), lambda st, Y: unhankel(Y, d, ref)
    if name == "svd":
        rank = pick(rng, [-1, int(rng.integers(1, n + 1))])
        def pre(Z):
            U = np.linalg.svd(Z, full_matrices=False)[0]
            U = U[:, :rank] if rank > 0 and Z.shape[0] > 1 else U
            return U, U.conj().T @ Z
        return "svd", lambda q: svd_projection_preprocessing(q, svd_rank=rank), pre, lambda U, Y: U @ Y
    if name.startswith("mean"):
        kw = {}
        if name == "mean-axis":
            kw = dict(axis=pick(rng, [0, 1, -1]))
        if name == "mean-w":
            kw = dict(axis=1, weights=rng.uniform(0.1, 1, m))
        def pre(Z):
            if "weights" in kw:
                mu = (Z * kw["weights"]).sum(1, keepdims=True) / kw["weights"].sum()
            else:
                mu = Z.sum(axis=kw.get("axis"), keepdims=True) / (
                    Z.size if not kw else Z.shape[kw["axis"]])
            return mu, Z - mu
        return name, lambda q: zero_mean_preprocessing(q, **kw), pre, lambda mu, Y: Y + mu
    if name == "rand":
        G = random_data(rng, m, min(n, m), False)
        def pre(Z):
            Q = np.linalg.svd(Z, full_matrices=False)[0]
            return Q, Q.conj().T @ Z
        # a full test matrix spans the whole range: the projection is P = QQ*
        return ("rand", lambda q: randomized_preprocessing(q, svd_rank=n, oversampling=0, test_matrix=G.copy()), pre,
                lambda Q, Y: Q @ Y)
    if name == "own":
        s = float(rng.uniform(0.5, 3))
        return "own", lambda q: PrePostProcessingDMD(q, Own(s)), lambda Z: (
            s * np.abs(Z).max(), Z / (s * np.abs(Z).max())), lambda f, Y: Y * f
    return "identity", lambda q: PrePostProcessingDMD(q), lambda Z: (None, Z), lambda st, Y: Y


def inner(rng, n, m):
    name = pick(rng, ["DMD", "DMD", "SubspaceDMD", "BOPDMD", "HODMD", "MrDMD", "PiDMD", "SpDMD", "DMDc"])
    r = int(rng.integers(1, min(n, 4) + 1))
    opt = pick(rng, [False, True])
    if name == "DMD":
        kw = dict(svd_rank=r, opt=opt, exact=bool(rng.integers(2)), tlsq_rank=pick(rng, [0, 0, r]))
        return name, lambda: DMD(**kw)
    if name == "SubspaceDMD":
        return name, lambda: SubspaceDMD(svd_rank=r, opt=opt)
    if name == "BOPDMD":
        return name, lambda: BOPDMD(svd_rank=r, varpro_opts_dict=dict(maxiter=3, verbose=False))
    if name == "HODMD":
        return name, lambda: HODMD(svd_rank=r, d=2, opt=opt, svd_rank_extra=-1)
    if name == "MrDMD":
        return name, lambda: MrDMD(DMD(svd_rank=r), max_level=1)
    if name == "PiDMD":
        return name, lambda: PiDMD(manifold="unitary", svd_rank=-1, compute_A=True)
    if name == "SpDMD":
        return name, lambda: SpDMD(svd_rank=r, gamma=1e-3, verbose=False, max_iterations=20)
    return name, lambda: DMDc(svd_rank=-1)


def rec(d, name, U):
    return np.asarray(d.reconstructed_data(U) if name == "DMDc" else d.reconstructed_data)


def chain(rng, mon):
    cplx = bool(rng.random() < 0.3)
    n, m = int(rng.integers(2, 8)), int(rng.integers(14, 26))
    kind = pick(rng, ["linear", "random"])
    if kind == "linear":
        X = linear_system(rng, n=n, r=min(n, 4), m=m, real=not cplx, rho=(0.9, 1.0), max_cond=1e2).X
    else:
        X = np.cumsum(random_data(rng, n, m, cplx), 1)
    X = X + (2.0 if rng.random() < 0.3 else 0.0)
    n, m = X.shape
    iname, mk = inner(rng, n, m)
    if iname in ("DMD", "SubspaceDMD", "HODMD", "MrDMD"):
        X = X * 2.0 ** float(pick(rng, [0, 0, 0, -60, 40]))  # other units
    depth = int(pick(rng, [1, 1, 2, 3]))
    layers, Z, rotated = [], X, False
    for _ in range(depth):
        L = decorators(rng, Z, iname != "DMDc")
        if rotated and L[0] in ("mean", "mean-axis", "own"):
            continue  # the basis of a projection is not unique
        rotated = rotated or L[0] in ("svd", "rand")
        layers.append(L)
        Z = L[2](Z)[1]
    if rotated and iname == "BOPDMD":
        raise Skip()
    if min(Z.shape) < 2 and iname != "DMD":
        raise Skip()
    if iname in ("MrDMD", "HODMD") and Z.shape[1] < 10:
        raise Skip()
    where = f"{[l[0] for l in layers]} {iname} {X.shape} {X.dtype} {kind}"
    mon.describe(where=where)
    U = rng.standard_normal((1, m - 1))
    t = np.arange(Z.shape[1]) * 0.5 + 1
    args = {"BOPDMD": (t,), "DMDc": (U,)}.get(iname, ())
    names = {"BOPDMD": ("t",), "DMDc": ("I", "B")}.get(iname, ())
    if iname == "DMDc" and not rotated and rng.random() < 0.4:
        args = (U, rng.standard_normal((Z.shape[0], 1)))  # a known control matrix
    w = mk()
    for L in reversed(layers):
        w = L[1](w)
    history = pick(rng, ["fresh", "fresh", "refit", "copy"])
    mon.sig(tuple(l[0] for l in layers), iname, history)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        X0 = X.copy()
        try:
            states, Y = [], X
            for L in layers:
                st, Y = L[2](Y)
                states.append(st)
            ref = mk().fit(Y, *args)
            want = rec(ref, iname, U)
        except (np.linalg.LinAlgError, ValueError) as e:
            raise Skip() from e
        if history == "refit":
            w.fit(np.cumsum(random_data(rng, n, m, cplx), 1) + 5, *args)
            try:
                rec(w, iname, U)
            except Exception:
                pass
        got = w.fit(X=X, **dict(zip(names, args))) if rng.random() < 0.3 else w.fit(X, *args)
        mon.ok("fit-returns-self", got is w, where)
        mon.ok("data-untouched", np.array_equal(X, X0), where)
        if history == "copy":
            w = copy.deepcopy(w)
        # the bare model of the pre-processed data
        inn = w
        while isinstance(inn, PrePostProcessingDMD):
            inn = inn.pre_post_processed_dmd
        mon.ok("decorates", type(inn).__name__ == iname, where)
        big = max(np.abs(X).max(), np.abs(want).max())
        if not np.all(np.isfinite(want)) or big > 1e6 * np.abs(X).max():
            raise Skip()
        for L, st in zip(reversed(layers), reversed(states)):
            want = L[3](st, want)
        gdata = rec(w, iname, U)
        mon.eq("shape", gdata.shape, want.shape, where)
        # a rotation of the coordinates (svd, randomized) is not seen by the result
        tol = 1e-6
        sens = 1.0
        if iname == "BOPDMD":
            tol = 1e-3
        if any(l[0] in ("svd", "rand") for l in layers) and iname in ("PiDMD", "BOPDMD", "SpDMD", "MrDMD", "HODMD"):
            # these see the coordinates only up to their own accuracy
            tol = 1e-4
        s = np.linalg.svd(Y[:, :-1], compute_uv=False)
        r = getattr(mk(), "svd_rank", -1)
        if isinstance(r, int) and 0 < r < len(s) and s[r - 1] - s[r] < 1e-4 * s[0]:
            raise Skip()
        if iname != "MrDMD" and hasattr(ref, "eigs") and np.linalg.cond(ref.modes) > 1e5:
            raise Skip()
        if s[min(len(s), r if isinstance(r, int) and r > 0 else len(s)) - 1] < 1e-6 * s[0]:
            raise Skip()
        twin = mk().fit(Y + 1e-11 * np.abs(Y).max() * random_data(
            rng, *Y.shape, np.iscomplexobj(Y), scale=1.0), *args)
        drift = np.abs(rec(twin, iname, U) - rec(ref, iname, U)).max() / big
        if not drift < 1e-8:
            raise Skip()  # ill-conditioned in itself
        mon.close("reconstruction", gdata, want, tol * sens * 0.1, where, scale=big)
        # attributes are those of the wrapped model
        for a in ("eigs", "amplitudes", "modes", "dynamics"):
            mon.ok("delegates", np.array_equal(np.asarray(getattr(w, a)), np.asarray(getattr(inn, a))), f"{where} {a}")
        if iname in ("DMD", "SubspaceDMD"):
            mask = np.zeros(len(inn.eigs), bool)
            mask[: int(rng.integers(1, len(mask) + 1))] = True
            w.modes_activation_bitmask = mask
            ref.modes_activation_bitmask = mask
            mon.ok("bitmask-reaches", np.array_equal(inn.modes_activation_bitmask, mask), where)
            rev = [l for l in layers if l[0] in ("svd", "rand")]
            if not rev:
                want = np.asarray(ref.reconstructed_data)
                for L, st in zip(reversed(layers), reversed(states)):
                    want = L[3](st, want)
                mon.close("bitmask-data", w.reconstructed_data, want, 1e-6, where, scale=big)
            w.modes_activation_bitmask = np.ones(len(mask), bool)
            ref.modes_activation_bitmask = np.ones(len(mask), bool)
            if np.abs(ref.eigs).max() < 1.3 and not rev:
                k = int(rng.integers(1, 6))
                if rng.random() < 0.5:
                    w.dmd_time["tend"] += k
                else:
                    tm = copy.deepcopy(w.dmd_time)
                    tm["tend"] += k
                    if rng.random() < 0.5:
                        # a finer output grid, and a window starting later
                        tm["dt"] = tm["dt"] / int(rng.integers(1, 4))
                        tm["t0"] = tm["t0"] + tm["dt"] * int(rng.integers(0, 3))
                        ref.dmd_time["dt"], ref.dmd_time["t0"] = tm["dt"], tm["t0"]
                    w.dmd_time = tm
                ref.dmd_time["tend"] += k
                want = np.asarray(ref.reconstructed_data)
                for L, st in zip(reversed(layers), reversed(states)):
                    want = L[3](st, want) if not (L[0] == "mean-axis" and np.ndim(st) == 2 and st.shape[0] == 1
                                                  and st.shape[1] > 1) else None
                    if want is None:
                        break
                if want is not None:
                    mon.close("window-data", w.reconstructed_data, want, 1e-6, where, scale=max(big, np.abs(want).max()))
                    mon.eq("window-reaches", len(w.dmd_timesteps), len(ref.dmd_timesteps), where)


def truth(rng, mon):
    """Linear signals pass through any decorator unchanged, and forecast."""
    cplx = bool(rng.random() < 0.4)
    n, r = int(rng.integers(1, 9)), int(rng.integers(1, 5))
    m = int(rng.integers(20, 40))
    name = pick(rng, ["hankel", "svd", "rand", "mean", "hankel+svd", "mean+hankel"])
    if "hankel" not in name:
        n = max(n, r + 1)
    d = int(rng.integers(-(-r // n) + 1, 7))
    if "hankel" in name and n * d < r + 1:
        raise Skip()
    L = linear_system(rng, n=max(n, r), r=r, m=m, real=not cplx, rho=(0.93, 1.0), max_cond=1e2)
    r = len(L.eigs)
    ts = np.arange(m + 5)
    F = L.at(ts)[:n] if callable(getattr(L, "at", None)) else None
    F = np.asarray(F)
    if not cplx:
        F = F.real
    rank, c = r, 0.0
    if "mean" in name:
        c = rng.standard_normal((n, 1)) * np.abs(F).max()
        rank = r + 1
    X = F[:, :m] + c
    H = hankel(X, d) if "hankel" in name else X
    if "mean" in name:
        Hz = hankel(X - X.mean(), d) if "hankel" in name else X - X.mean(axis=1, keepdims=True)
        H = Hz
    s = np.linalg.svd(H[:, :-1], compute_uv=False)
    if len(s) < rank or s[rank - 1] < 1e-4 * s[0]:
        raise Skip()
    q = DMD(svd_rank=rank)
    how = pick(rng, ["first", "mean"])
    if name == "hankel":
        w = hankel_preprocessing(q, d=d, reconstruction_method=how)
    elif name == "svd":
        w = svd_projection_preprocessing(q, svd_rank=pick(rng, [-1, rank]))
    elif name == "rand":
        w = randomized_preprocessing(q, svd_rank=rank, seed=int(rng.integers(99)),
                                     oversampling=int(pick(rng, [2, 10])), power_iters=int(pick(rng, [0, 1, 2])))
    elif name == "mean":
        w = zero_mean_preprocessing(q, axis=1)
    elif name == "hankel+svd":
        w = hankel_preprocessing(svd_projection_preprocessing(q, svd_rank=rank), d=d, reconstruction_method=how)
    else:
        w = zero_mean_preprocessing(hankel_preprocessing(q, d=d, reconstruction_method=how))
    where = f"truth {name} n={n} r={r} m={m} d={d} {X.dtype}"
    mon.describe(where=where)
    mon.sig("truth", name, n, r, cplx)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w.fit(X)
    if np.linalg.cond(q.modes) > 1e5:
        raise Skip()
    mon.close("true-data", w.reconstructed_data, X, 1e-6, where)
    w.dmd_time["tend"] += 5
    mon.close("true-forecast", w.reconstructed_data, F + c, 1e-5, where)


def rejects(rng, mon):
    k = pick(rng, ["none", "method-type", "method-name", "no-data", "unfitted"])
    mon.sig("rejects", k)
    X = rng.standard_normal((3, 10))
    bad = (ValueError, TypeError)
    if k == "none":
        mk = pick(rng, [lambda: PrePostProcessingDMD(None), lambda: zero_mean_preprocessing(None),
                        lambda: svd_projection_preprocessing(None, 2), lambda: hankel_preprocessing(None, 2)])
        mon.raises("rejected", bad, mk, k)
    elif k.startswith("method"):
        arg = pick(rng, [3, {"a": 1}]) if k == "method-type" else pick(rng, ["last", "median", ""])
        def f():
            return hankel_preprocessing(DMD(svd_rank=2), d=2, reconstruction_method=arg).fit(X).reconstructed_data
        mon.raises("rejected", bad, f, f"{k} {arg}")
    elif k == "no-data":
        mon.raises("rejected", bad, lambda: zero_mean_preprocessing(DMD()).fit(), k)
    else:
        w = pick(rng, [zero_mean_preprocessing, lambda q: hankel_preprocessing(q, 2)])(DMD(svd_rank=2))
        mon.raises("rejected", (ValueError, TypeError, AttributeError), lambda: w.reconstructed_data, k)


WORKLOADS = {
    "chain": {"fn": chain, "quick": 1500, "thorough": 15000},
    "truth": {"fn": truth, "quick": 600, "thorough": 6000},
    "rejects": {"fn": rejects, "quick": 80, "thorough": 300},
}
REQUIRED = {"reconstruction": 500, "true-data": 200, "delegates": 500, "window-data": 100, "rejected": 50}
