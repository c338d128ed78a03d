"""C10: every accepted representation of the data means the same; malformed
data and premature reads are rejected."""

import copy
import warnings

import numpy as np

from pydmd import DMD, LANDO, BOPDMD, DMDc, HankelDMD, HODMD, OptDMD, VarProDMD
from pydmd.snapshots import Snapshots
from vmon.core import Skip
from vmon.gen import as_layout, ndshape, pick, random_data
from vmon.kits import NAMES, diff, make_kit

RULE = (
    "Random class x random options x random data given as flat matrix, as "
    "multidimensional array, as list or tuple of snapshots, in different memory "
    "layouts and dtypes; all observations compared with the fit on the flat "
    "float matrix; malformed data (1-D, single snapshot, ragged, scalars, empty, "
    "NaN/inf, mismatched pairs) and reads before any fit must be rejected; "
    "distinct = distinct (class, representation) tuples."
)
ASSUMPTIONS = []
CASE_TIMEOUT = 60
# classes documented to normalise their training data with Snapshots
SNAP = ["DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "EDMD", "SpDMD", "HankelDMD",
        "HODMD", "OptDMD", "DMDc", "PiDMD", "BOPDMD", "VarProDMD", "MrDMD", "LANDO"]


def fit(kit, data, seed=3):
    model = kit.build()
    np.random.seed(seed)
    try:
        kit.fit(model, data)
    except np.linalg.LinAlgError:
        raise Skip()
    except ValueError as e:
        if "conjugate pairs" in str(e):
            raise Skip()  # the data do not meet the constraint
        raise
    return model


def shaky(kit, data, want, tol):
    """does round-off in the data alone change the result that much?"""
    X = np.asarray(data[0], dtype=complex if np.iscomplexobj(data[0]) else float)
    for s in (1, 2, 3):
        w = np.random.RandomState(s).uniform(-1, 1, X.shape)
        twin = np.empty_like(X, order="K")
        twin[...] = X * (1 + 4e-15 * w)
        got = kit.obs(fit(kit, (twin,) + tuple(data[1:])))
        skip = ("snapshots", "snapshots_shape")
        if diff(gauge({k: v for k, v in want.items() if k not in skip}),
                gauge({k: v for k, v in got.items() if k not in skip}), tol):
            return True
    return False


def represent(rng, X, kind, shape):
    """another representation of the n x m matrix X"""
    n, m = X.shape
    if kind == "nd":
        return as_layout(rng, X.reshape(shape + (m,)))
    if kind == "list":
        return [X[:, i].reshape(shape).copy() for i in range(m)]
    if kind == "tuple":
        return tuple(X[:, i].reshape(shape).copy() for i in range(m))
    if kind == "pylist":
        return [X[:, i].tolist() for i in range(m)]
    if kind == "flist":
        return [np.asfortranarray(X[:, i].reshape(shape)) for i in range(m)]
    return as_layout(rng, X)


def like(X, Z):
    """the flat matrix X, stored in the memory order of Snapshots(Z)"""
    out = np.empty_like(Snapshots(Z).snapshots, dtype=X.dtype, order="K")
    out[...] = X
    return out


def gauge(obs):
    """drop the arbitrary phase of eigenvectors, which round-off may change"""
    return {k: np.abs(v) if k in ("modes", "amplitudes", "dynamics", "eigenfunctions")
            and v is not None else v for k, v in obs.items()}


def shapes(rng, mon):
    name = pick(rng, [x for x in SNAP if x != "LANDO"])  # LANDO: see C17
    kit = make_kit(rng, name)
    data = kit.data(rng)
    X = np.asarray(data[0])
    n, m = X.shape
    shape = ndshape(rng, n)
    kind = pick(rng, ["nd", "list", "tuple", "pylist", "flist", "layout"])
    mon.describe(cls=name, kw=kit.kw, kind=kind, shape=shape, dtype=X.dtype)
    mon.sig(name, kind, len(shape), X.dtype.kind)
    Z = represent(rng, X, kind, shape)
    rest = base = data[1:]
    if len(data) > 1 and name == "OptDMD":
        Y = np.asarray(data[1])
        rest = (represent(rng, Y, kind, shape),)
        base = (like(Y, rest[0]),)
    # reference: the flat matrix, in the memory order the representation leads
    # to, so that both fits follow the same floating-point path
    ref = fit(kit, (like(X, Z),) + base)
    want = kit.obs(ref)
    model = fit(kit, (Z,) + rest)
    got = kit.obs(model)
    shp = (n,) if kind in ("pylist", "layout") else shape
    if "snapshots_shape" in want:
        mon.eq("snapshots-shape-is-the-original-shape", tuple(got["snapshots_shape"]), shp, name)
        want.pop("snapshots_shape"), got.pop("snapshots_shape")
    if "snapshots" in got:
        mon.ok("snapshots-flattened-in-C-order", np.array_equal(got["snapshots"], X), name)
    d = diff(gauge(want), gauge(got), max(kit.tol, 1e-6))
    if d is not None and shaky(kit, (like(X, Z),) + base, want, max(kit.tol, 1e-6) / 10):
        mon.event("ill-conditioned")
        raise Skip()
    mon.ok("representation-does-not-matter", d is None, "%s %s %s: %s" % (name, kind, shape, d))


def dtypes(rng, mon):
    """narrow integer, unsigned, boolean and python numbers behave as floats"""
    name = pick(rng, [s for s in SNAP if s not in ("OptDMD", "DMDc", "LANDO", "PiDMD")])
    kit = make_kit(rng, name, cplx=False)
    data = kit.data(rng)
    X = np.asarray(data[0]).real
    dt = pick(rng, [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.int64, np.float32])
    if dt is np.float32:
        Q = X.astype(np.float32)
        X = Q.astype(float)
        tol = 2e-2
    else:
        info = np.iinfo(dt)
        top = min(info.max, 30000) * 0.97
        X = X / np.abs(X).max()
        if info.min == 0:
            X = (X + 1) / 2
        X = np.round(X * top)
        Q = X.astype(dt)
        tol = max(kit.tol, 1e-6)
    mon.describe(cls=name, kw=kit.kw, dtype=np.dtype(dt).name)
    mon.sig(name, np.dtype(dt).name)
    mon.event("dtype:" + np.dtype(dt).name)
    ref = fit(kit, (X,) + data[1:])
    want = kit.obs(ref)
    model = fit(kit, (Q,) + data[1:])
    if dt is np.float32:
        # single precision: only the reconstruction quality is comparable
        a, b = np.asarray(ref.reconstructed_data), np.asarray(model.reconstructed_data)
        mon.ok("single-precision-accepted", a.shape == b.shape, name)
        return
    d = diff(want, kit.obs(model), tol)
    if d is not None and shaky(kit, (X,) + data[1:], want, tol / 10):
        mon.event("ill-conditioned")
        raise Skip()
    mon.ok("dtype-does-not-matter", d is None, "%s %s: %s" % (name, np.dtype(dt).name, d))


def pairs(rng, mon):
    """fit(X) equals fit(X[:, :-1], X[:, 1:])"""
    cplx = bool(rng.integers(2))
    n, m = int(rng.integers(4, 10)), int(rng.integers(8, 16))
    X = random_data(rng, n, m, cplx=cplx, decay=0.8)
    r = int(rng.integers(1, 4))
    shape = ndshape(rng, n)
    A, B = X[:, :-1].copy(), X[:, 1:].copy()
    if rng.random() < 0.5:
        A, B = A.reshape(shape + (m - 1,)), B.reshape(shape + (m - 1,))
    kw = dict(svd_rank=r, exact=bool(rng.integers(2)), sorted_eigs="abs")
    mon.describe(kw=kw, cplx=cplx, shape=A.shape)
    mon.sig("pair", cplx, A.ndim, kw["exact"])
    a, b = DMD(**kw).fit(X), DMD(**kw).fit(A, B)
    mon.close("pair-form-equals-sequence-form", b.eigs, a.eigs, 1e-8, "eigs")
    mon.close("pair-form-equals-sequence-form", np.abs(b.modes), np.abs(a.modes), 1e-6, "modes")
    mon.ok("both-snapshot-sets-kept", np.array_equal(b.snapshots, A.reshape(n, -1))
           and np.array_equal(b.snapshots_y, B.reshape(n, -1)))
    o1 = OptDMD(svd_rank=r, factorization="evd").fit(X)
    o2 = OptDMD(svd_rank=r, factorization="evd").fit(A, B)
    mon.close("pair-form-equals-sequence-form", np.sort(np.abs(o2.eigs)), np.sort(np.abs(o1.eigs)),
              1e-7, "OptDMD")
    # mismatched pairs are rejected
    bad = pick(rng, [B[..., :-1], B[:-1] if B.shape[0] > 1 else B[..., :-1], X])
    mon.raises("mismatched-pair-rejected", ValueError, lambda: DMD(**kw).fit(A, bad), "DMD")
    if not cplx:
        mon.raises("mismatched-pair-rejected", ValueError,
                   lambda: LANDO(svd_rank=1).fit(A, bad), "LANDO")


def malformed(rng, mon):
    name = pick(rng, NAMES)
    kit = make_kit(rng, name)
    data = kit.data(rng)
    X = np.asarray(data[0])
    kind = pick(rng, ["1d", "one", "ragged", "scalars", "empty", "nan", "inf", "onelist"])
    if kind == "1d":
        if name in ("HAVOK",):
            raise Skip()
        bad = X.ravel()[:20]
    elif kind == "one":
        bad = X[..., :1]
    elif kind == "onelist":
        if name not in SNAP:
            raise Skip()
        bad = [X[..., 0]]
    elif kind == "ragged":
        bad = [np.ones(3), np.ones(4), np.ones(3)]
        if name in SNAP and rng.random() < 0.4:
            # as many values, but not the same shape
            bad = [rng.standard_normal((2, 3)) for _ in range(12)]
            bad[int(rng.integers(12))] = rng.standard_normal((3, 2))
    elif kind == "scalars":
        bad = [1.0, 2.0, 3.0, 4.0]
    elif kind == "empty":
        bad = X[..., :0]
    else:
        bad = np.array(X, dtype=complex if np.iscomplexobj(X) else float)
        idx = tuple(int(rng.integers(k)) for k in bad.shape)
        bad[idx] = np.nan if kind == "nan" else np.inf
    mon.sig(name, kind)
    mon.describe(cls=name, kind=kind, kw=kit.kw)
    mon.event("bad:" + kind)
    model = kit.build()
    exc = ValueError if name in SNAP and kind not in ("nan", "inf") else Exception
    if name == "LANDO":
        def call():
            model.fit(bad, *data[1:])
    elif name == "OptDMD" and len(data) > 1:
        def call():
            model.fit(bad, bad)
    else:
        def call():
            kit.fit(model, (bad,) + data[1:])
    mon.raises("malformed-data-rejected", exc, call, "%s %s" % (name, kind))
    if name in SNAP and name not in ("OptDMD", "MrDMD") and kind not in ("nan", "inf"):
        mon.ok("rejected-fit-is-no-fit", not model.fitted, name)
        mon.ok("rejected-fit-is-no-fit", model.modes is None and model.eigs is None, name)


def mismatched(rng, mon):
    """auxiliary data that do not fit the snapshots are rejected"""
    n, m = 5, int(rng.integers(10, 16))
    X = random_data(rng, n, m, cplx=False, decay=0.7)
    t = np.arange(m) * 0.1
    k = pick(rng, ["bop-len", "bop-2d", "dmdc", "hankel", "hodmd", "init", "hankel-weights"])
    mon.sig(k)
    mon.describe(kind=k)
    if k == "bop-len":
        f = lambda: BOPDMD(svd_rank=2).fit(X, t[: m - int(rng.integers(1, 4))])
    elif k == "bop-2d":
        f = lambda: BOPDMD(svd_rank=2).fit(X, np.stack([t, t]))
    elif k == "init":
        f = lambda: BOPDMD(svd_rank=2, init_alpha=np.ones(3, complex)).fit(X, t)
    elif k == "dmdc":
        f = lambda: DMDc(svd_rank=-1).fit(X, rng.standard_normal((2, m + int(rng.integers(0, 3)))))
    elif k == "hankel":
        f = lambda: HankelDMD(svd_rank=1, d=m + 1).fit(X)
    elif k == "hankel-weights":
        def f():
            d = HankelDMD(svd_rank=1, d=3, reconstruction_method=np.ones(2))
            d.fit(X)
            return d.reconstructed_data
    else:
        f = lambda: HODMD(svd_rank=1, d=m + 1).fit(X)
    mon.raises("mismatched-auxiliary-data-rejected", Exception, f, k)


def premature(rng, mon):
    """nothing numeric is reported before a fit"""
    name = pick(rng, [x for x in NAMES if x not in ("COSTS", "mrCOSTS", "MrDMD")])
    kit = make_kit(rng, name)
    model = kit.build()
    mon.sig(name, "premature")
    for p in kit.props:
        try:
            v = getattr(model, p)
        except Exception:
            v = None
        mon.ok("unfitted-model-reports-nothing", v is None, "%s.%s = %r" % (name, p, v))
    if name in SNAP and name not in ("OptDMD",):
        mon.ok("unfitted-model-says-so", not model.fitted, name)
        np.random.seed(1)
        try:
            kit.fit(model, kit.data(rng))
        except np.linalg.LinAlgError:
            raise Skip()
        mon.ok("fitted-model-says-so", bool(model.fitted), name)
    if name in ("DMD", "FbDMD", "SpDMD", "CDMD", "HankelDMD", "HODMD", "EDMD"):
        d2 = kit.build()
        for bad in ("t0", "x"):
            mon.raises("unfitted-time-window-rejected", Exception,
                       lambda: d2.dmd_time[bad], name)


def holder(rng, mon):
    """the Snapshots holder itself"""
    cplx = bool(rng.integers(2))
    n, m = int(rng.integers(1, 13)), int(rng.integers(2, 9))
    X = random_data(rng, n, m, cplx=cplx)
    shape = ndshape(rng, n)
    kind = pick(rng, ["nd", "list", "tuple", "pylist", "flist", "layout"])
    s = Snapshots(represent(rng, X, kind, shape))
    mon.sig("holder", kind, len(shape), cplx)
    mon.ok("holder-flattens-losslessly", np.array_equal(s.snapshots, X), kind)
    mon.eq("holder-remembers-shape", tuple(s.snapshots_shape),
           (n,) if kind in ("pylist", "layout") else shape, kind)
    back = s.snapshots.reshape(tuple(s.snapshots_shape) + (m,))
    i = int(rng.integers(m))
    mon.ok("holder-shape-restores-snapshots",
           np.array_equal(back[..., i].ravel(), X[:, i]), kind)


def flagged(rng, mon):
    """nearly dependent data are announced, whatever their units or field"""
    cplx = bool(rng.integers(2))
    n, m = int(rng.integers(2, 9)), int(rng.integers(2, 12))
    k = min(n, m)
    orth = lambda a: np.linalg.qr(rng.standard_normal((a, k)) + (
        1j * rng.standard_normal((a, k)) if cplx else 0))[0]
    cond = 10.0 ** float(pick(rng, [0.5, 2, 4, 4.6, 5.3, 6, 8]))
    s = np.sort(cond ** rng.uniform(0, 1, k))
    s[0], s[-1] = 1.0, cond
    X = (orth(n) * s) @ orth(m).conj().T * 2.0 ** float(pick(rng, [0, 0, -40, 30]))
    if cplx and rng.random() < 0.3:
        X = 1j * np.real((orth(n).real * s) @ orth(m).real.T)
    real = np.linalg.cond(X)
    if 8e4 < real < 1.3e5:
        raise Skip()
    shape = ndshape(rng, n)
    data = pick(rng, [X, X.reshape(shape + (m,)), [c.reshape(shape) for c in X.T]])
    mon.describe(n=n, m=m, cond=float(real), cplx=cplx)
    mon.sig("flagged", cplx, real > 1e5, type(data).__name__)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        Snapshots(data)
    told = any("condition number" in str(w.message) for w in log)
    mon.eq("ill-conditioned-data-announced", told, bool(real > 1e5), "cond %.3g" % real)


WORKLOADS = {
    "flagged": {"fn": flagged, "quick": 400, "thorough": 8000},
    "shapes": {"fn": shapes, "quick": 2200, "thorough": 50000},
    "dtypes": {"fn": dtypes, "quick": 1000, "thorough": 22000},
    "pairs": {"fn": pairs, "quick": 500, "thorough": 10000},
    "malformed": {"fn": malformed, "quick": 1400, "thorough": 25000},
    "mismatched": {"fn": mismatched, "quick": 200, "thorough": 3000},
    "premature": {"fn": premature, "quick": 300, "thorough": 5000},
    "holder": {"fn": holder, "quick": 800, "thorough": 20000},
}
REQUIRED = {
    "representation-does-not-matter": 1600,
    "snapshots-shape-is-the-original-shape": 700,
    "dtype-does-not-matter": 500,
    "pair-form-equals-sequence-form": 900,
    "mismatched-pair-rejected": 400,
    "malformed-data-rejected": 1000,
    "unfitted-model-reports-nothing": 1000,
    "holder-flattens-losslessly": 600,
}
