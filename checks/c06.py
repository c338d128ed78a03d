"""C06: a fit depends on configuration, data and seed only - never on history."""

import contextlib
import copy
import io

import numpy as np

from pydmd import BOPDMD, DMD, RDMD, LANDO
from pydmd.preprocessing import PrePostProcessingDMD
from vmon.core import Skip
from vmon.gen import pick, random_data
from vmon.kits import NAMES, diff, make_kit

RULE = (
    "Random class (every public model) x random options; histories of fits on "
    "data sets of different shape and dtype, interleaved with reads, masked "
    "modes, changed time windows and failing fits; the last fit is compared "
    "observation by observation with a fresh instance fitted on the last data "
    "only (same global seed); distinct = distinct (class, history) tuples."
)
ASSUMPTIONS = [
    "NumPy's legacy global generator is the documented source of randomness of "
    "models without a seed argument and is reseeded before the compared fits",
]
CASE_TIMEOUT = 120
LIGHT = [n for n in NAMES if n not in ("COSTS", "mrCOSTS")]


def seeded_fit(kit, model, data, seed):
    np.random.seed(seed)
    try:
        kit.fit(model, data)
    except np.linalg.LinAlgError:
        raise Skip()


def meddle(rng, mon, kit, model):
    """use the fitted model in ways that must not leak into the next fit"""
    done = []
    for _ in range(int(rng.integers(0, 4))):
        op = pick(rng, ["read", "mask", "time", "bad", "assign-time"])
        try:
            if op == "read":
                kit.obs(model)
            elif op == "mask":
                k = len(model.modes_activation_bitmask)
                b = rng.random(k) < 0.5
                model.modes_activation_bitmask = b
            elif op == "time":
                model.dmd_time["tend"] = model.dmd_time["tend"] + 3
                model.dmd_time["t0"] = 1
            elif op == "assign-time":
                model.dmd_time = {"t0": 2, "tend": 9, "dt": 1}
            else:
                model.fit(*[np.zeros(0)] * len(kit.data(rng)))
        except Exception:
            op += "!"
        done.append(op)
    return done


def history(rng, mon, names=LIGHT):
    name = pick(rng, names)
    n = pick(rng, [None, 8])
    kit = make_kit(rng, name, n=n, pairs=True)
    hist = []
    model = kit.build()
    for _ in range(int(rng.integers(1, 3))):
        d = kit.data(rng)
        seeded_fit(kit, model, d, int(rng.integers(1000)))
        hist += ["fit"] + meddle(rng, mon, kit, model)
    data = kit.data(rng)
    seed = int(rng.integers(10000))
    fresh = kit.build()
    seeded_fit(kit, fresh, copy.deepcopy(data), seed)
    want = kit.obs(fresh)
    seeded_fit(kit, model, copy.deepcopy(data), seed)
    got = kit.obs(model)
    mon.describe(cls=name, kw=kit.kw, hist=hist)
    mon.sig(name, ",".join(sorted(set(hist))), n)
    mon.event("refit:" + name)
    d = diff(want, got, kit.tol)
    mon.ok("refit-equals-fresh-fit", d is None, "%s after %s: %s" % (name, hist, d))
    # and the same object refitted on the same data does not drift
    seeded_fit(kit, model, copy.deepcopy(data), seed)
    d = diff(want, kit.obs(model), kit.tol)
    mon.ok("repeated-fit-is-stable", d is None, "%s: %s" % (name, d))
    # the caller reuses its buffers: same objects, new content
    buf = copy.deepcopy(data)
    seeded_fit(kit, model, buf, seed)
    kit.obs(model)
    snaps = [a for a in buf if isinstance(a, np.ndarray) and a.ndim > 1]
    if snaps:
        for a in snaps:
            a *= 3
        fresh = kit.build()
        seeded_fit(kit, fresh, copy.deepcopy(buf), seed)
        seeded_fit(kit, model, buf, seed)
        d = diff(kit.obs(fresh), kit.obs(model), kit.tol)
        mon.ok("reused-buffer-is-read-again", d is None, "%s: %s" % (name, d))
    try:
        mask = np.asarray(model.modes_activation_bitmask)
        mon.ok("refit-activates-all-modes", mask.all(), name)
    except (RuntimeError, AttributeError, TypeError):
        pass


def global_bands(rng, mon):
    """nor has a refitted mrCOSTS global ones"""
    kit = make_kit(rng, "mrCOSTS")
    model = kit.build()
    seeded_fit(kit, model, kit.data(rng), 3)
    kit.obs(model)
    model.multi_res_interp()
    model.global_cluster_omega(2)
    X, t = kit.data(rng)[:2]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            model.fit(np.array(X), t, verbose=False)
    except (np.linalg.LinAlgError, ValueError):
        raise Skip()
    mon.sig("global bands")
    for k in ("omega_classes_interpolated", "cluster_centroids", "ragged_omega_classes"):
        mon.raises("refit-forgets-global-bands", ValueError, lambda: getattr(model, k), k)


def bands(rng, mon):
    """a refitted COSTS has no bands of the previous data"""
    if rng.random() < 0.2:
        return global_bands(rng, mon)
    kit = make_kit(rng, "COSTS")
    model = kit.build()
    seeded_fit(kit, model, kit.data(rng), 3)
    kit.obs(model)
    X, t = kit.data(rng)
    fresh = kit.build()
    out = []
    for m in (fresh, model):
        try:
            m.fit(X.copy(), np.atleast_2d(t), 30, 7)
        except (np.linalg.LinAlgError, ValueError):
            raise Skip()
        o = {}
        for k, f in {
            "omega_classes": lambda: m.omega_classes,
            "scale": lambda: m.scale_reconstruction(),
            "separation": lambda: m.scale_separation(),
            "periods": lambda: m.periods(),
        }.items():
            try:
                o[k] = copy.deepcopy(f())
            except Exception as e:
                o[k] = type(e).__name__
        out.append(o)
    mon.describe(kw=kit.kw)
    mon.sig("bands", kit.kw["rank"], kit.kw["gs"])
    d = diff(out[0], out[1], kit.tol)
    mon.ok("refit-forgets-bands", d is None, d)


def history_heavy(rng, mon):
    history(rng, mon, ["COSTS", "COSTS", "mrCOSTS"])


def isolation(rng, mon):
    """two instances used alternately do not influence each other"""
    name = pick(rng, LIGHT)
    kit = make_kit(rng, name, pairs=True)
    a, b = kit.build(), kit.build()
    da, db = kit.data(rng), kit.data(rng)
    s = int(rng.integers(10000))
    alone = kit.build()
    seeded_fit(kit, alone, copy.deepcopy(da), s)
    want = kit.obs(alone)
    seeded_fit(kit, a, copy.deepcopy(da), s)
    seeded_fit(kit, b, copy.deepcopy(db), s + 1)
    kit.obs(b)
    meddle(rng, mon, kit, b)
    mon.describe(cls=name, kw=kit.kw)
    mon.sig(name)
    mon.event("isolation:" + name)
    d = diff(want, kit.obs(a), kit.tol)
    mon.ok("instances-are-independent", d is None, "%s: %s" % (name, d))


def seeds(rng, mon):
    """explicit seeds make randomized models independent of global state"""
    kind = pick(rng, ["rdmd", "rand-wrapper", "defaults", "global-rng"])
    mon.sig(kind)
    mon.describe(kind=kind)
    X = random_data(rng, int(rng.integers(6, 14)), int(rng.integers(10, 20)), decay=0.7)
    if kind == "rdmd":
        kw = dict(svd_rank=int(rng.integers(1, 5)), seed=pick(rng, [0, int(rng.integers(1000))]),
                  oversampling=int(rng.integers(1, 6)), power_iters=int(rng.integers(0, 3)))
        out = []
        for _ in range(2):
            np.random.seed(int(rng.integers(10**6)))
            np.random.rand(int(rng.integers(5)))
            m = RDMD(**kw).fit(X)
            out.append((m.eigs, m.modes, m.amplitudes))
        mon.ok("seeded-model-ignores-global-rng",
               all(np.allclose(p, q, rtol=1e-9, atol=1e-12) for p, q in zip(*out)), kw)
    elif kind == "rand-wrapper":
        from pydmd.preprocessing import randomized_preprocessing

        out = []
        sd = pick(rng, [0, 5])
        for _ in range(2):
            np.random.seed(int(rng.integers(10**6)))
            m = randomized_preprocessing(DMD(svd_rank=2), svd_rank=3, seed=sd)
            m.fit(X)
            out.append(m.reconstructed_data)
        mon.ok("seeded-model-ignores-global-rng",
               np.allclose(*out, rtol=1e-9, atol=1e-12), kind)
    elif kind == "defaults":
        # default arguments are not shared state
        kit = make_kit(rng, "LANDO")
        d1, d2 = kit.data(rng), kit.data(rng)
        m0 = LANDO(permute=False).fit(*d2)
        ref = m0.f(d2[0])
        LANDO(permute=False).fit(*d1)
        m1 = LANDO(permute=False).fit(*d2)
        mon.ok("default-arguments-not-shared", np.allclose(ref, m1.f(d2[0])), "LANDO")
        a, b = PrePostProcessingDMD(DMD(svd_rank=2)), PrePostProcessingDMD(DMD(svd_rank=2))
        a.fit(X)
        ra = np.array(a.reconstructed_data)
        b.fit(X[:, ::-1] * 2 + 1)
        mon.ok("default-arguments-not-shared", np.allclose(ra, a.reconstructed_data), "wrapper")
    else:
        # models that are documented as deterministic ignore the global generator
        name = pick(rng, ["DMD", "FbDMD", "SubspaceDMD", "EDMD", "SpDMD", "HankelDMD", "HODMD",
                          "OptDMD", "DMDc", "PiDMD", "VarProDMD", "MrDMD", "HAVOK",
                          "ParametricDMD", "wrap-hankel", "wrap-svd", "wrap-mean"])
        kit = make_kit(rng, name)
        data = kit.data(rng)
        mon.sig(name)
        o = []
        for _ in range(2):
            m = kit.build()
            seeded_fit(kit, m, copy.deepcopy(data), int(rng.integers(10**6)))
            o.append(kit.obs(m))
        d = diff(o[0], o[1], kit.tol)
        mon.ok("deterministic-model-ignores-global-rng", d is None, "%s: %s" % (name, d))


WORKLOADS = {
    "history": {"fn": history, "quick": 2600, "thorough": 60000},
    "history_heavy": {"fn": history_heavy, "quick": 24, "thorough": 500},
    "bands": {"fn": bands, "quick": 12, "thorough": 200},
    "isolation": {"fn": isolation, "quick": 1000, "thorough": 20000},
    "seeds": {"fn": seeds, "quick": 600, "thorough": 12000},
}
REQUIRED = {
    "refit-equals-fresh-fit": 1800,
    "repeated-fit-is-stable": 1800,
    "reused-buffer-is-read-again": 1500,
    "instances-are-independent": 700,
    "refit-forgets-bands": 6,
    "seeded-model-ignores-global-rng": 150,
    "deterministic-model-ignores-global-rng": 80,
    "default-arguments-not-shared": 150,
}
