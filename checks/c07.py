"""C07: no hidden side effects - on the caller's data, on the model, globally."""

import copy
import os
import pickle
import shutil
import tempfile

import numpy as np

from pydmd import BOPDMD
from vmon.core import Skip, digest
from vmon.gen import as_layout, pick
from vmon.kits import NAMES, diff, make_kit

RULE = (
    "Random class (every public model) x random options x memory layouts: "
    "content digests of every caller-owned object before/after, write-protected "
    "inputs as injected fault, random sequences of observers (reads, predict, "
    "forecast, copies, pickles, plots) with model observations and global state "
    "compared before/after; distinct = distinct (class, monitored action) tuples."
)
ASSUMPTIONS = [
    "the attributes `snapshots`, `modes`, `eigs` may be views of internal or "
    "caller-owned memory; only values are monitored",
]
CASE_TIMEOUT = 120
LIGHT = [n for n in NAMES if n not in ("COSTS", "mrCOSTS")]
# models whose fit draws from NumPy's global generator (no seed argument)
USES_GLOBAL = {"CDMD", "BOPDMD", "LANDO", "COSTS", "mrCOSTS"}


def fit(kit, model, data, seed):
    np.random.seed(seed)
    try:
        return kit.fit(model, data)
    except np.linalg.LinAlgError:
        raise Skip()


def hostile(rng, data):
    """the same values with a hostile memory layout"""
    return tuple(
        as_layout(rng, a) if isinstance(a, np.ndarray) and a.ndim >= 2 else a
        for a in data
    )


def freeze(data):
    out = []
    for a in data:
        if isinstance(a, np.ndarray):
            a = a.view()
            a.setflags(write=False)
        out.append(a)
    return tuple(out)


def inputs(rng, mon, names=LIGHT):
    """fit and prediction leave everything the caller owns untouched"""
    name = pick(rng, names)
    kit = make_kit(rng, name, n=pick(rng, [None, 7]), raw=True, pairs=True)
    data = hostile(rng, kit.data(rng))
    k0, d0 = digest(kit.kw), digest(data)
    flags = lambda: [(a.flags.writeable, a.shape, a.dtype.str, a.strides) for a in data
                     if isinstance(a, np.ndarray)]
    f0 = flags()
    mon.describe(cls=name, kw=kit.kw)
    mon.sig(name, "inputs")
    mon.event("inputs:" + name)
    model = kit.build()
    fit(kit, model, data, 3)
    mon.unchanged("fit-leaves-data-untouched", d0, digest(data), name)
    mon.unchanged("fit-leaves-arguments-untouched", k0, digest(kit.kw), name)
    want = kit.obs(model)
    mon.unchanged("reads-leave-data-untouched", d0, digest(data), name)
    mon.unchanged("fit-leaves-array-flags-untouched", f0, flags(), name)
    # injected fault: every write to an input raises
    prot = freeze(data)
    m2 = kit.build()
    fit(kit, m2, prot, 3)
    d = diff(want, kit.obs(m2), kit.tol)
    mon.ok("write-protected-input-gives-same-fit", d is None, "%s: %s" % (name, d))
    # inputs of prediction
    if hasattr(model, "predict") and name in (
        "DMD", "FbDMD", "SpDMD", "SubspaceDMD", "OptDMD", "EDMD", "HankelDMD", "HODMD",
    ):
        q = np.array(data[0][..., :3])
        q0 = digest(q)
        try:
            model.predict(q)
        except (NotImplementedError, AttributeError):
            return
        except ValueError:
            if name not in ("HankelDMD", "HODMD"):
                raise
        mon.unchanged("predict-leaves-data-untouched", q0, digest(q), name)


def inputs_heavy(rng, mon):
    inputs(rng, mon, ["COSTS", "mrCOSTS"])


def global_state():
    import matplotlib

    return {
        "rng": digest(np.random.get_state()),
        "err": repr(np.geterr()),
        "print": repr(sorted(np.get_printoptions().items(), key=repr)),
        "env": digest(dict(os.environ)),
        "cwd": os.getcwd(),
        "rc": digest({k: repr(v) for k, v in matplotlib.rcParams.items()}),
    }


def observers(kit, model, scratch):
    """name -> function, every one documented as a pure read"""
    out = {}
    for p in kit.props:
        out["read:" + p] = lambda p=p: getattr(model, p)
    for k, f in (kit._extra or {}).items():
        out["call:" + k] = lambda f=f: f(model)
    out["repr"] = lambda: repr(model)
    out["copy"] = lambda: copy.copy(model)
    out["deepcopy"] = lambda: copy.deepcopy(model)
    if kit.pickles:
        out["pickle"] = lambda: pickle.loads(pickle.dumps(model))
        if hasattr(model, "save"):
            out["save"] = lambda: model.save(os.path.join(scratch, "m.dmd"))
    if kit.name not in ("OptDMD", "ParametricDMD", "HAVOK", "COSTS", "mrCOSTS"):
        out["fitted"] = lambda: model.fitted
    if hasattr(model, "operator"):
        out["operator"] = lambda: model.operator
    if kit.name == "HAVOK":
        out["threshold"] = lambda: model.compute_threshold(0, p=0.1)
        out["predict"] = lambda: model.predict(
            model.forcing, model.time[: len(model.forcing)])
    return out


def pure(rng, mon, names=LIGHT):
    keys = ("divide", "over", "under", "invalid")
    with np.errstate(**{k: pick(rng, ["ignore", "warn"]) for k in keys}):
        _pure(rng, mon, names)


def _pure(rng, mon, names):
    """observers change neither the model nor global state"""
    name = pick(rng, names)
    kit = make_kit(rng, name, raw=True, pairs=True)
    data = kit.data(rng)
    base = global_state()
    model = kit.build()
    if name not in USES_GLOBAL:
        np.random.seed(11)
        st = digest(np.random.get_state())
        try:
            kit.fit(model, data)
        except np.linalg.LinAlgError:
            raise Skip()
        mon.unchanged("fit-leaves-global-generator-untouched", st,
                      digest(np.random.get_state()), name)
    else:
        fit(kit, model, data, 11)
        if name not in ("COSTS", "mrCOSTS"):
            # drawing from the generator is documented, reseeding it is not
            st = digest(np.random.get_state())
            fit(kit, kit.build(), data, 12)
            mon.ok("fit-does-not-reseed-global-generator",
                   st != digest(np.random.get_state()), name)
            fit(kit, model, data, 11)
    want = kit.obs(model)
    scratch = tempfile.mkdtemp(prefix="vmon")
    try:
        obs = observers(kit, model, scratch)
        g0 = global_state()
        seq = [pick(rng, sorted(obs)) for _ in range(int(rng.integers(3, 10)))]
        mon.describe(cls=name, kw=kit.kw, seq=seq)
        for s in seq:
            try:
                obs[s]()
            except Exception as e:
                if name == "HAVOK" and s == "predict":
                    continue
                if s == "repr" or isinstance(e, (NotImplementedError,)):
                    continue
                raise
            mon.event("observer:" + s)
            mon.sig(name, s)
        g1 = global_state()
        bad = [k for k in g0 if g0[k] != g1[k]]
        mon.ok("observers-leave-global-state", not bad, "%s %s: %s" % (name, bad, seq))
        d = diff(want, kit.obs(model), 0.0)
        mon.ok("observers-leave-model", d is None, "%s after %s: %s" % (name, seq, d))
        bad = [k for k in g1 if g1[k] != base[k] and k != "rng"]
        mon.ok("fit-leaves-global-state", not bad, "%s %s" % (name, bad))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def pure_heavy(rng, mon):
    pure(rng, mon, ["COSTS", "mrCOSTS"])


DERIVED = ("dynamics", "reconstructed_data", "dmd_timesteps", "original_timesteps",
           "frequency", "growth_rate")


def mutate(rng, mon):
    """freshly computed results are the caller's own"""
    name = pick(rng, [n for n in LIGHT if n not in ("OptDMD", "PiDMD", "LANDO", "HAVOK")])
    kit = make_kit(rng, name)
    model = kit.build()
    fit(kit, model, kit.data(rng), 5)
    want = kit.obs(model)
    mon.describe(cls=name, kw=kit.kw)
    for p in DERIVED:
        if p not in kit.props or (name == "VarProDMD" and p in DERIVED[-2:]):
            continue  # (real and imaginary parts of the eigenvalues: views)
        v = getattr(model, p)
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 77 if v.dtype.kind in "iu" else 7.7e3
        mon.sig(name, "mutate", p)
        d = diff(want, kit.obs(model), 1e-12)
        mon.ok("derived-results-are-private", d is None,
               "%s: writing to %s changed %s" % (name, p, d))
        if d is not None:
            return


def alias(rng, mon):
    """the fitted model does not depend on the caller's snapshots afterwards"""
    name = pick(rng, LIGHT)
    kit = make_kit(rng, name, n=pick(rng, [None, 7]))
    model = kit.build()
    data = kit.data(rng)
    fit(kit, model, data, 5)
    # anything computed from `snapshots` by the probe itself is excluded
    skip = {"snapshots", "predict", "eigenfunctions", "f", "nonlinear", "ho_snapshots",
            "snapshots_y", "rec"}

    def obs():
        return {k: v for k, v in kit.obs(model).items() if k not in skip}

    want = obs()
    full = kit.obs(model)
    for b in data[1:]:
        # second snapshots, instants, parameters, control inputs
        if isinstance(b, np.ndarray):
            b[...] = 3
    if name in ("DMDc", "BOPDMD", "VarProDMD", "ParametricDMD", "HAVOK"):
        d = diff(full, kit.obs(model), 1e-12)
        mon.ok("results-independent-of-caller-axes", d is None, "%s: %s" % (name, d))
    a = data[0]
    a[...] = np.full(a.shape, 3).astype(a.dtype)
    mon.describe(cls=name, kw=kit.kw)
    mon.sig(name, "alias")
    d = diff(want, obs(), 1e-12)
    mon.ok("results-independent-of-caller-arrays", d is None, "%s: %s" % (name, d))


def alias_econ(rng, mon):
    """nor on the instants and coordinates given to fit_econ"""
    m = int(rng.integers(12, 30))
    t = np.arange(m) * 0.1
    lam = np.array([-0.1 + 1j, -0.1 - 1j]) * rng.uniform(0.5, 2)
    X = rng.standard_normal((6, 2)) @ np.exp(np.outer(lam, t)).view(float).reshape(2, m, 2)[0].T
    U, s, V = (np.array(a) for a in np.linalg.svd(X, full_matrices=False))
    s, V = s[:2].copy(), V[:2].copy()
    d = BOPDMD(svd_rank=2, use_proj=True, proj_basis=U[:, :2].copy())
    d.fit_econ(s, V, t)
    mon.sig("alias-econ", m)
    want = [np.array(x) for x in (d.time, d.dynamics, d.reconstructed_data, d.eigs)]
    t[...] = 3
    V[...] = 3
    got = [np.array(x) for x in (d.time, d.dynamics, d.reconstructed_data, d.eigs)]
    mon.ok("results-independent-of-caller-axes", all(map(np.array_equal, want, got)), "econ")


def plots(rng, mon):
    """plotting is a pure observation and leaves only the requested files"""
    import matplotlib.pyplot as plt
    from pydmd import plotter

    name = pick(rng, ["DMD", "FbDMD", "CDMD", "SpDMD", "HankelDMD", "HODMD", "BOPDMD",
                      "DMDc", "SubspaceDMD", "HAVOK", "MrDMD", "RDMD", "wrap-mean"])
    kit = make_kit(rng, name, n=8, raw=True)
    model = kit.build()
    data = kit.data(rng)
    fit(kit, model, data, 5)
    want = kit.obs(model)
    d0 = digest(data)
    scratch = tempfile.mkdtemp(prefix="vmon")
    acts = []
    try:
        g0 = global_state()
        f = os.path.join(scratch, "p.png")
        acts = ["summary", "eigs", "modes", "snaps"]
        if name == "MrDMD":
            acts = ["eigs_mr"]
        elif name == "HAVOK":
            acts = ["havok"]
        elif name == "BOPDMD":
            acts += ["mode_uq", "eig_uq"]
        a = pick(rng, acts)
        mon.sig(name, a)
        mon.describe(cls=name, kw=kit.kw, act=a)
        if a == "summary":
            d = kit.kw.get("d", 1) if name in ("HankelDMD", "HODMD") else 1
            plotter.plot_summary(model, d=d, filename=f, index_modes=(0,),
                                 max_sval_plot=60)
        elif a == "eigs":
            plotter.plot_eigs(model, filename=f, narrow_view=bool(rng.integers(2)))
        elif a == "modes":
            if model.modes.shape[0] != 8:
                raise Skip()
            plotter.plot_modes_2D(model, snapshots_shape=(2, 4), index_mode=0, filename=f)
        elif a == "snaps":
            if model.snapshots.shape[0] != 8:
                raise Skip()
            plotter.plot_snapshots_2D(model, snapshots_shape=(2, 4), index_snap=[0, 1],
                                      filename=f)
        elif a == "eigs_mr":
            if not len(model.eigs):
                raise Skip()
            plotter.plot_eigs_mrdmd(model, filename=f)
        elif a == "havok":
            if kit.kw["svd_rank"] < 4:
                raise Skip()
            model.plot_summary(filename=f, forcing_threshold=0.01)
        elif a == "mode_uq":
            if not kit.kw["num_trials"]:
                raise Skip()
            model.plot_mode_uq()
        elif a == "eig_uq":
            if not kit.kw["num_trials"]:
                raise Skip()
            model.plot_eig_uq()
        plt.close("all")
        mon.event("plot:" + a)
        g1 = global_state()
        bad = [k for k in g0 if g0[k] != g1[k]]
        mon.ok("plots-leave-global-state", not bad, "%s %s: %s" % (name, a, bad))
        mon.ok("plots-write-their-file", os.listdir(scratch) or a.endswith("_uq"),
               "%s %s" % (name, a))
        df = diff(want, kit.obs(model), 0.0)
        mon.ok("plots-leave-model", df is None, "%s %s: %s" % (name, a, df))
        mon.unchanged("plots-leave-data", d0, digest(data), name)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


WORKLOADS = {
    "inputs": {"fn": inputs, "quick": 1200, "thorough": 30000},
    "inputs_heavy": {"fn": inputs_heavy, "quick": 12, "thorough": 300},
    "pure": {"fn": pure, "quick": 1200, "thorough": 30000},
    "pure_heavy": {"fn": pure_heavy, "quick": 12, "thorough": 300},
    "mutate": {"fn": mutate, "quick": 500, "thorough": 12000},
    "alias": {"fn": alias, "quick": 700, "thorough": 16000},
    "alias_econ": {"fn": alias_econ, "quick": 30, "thorough": 300},
    "plots": {"fn": plots, "quick": 110, "thorough": 2500},
}
REQUIRED = {
    "fit-leaves-data-untouched": 900,
    "fit-leaves-arguments-untouched": 900,
    "write-protected-input-gives-same-fit": 900,
    "observers-leave-model": 900,
    "observers-leave-global-state": 900,
    "fit-leaves-global-state": 900,
    "fit-leaves-global-generator-untouched": 600,
    "derived-results-are-private": 900,
    "results-independent-of-caller-arrays": 500,
    "plots-leave-model": 50,
}
