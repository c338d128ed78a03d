"""C02: modes, eigenvalues, amplitudes, dynamics, time axes and the
reconstruction are mutually consistent on any time window."""

import warnings

import numpy as np

from pydmd import DMD, FbDMD, HankelDMD, RDMD, SpDMD
from vmon.core import Skip
from vmon.gen import as_layout, linear_system, pick, random_data
from vmon.models import BASE, base_spec

RULE = (
    "Random class x option set x generic (not exactly linear) data; the model "
    "is driven through a random history of time-axis changes (original_time "
    "and dmd_time rescaling, shifting, assignment, refit) and after each step "
    "every derived quantity is recomputed from the public modes, eigenvalues "
    "and amplitudes; distinct = distinct (class+option signature, "
    "real/complex, window kind) tuples."
)
ASSUMPTIONS = [
    "the last instant of a window may miss its end by 1e-4 steps of rounding",
    "delay-embedding classes: reconstruction is checked in C01/C11, here only "
    "shapes, time grid, dynamics and frequency",
]


def shift_of(kw, m):
    opt = kw.get("opt", False)
    if isinstance(opt, bool):
        return 0
    return opt if opt >= 0 else m + opt


def rel(mon, name, a, ref, tol, tag):
    """entrywise relative comparison, robust to huge dynamic range"""
    a, ref = np.asarray(a), np.asarray(ref)
    if a.shape != ref.shape:
        mon._hit(name)
        mon.fail(name, "%s: shape %s != %s" % (tag, a.shape, ref.shape))
        return
    good = np.isfinite(ref) & (np.abs(ref) > 1e-250) & (np.abs(ref) < 1e250)
    q = np.abs(a[good] - ref[good]) / np.abs(ref[good])
    mon.close(name, q.max() if q.size else 0.0, 0.0, tol, tag, scale=1.0)


def check_all(rng, mon, dmd, spec, m, n, window):
    tag = spec.name + " " + window
    modes, eigs, amps = map(np.asarray, (dmd.modes, dmd.eigs, dmd.amplitudes))
    r = eigs.shape[0]
    ot, dt = dict(dmd.original_time), dict(dmd.dmd_time)
    grid = lambda d: d["t0"] + d["dt"] * np.arange(
        int(np.ceil((d["tend"] - d["t0"]) / d["dt"] - 1e-4)) + 1
    )
    mon.eq("shapes", (eigs.ndim, modes.shape[1], amps.shape), (1, r, (r,)), tag)
    mon.close("original-timesteps", dmd.original_timesteps, grid(ot), 1e-9, tag)
    mon.close("dmd-timesteps", dmd.dmd_timesteps, grid(dt), 1e-9, tag)
    ts = grid(dt)
    expo = (ts - ot["t0"]) / ot["dt"] - shift_of(spec.kw, dmd_m(dmd, spec, m))
    if not np.all(np.abs(expo) < 6000):
        raise Skip()
    ref = np.power(eigs.astype(complex)[:, None], expo[None]) * amps[:, None]
    rel(mon, "dynamics", dmd.dynamics, ref, 1e-6, tag)
    if spec.name not in ("HankelDMD", "HODMD"):
        mon.eq("modes-shape", modes.shape, (n, r), tag)
        full = modes @ ref
        s = np.abs(modes) @ np.abs(ref)
        if np.all(np.isfinite(full)) and s.max() < 1e200:
            rec = np.asarray(dmd.reconstructed_data)
            if mon.eq("reconstruction-shape", rec.shape, full.shape, tag):
                q = np.abs(rec - full) / np.maximum(s, 1e-200)
                mon.close("reconstruction", q.max(), 0.0, 1e-6, tag, scale=1.0)
    else:
        mon.eq("reconstruction-shape", dmd.reconstructed_data.shape,
               (n, len(ts)), tag)
    nz = np.abs(eigs) > 1e-12
    fr = np.angle(eigs.astype(complex)) / (2 * np.pi * ot["dt"])
    got = np.asarray(dmd.frequency)
    if mon.eq("frequency-shape", got.shape, fr.shape, tag):
        # the branch at +-half the sampling frequency is a convention
        d = np.abs(got - fr)
        d = np.minimum(d, np.abs(d - 1.0 / ot["dt"]))
        mon.close("frequency", np.max(d[nz]) * ot["dt"] if nz.any() else 0.0,
                  0.0, 1e-9, tag, scale=1.0)
    mon.close("growth-rate", dmd.growth_rate, eigs.real / ot["dt"], 1e-9, tag)


def dmd_m(dmd, spec, m):
    return m - spec.kw.get("d", 1) + 1 if spec.name in ("HankelDMD", "HODMD") else m


def data(rng, name):
    cplx = False if name == "EDMD" else None
    n, m = int(rng.integers(2, 14)), int(rng.integers(7, 22))
    if rng.random() < 0.03:
        n, m = int(rng.integers(30, 80)), int(rng.integers(30, 80))
    if rng.random() < 0.3:
        s = linear_system(rng, real=True if name == "EDMD" else None)
        X = s.X + 0.02 * rng.standard_normal((s.n, s.m))
        if X.shape[1] < 7:
            raise Skip()
        return X
    return random_data(rng, n, m, cplx)


def history(rng, mon):
    name = pick(rng, BASE)
    X = data(rng, name)
    n, m = X.shape
    spec = base_spec(rng, name, n, m)
    dmd = spec.build()
    mon.describe(spec=spec.sig(), n=n, m=m, cplx=np.iscomplexobj(X))
    try:
        dmd.fit(as_layout(rng, X))
    except np.linalg.LinAlgError:
        raise Skip()  # singular normal equations / rank-deficient operator
    if not (np.all(np.isfinite(dmd.eigs)) and np.all(np.isfinite(dmd.modes))
            and np.all(np.isfinite(dmd.amplitudes))):
        raise Skip()
    mon.event("fit:" + name)
    for k, d in (("original", dmd.original_time), ("dmd", dmd.dmd_time)):
        mon.eq("default-time", (d["t0"], d["tend"], d["dt"]), (0, m - 1, 1), k)
    mon.sig(spec.sig(), np.iscomplexobj(X), "default")
    check_all(rng, mon, dmd, spec, m, n, "default")
    hank = name in ("HankelDMD", "HODMD")
    for _ in range(int(rng.integers(1, 4))):
        w = pick(rng, ["axis", "forecast", "hindcast", "fine", "assign", "coarse",
                       "refit", "single", "ragged", "far", "long", "shifted"])
        if hank and w in ("hindcast", "fine", "coarse", "ragged"):
            w = "forecast"
        ot = dict(dmd.original_time)
        if w == "axis":
            t0 = pick(rng, [0, 2, -3, 0.5, 7.25])
            d = pick(rng, [1, 0.1, 0.5, 2, 0.01])
            dmd.original_time["t0"] = t0
            dmd.original_time["dt"] = d
            dmd.original_time["tend"] = t0 + d * (m - 1)
            for k in ("t0", "dt", "tend"):
                dmd.dmd_time[k] = dmd.original_time[k]
        elif w == "refit":
            try:
                dmd.fit(X)
            except np.linalg.LinAlgError:
                raise Skip()  # borderline in another memory layout
            mon.eq("default-time", dict(dmd.dmd_time),
                   {"t0": 0, "tend": m - 1, "dt": 1}, "after refit")
        else:
            a, b, sub = 0, m - 1, 1.0
            if w == "forecast":
                a = int(rng.integers(0, m))
                b = m - 1 + int(rng.integers(0, 20))
            elif w == "hindcast":
                a = -int(rng.integers(1, 6))
                b = a + int(rng.integers(0, 10))
            elif w == "fine":
                sub = pick(rng, [2.0, 4.0, 10.0])
                b = int(rng.integers(1, m))
            elif w == "coarse":
                sub = 0.5
                b = 2 * int(rng.integers(1, m))
            elif w == "ragged":
                # the end of the window falls between two instants: the grid
                # runs up to the first instant that covers it
                a = int(rng.integers(0, 3))
                b = a + int(rng.integers(1, m)) + pick(rng, [0.3, 0.5, 0.7, 0.003, 0.02])
            elif w == "shifted":
                # whole steps, but all of them off the data's instants
                a = int(rng.integers(0, 3)) + pick(rng, [0.004, 0.02, 0.125, 0.5, 0.98])
                b = a + int(rng.integers(0, m))
            elif w == "far":
                # an excerpt far in the future
                a = int(rng.integers(50, 3000))
                b = a + int(rng.integers(0, 6))
            elif w == "long":
                b = int(rng.integers(200, 1500))
            elif w == "single":
                a = b = int(rng.integers(0, m))
            new = {"t0": ot["t0"] + a * ot["dt"], "tend": ot["t0"] + b * ot["dt"],
                   "dt": ot["dt"] / sub}
            if w == "assign":
                new = {"t0": ot["t0"], "tend": ot["t0"] + ot["dt"] * (m + 4),
                       "dt": ot["dt"]}
                if rng.integers(2):
                    dmd.dmd_time = new
                    want = dict(new)
                    new["tend"] = 1e9  # the caller's dict is not aliased
                else:
                    # take over the data's own axis, then edit the copy
                    dmd.dmd_time = dmd.original_time
                    for k, v in new.items():
                        dmd.dmd_time[k] = v
                    want = dict(new)
                if not mon.eq("assigned-window", dict(dmd.dmd_time), want, w):
                    return
            else:
                for k, v in new.items():
                    dmd.dmd_time[k] = v
            mon.eq("time-axes-independent", dict(dmd.original_time), ot, w)
        mon.event("window:" + w)
        mon.sig(spec.sig(), np.iscomplexobj(X), w)
        check_all(rng, mon, dmd, spec, m, n, w)


def keys(rng, mon):
    """time dictionaries accept only their three keys."""
    name = pick(rng, ["DMD", "CDMD", "SubspaceDMD", "HankelDMD", "SpDMD"])
    X = random_data(rng, int(rng.integers(3, 8)), int(rng.integers(8, 14)), False)
    spec = base_spec(rng, name, *X.shape, fixed_rank=2, fb=False)
    try:
        dmd = spec.build().fit(X)
    except np.linalg.LinAlgError:
        raise Skip()
    bad = pick(rng, ["foo", "t1", "T0", 3])
    def put(d):
        d[bad] = 1
    mon.raises("time-key-rejected", KeyError, lambda: put(dmd.dmd_time))
    mon.raises("time-key-rejected", KeyError, lambda: put(dmd.original_time))
    mon.sig(name, bad)
    # equality of time dictionaries is equality of the three values
    a = dmd.original_time
    mon.ok("time-equality", a == dmd.dmd_time and a == dict(dmd.dmd_time), "equal windows")
    k = pick(rng, ["t0", "tend", "dt"])
    dmd.dmd_time[k] = dmd.dmd_time[k] + pick(rng, [0.5, 1e-3, 1e-7])
    mon.ok("time-equality", not (a == dmd.dmd_time), "windows differing in " + k)


def alternating(rng, mon):
    """real negative eigenvalues between the instants of the data"""
    r, n, m = int(rng.integers(1, 4)), int(rng.integers(3, 8)), int(rng.integers(7, 14))
    lam = rng.permutation(np.array([-0.9, 0.8, -0.55])[:r] * rng.uniform(0.9, 1.1))
    P = np.linalg.qr(rng.standard_normal((n, r)))[0]
    X = (P * rng.uniform(1, 2, r)) @ np.power(lam[:, None], np.arange(m)[None])
    cls = pick(rng, [DMD, FbDMD, RDMD, SpDMD, HankelDMD])
    kw = {"gamma": 1e-9, "rho": 10.0, "verbose": False} if cls is SpDMD else {}
    if cls is RDMD:
        kw["seed"] = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = cls(svd_rank=r, **kw).fit(X)
    a = int(rng.integers(0, 3)) + pick(rng, [0.004, 0.02, 0.25, 0.5, 0.96])
    d.dmd_time["t0"], d.dmd_time["tend"] = a, a + int(rng.integers(1, 5))
    d.dmd_time["dt"] = pick(rng, [1, 1, 0.5])
    ts = d.dmd_timesteps
    mon.sig("alternating", cls.__name__, r)
    mon.describe(cls=cls.__name__, lam=lam, window=dict(d.dmd_time))
    want = np.asarray(d.amplitudes)[:, None] * np.power(
        np.asarray(d.eigs, dtype=complex)[:, None], ts[None])
    mon.close("alternating-dynamics", d.dynamics, want, 1e-7)
    phi = np.asarray(d.modes)
    if cls is not HankelDMD:
        mon.close("alternating-reconstruction", d.reconstructed_data, phi @ want, 1e-7)


WORKLOADS = {
    "history": {"fn": history, "quick": 5000, "thorough": 120000},
    "alternating": {"fn": alternating, "quick": 150, "thorough": 2000},
    "keys": {"fn": keys, "quick": 40, "thorough": 400},
}
REQUIRED = {
    "dynamics": 3000,
    "reconstruction": 2000,
    "dmd-timesteps": 3000,
    "frequency": 3000,
    "time-key-rejected": 20,
    "default-time": 2000,
    "assigned-window": 300,
}
