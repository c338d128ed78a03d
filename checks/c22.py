"""C22: selecting and stabilizing modes."""

import copy

import numpy as np

from pydmd.dmd_modes_tuner import ModesSelectors, ModesTuner, select_modes, stabilize_modes
from vmon.core import Skip
from vmon.gen import pick
from vmon.kits import make_kit

RULE = (
    "Random histories (up to 12 steps) of selections by every criterion, with and "
    "without nullified amplitudes, in place and on copies, stabilizations, mask and "
    "window changes, through the functions and through ModesTuner (single, lists, "
    "subsets), on every discrete-time class; after each step every instance is "
    "compared with a reference model of (mode, eigenvalue, amplitude, active) "
    "tuples; distinct = distinct (class, operation, criterion, history tail) tuples."
)
ASSUMPTIONS = [
    "eigenvalues within 1e-9 of a threshold and contributions within 1e-9 of each "
    "other are not judged unless the threshold is exactly the modulus (inclusive)",
]
CASE_TIMEOUT = 60
NAMES = ["DMD", "DMD", "FbDMD", "SubspaceDMD", "EDMD", "SpDMD", "RDMD", "CDMD", "HankelDMD", "HODMD",
         "wrap-hankel", "wrap-svd", "wrap-mean", "wrap-rand"]


class Ref:
    def __init__(self, d):
        self.eigs = np.array(d.eigs, dtype=complex)
        self.modes = np.array(d.modes)
        self.amps = np.array(d.amplitudes, dtype=complex)
        self.on = np.ones(len(self.eigs), bool)

    def clone(self):
        return copy.deepcopy(self)

    def steps(self, d):
        t = d.original_time
        n = int(round((t["tend"] - t["t0"]) / t["dt"])) + 1
        return np.arange(n)


def compare(mon, d, f, where):
    k = f.on
    good = mon.ok("mask", np.array_equal(np.asarray(d.modes_activation_bitmask), k), where)
    if not good or not mon.eq("count", len(d.eigs), int(k.sum()), where):
        return False
    mon.close("eigs", d.eigs, f.eigs[k], 1e-12, where, scale=max(1.0, np.abs(f.eigs).max()))
    mon.close("amplitudes", d.amplitudes, f.amps[k], 1e-12, where, scale=np.abs(f.amps).max() + 1e-300)
    mon.close("modes", d.modes, f.modes[:, k], 1e-12, where, scale=np.abs(f.modes).max() + 1e-300)
    return True


def criterion(rng, d, f):
    """(name, keyword arguments, callable, expected boolean over active modes)"""
    ev = f.eigs[f.on]
    mod = np.abs(np.asarray(d.eigs))
    r = len(mod)
    kind = pick(rng, ["module_threshold", "stable_modes", "integral_contribution", "own"])
    edge = lambda v: np.any(np.abs(mod - v) < 1e-9)
    if kind == "module_threshold":
        lo, hi = sorted(rng.uniform(0, 1.4, 2))
        if rng.random() < 0.3 and r:  # inclusive bounds
            lo = hi = float(mod[int(rng.integers(r))])
            if np.sum(np.abs(mod - lo) < 1e-9) > np.sum(mod == lo):
                raise Skip()
        elif edge(lo) or edge(hi):
            raise Skip()
        kw = dict(low_threshold=lo, up_threshold=hi)
        return kind, kw, ModesSelectors.threshold(**kw), (mod >= lo) & (mod <= hi)
    if kind == "stable_modes":
        a, b = rng.uniform(0, 0.6, 2)
        which = pick(rng, ["both", "in-out", "in", "out", "zero"])
        if which == "both":
            kw, b = dict(max_distance_from_unity=a), a
        elif which == "in-out":
            kw = dict(max_distance_from_unity_inside=a, max_distance_from_unity_outside=b)
        elif which == "in":
            kw, b = dict(max_distance_from_unity_inside=a), np.inf
        elif which == "zero":
            a = 0.0
            kw = dict(max_distance_from_unity_inside=a, max_distance_from_unity_outside=b)
        else:
            kw, a = dict(max_distance_from_unity_outside=b), np.inf
        if edge(1 - a) or edge(1 + b):
            raise Skip()
        return f"{kind}-{which}", kw, ModesSelectors.stable_modes(**kw), (mod >= 1 - a) & (mod <= 1 + b)
    if kind == "integral_contribution":
        n = int(rng.integers(0, r + 2))
        with np.errstate(all="ignore"):
            c = (np.abs(f.modes[:, f.on]) ** 2).sum(0) * np.abs(
                f.amps[f.on][:, None] * ev[:, None] ** f.contrib_steps).sum(1)
        s = np.sort(c)[::-1]
        if not np.all(np.isfinite(c)) or (0 < n < r and s[n - 1] - s[n] <= 1e-9 * s[0]):
            raise Skip()
        want = np.zeros(r, bool)
        want[np.argsort(-c)[:n]] = True
        return kind, dict(n=n), ModesSelectors.integral_contribution(n), want
    want = rng.random(r) < 0.6
    return kind, {}, (lambda _: want.copy()), want


def fitted(rng):
    name = pick(rng, NAMES)
    kit = make_kit(rng, name)
    d = kit.build()
    np.random.seed(3)
    try:
        kit.fit(d, kit.data(rng))
    except (np.linalg.LinAlgError, ValueError) as e:
        raise Skip() from e
    if not len(d.eigs) or not np.all(np.isfinite(d.amplitudes)):
        raise Skip()
    f = Ref(d)
    # dynamics over the original time window, as reported by the model itself
    f.contrib_steps = np.arange(np.asarray(d.dynamics).shape[1])
    ref_dyn = f.amps[:, None] * f.eigs[:, None] ** f.contrib_steps
    if not np.all(np.isfinite(ref_dyn)):
        raise Skip()
    mon_scale = np.abs(ref_dyn).max()
    f.plain = np.abs(np.asarray(d.dynamics) - ref_dyn).max() <= 1e-6 * (mon_scale + 1e-300)
    return name, d, f


def apply_select(f, want, nullify):
    idx = np.where(f.on)[0]
    cut = np.where(~want)[0]
    if nullify:
        f.amps[idx[cut]] = 0
    else:
        f.on[idx[cut]] = False
    return cut


def apply_stab(f, lo, hi):
    k = f.on & (np.abs(f.eigs) > lo) & (np.abs(f.eigs) < hi)
    f.amps[k] *= np.abs(f.eigs[k])
    f.eigs[k] /= np.abs(f.eigs[k])
    return np.where(k[f.on])[0]


def ring(rng, f):
    lo = float(pick(rng, [0.0, 1.0, rng.uniform(0.1, 1.2)]))
    hi = float(pick(rng, [np.inf, lo + rng.uniform(0.05, 0.8)]))
    mod = np.abs(f.eigs)
    if np.any(np.abs(mod - lo) < 1e-9) or np.any(np.abs(mod - hi) < 1e-9) or np.any(mod < 1e-12):
        raise Skip()
    return lo, hi


def fingerprint(d):
    return (np.array(d.modes_activation_bitmask), np.array(d.eigs), np.array(d.amplitudes), np.array(d.modes),
            dict(d.dmd_time))


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a[:4], b[:4])) and a[4] == b[4]


def functions(rng, mon):
    name, d, f = fitted(rng)
    mon.describe(cls=name)
    hist = []
    for _ in range(int(rng.integers(2, 12))):
        op = pick(rng, ["select", "select", "select-null", "stabilize", "mask", "window", "restore"])
        hist.append(op)
        where = f"{name} after {hist}"
        if op == "mask":
            m = rng.random(len(f.on)) < 0.7
            d.modes_activation_bitmask = m
            f.on = m.copy()
        elif op == "restore":
            d.modes_activation_bitmask = np.ones(len(f.on), bool)
            f.on[:] = True
        elif op == "window":
            dt = d.dmd_time["dt"]
            d.dmd_time["tend"] = d.dmd_time["tend"] + dt * int(rng.integers(0, 4))
        elif op == "stabilize":
            try:
                lo, hi = ring(rng, f)
            except Skip:
                continue
            inp, ri = bool(rng.integers(2)), bool(rng.integers(2))
            before = fingerprint(d)
            out = (stabilize_modes(d, lo, hi, in_place=inp, return_indexes=ri) if np.isfinite(hi)
                   else stabilize_modes(d, lo, in_place=inp, return_indexes=ri))
            new = out[0] if ri else out
            g = f if inp else f.clone()
            idx = apply_stab(g, lo, hi)
            mon.ok("in-place", (new is d) == inp, where)
            if ri:
                mon.ok("stabilized-indexes", np.array_equal(np.asarray(out[1]), idx), f"{where} {out[1]} {idx}")
            if not inp:
                mon.ok("original-untouched", same(before, fingerprint(d)), where)
                compare(mon, new, g, where + " copy")
            mon.event("stabilized" if len(idx) else "nothing-to-stabilize")
            mon.sig(name, op, inp, ri, len(idx) > 0)
        else:
            nul = op == "select-null"
            try:
                cn, kw, crit, want = criterion(rng, d, f)
            except Skip:
                continue
            if cn == "integral_contribution" and not f.plain:
                continue
            inp, ri = bool(rng.random() < 0.6), bool(rng.integers(2))
            before = fingerprint(d)
            asked = []
            def spy(q):
                asked.append(q)
                return crit(q)
            out = select_modes(d, spy, in_place=inp, return_indexes=ri, nullify_amplitudes=nul)
            new = out[0] if ri else out
            where += f" {cn} {kw}"
            g = f if inp else f.clone()
            cut = apply_select(g, want, nul)
            mon.ok("in-place", (new is d) == inp, where)
            mon.eq("criterion-asked-once", len(asked), 1, where)
            if ri:
                mon.ok("cut-indexes", np.array_equal(np.sort(np.asarray(out[1]).astype(int).ravel()), cut),
                       f"{where} {out[1]} {cut}")
            mon.ok("window-untouched", dict(new.dmd_time) == before[4], where)
            if not inp:
                mon.ok("original-untouched", same(before, fingerprint(d)), where)
                compare(mon, new, g, where + " copy")
            mon.sig(name, op, cn, inp, ri)
        if not compare(mon, d, f, where):
            return
    # the dynamics are those of the retained, stabilized modes
    if f.plain and f.on.any() and name not in ("HankelDMD", "HODMD"):
        d.dmd_time = copy.deepcopy(d.original_time)
        want = f.amps[f.on][:, None] * f.eigs[f.on][:, None] ** f.contrib_steps
        mon.close("dynamics", d.dynamics, want, 1e-6, f"{name} after {hist}", scale=np.abs(want).max() + 1e-300)


def tuner(rng, mon):
    single = bool(rng.random() < 0.4)
    items = [fitted(rng) for _ in range(1 if single else int(rng.integers(1, 4)))]
    ds = [i[1] for i in items]
    inp = bool(rng.random() < 0.4)
    t = ModesTuner(ds[0] if single else ds, in_place=inp)
    before = [fingerprint(d) for d in ds]
    fs = [i[2] for i in items]
    names = [i[0] for i in items]
    hist = []
    snaps = []
    for _ in range(int(rng.integers(1, 7))):
        op = pick(rng, ["select", "select-str", "stabilize", "subset", "copy", "null"])
        hist.append(op)
        where = f"tuner {names} in_place={inp} after {hist}"
        inner = t.get()
        mon.ok("get-kind", isinstance(inner, list) != single, where)
        live = [inner] if single else inner
        for a, b in zip(live, ds):
            mon.ok("works-on", (a is b) == inp, where)
        who = list(range(len(ds)))
        tt = t
        if op == "subset":
            if single:
                mon.raises("subset-rejected", ValueError, lambda: t.subset([0]), where)
                continue
            who = rng.permutation(len(ds))[: int(rng.integers(1, len(ds) + 1))].tolist()
            tt = t.subset(who)
            mon.ok("subset-in-order", [id(x) for x in tt.get()] == [id(live[i]) for i in who],
                   f"{where} {who}")
            op = "stabilize"
        if op == "copy":
            c = t.copy()
            c = [c] if single else c
            mon.ok("copy-is-new", all(a is not b for a, b in zip(c, live)), where)
            snaps.append((c, [f.clone() for f in fs]))
            continue
        if op == "stabilize":
            try:
                lo, hi = ring(rng, fs[who[0]])
                for i in who:
                    if np.any(np.abs(np.abs(fs[i].eigs) - lo) < 1e-9) or np.any(np.abs(fs[i].eigs) < 1e-12):
                        raise Skip()
            except Skip:
                continue
            r = tt.stabilize(lo, hi)
            for i in who:
                apply_stab(fs[i], lo, hi)
        else:
            try:
                cn, kw, crit, want = criterion(rng, live[who[0]], fs[who[0]])
            except Skip:
                continue
            if len(who) > 1 or cn == "integral_contribution":
                # one criterion for all: thresholds on the modulus only
                lo, hi = sorted(rng.uniform(0, 1.3, 2))
                cn, kw, crit = "module_threshold", dict(low_threshold=lo, up_threshold=hi), ModesSelectors.threshold(lo, hi)
                wants = [(np.abs(fs[i].eigs[fs[i].on]) >= lo) & (np.abs(fs[i].eigs[fs[i].on]) <= hi) for i in who]
            else:
                wants = [want]
            nul = op == "null"
            key = cn.split("-")[0]
            if key == "own" or op == "select":
                r = tt.select(crit, nullify_amplitudes=nul)
            else:
                r = tt.select(key, nullify_amplitudes=nul, **kw)
            for i, w in zip(who, wants):
                apply_select(fs[i], w, nul)
        mon.ok("chains", r is tt, where)
        mon.sig("tuner", single, inp, op, len(ds))
        got = t.get()
        got = [got] if single else got
        for i, (a, f) in enumerate(zip(got, fs)):
            if not compare(mon, a, f, f"{where} #{i}"):
                return
    for c, rf in snaps:
        for a, f in zip(c, rf):
            compare(mon, a, f, f"tuner snapshot {names}")
    if not inp:
        for d, b in zip(ds, before):
            mon.ok("given-untouched", same(b, fingerprint(d)), f"tuner {names} after {hist}")


def mixed(rng):
    """Strongly decaying and growing modes: the ranking depends on the window."""
    from pydmd import DMD, HankelDMD, HODMD
    from pydmd.preprocessing import hankel_preprocessing, svd_projection_preprocessing, zero_mean_preprocessing

    m, n = int(rng.integers(12, 25)), 6
    lam = np.array([rng.uniform(0.3, 0.6), rng.uniform(0.8, 0.95), rng.uniform(1.0, 1.1)])
    amp = np.array([1.0, 0.4, 0.05]) * rng.uniform(0.5, 2, 3)
    X = rng.standard_normal((n, 3)) @ (amp[:, None] * lam[:, None] ** np.arange(m))
    name = pick(rng, ["DMD", "HankelDMD", "HODMD", "wrap-svd", "wrap-mean", "wrap-hankel", "wrap-2"])
    d = {"DMD": lambda: DMD(svd_rank=3), "HankelDMD": lambda: HankelDMD(svd_rank=3, d=2),
         "HODMD": lambda: HODMD(svd_rank=3, d=2, svd_rank_extra=3),
         "wrap-svd": lambda: svd_projection_preprocessing(DMD(svd_rank=3), svd_rank=-1),
         "wrap-mean": lambda: zero_mean_preprocessing(DMD(svd_rank=3)),
         "wrap-hankel": lambda: hankel_preprocessing(DMD(svd_rank=3), d=2),
         "wrap-2": lambda: zero_mean_preprocessing(hankel_preprocessing(DMD(svd_rank=3), d=2))}[name]()
    d.fit(X)
    return name, d, Ref(d)


def window(rng, mon):
    """integral_contribution depends on the original window only."""
    name, d, f = mixed(rng) if rng.random() < 0.6 else fitted(rng)
    n = int(rng.integers(0, len(f.eigs) + 1))
    where = f"{name} n={n}"
    mon.sig("window", name)
    c = (np.abs(f.modes) ** 2).sum(0) * np.abs(np.asarray(d.dynamics)).sum(1)
    s = np.sort(c)[::-1]
    if not np.all(np.isfinite(c)) or (0 < n < len(s) and s[n - 1] - s[n] < 1e-6 * s[0]):
        raise Skip()
    want = np.zeros(len(c), bool)
    want[np.argsort(-c)[:n]] = True
    crit = ModesSelectors.integral_contribution(n)
    mon.ok("contribution", np.array_equal(np.asarray(crit(d), bool), want), where)
    t0 = dict(d.dmd_time)
    d.dmd_time["tend"] = d.dmd_time["tend"] + d.dmd_time["dt"] * int(rng.integers(1, 120))
    if rng.random() < 0.5:
        d.dmd_time["t0"] = d.dmd_time["t0"] + d.dmd_time["dt"] * int(rng.integers(1, 4))
    t1 = dict(d.dmd_time)
    with np.errstate(all="ignore"):
        got = np.asarray(crit(d), bool)
    mon.ok("contribution-original-window", np.array_equal(got, want), f"{where} {t0} {t1}")
    mon.ok("window-untouched", dict(d.dmd_time) == t1, where)
    now = (np.abs(f.modes) ** 2).sum(0) * np.abs(np.asarray(d.dynamics)).sum(1)
    now_sel = np.zeros(len(c), bool)
    now_sel[np.argsort(-now)[:n]] = True
    mon.event("ranking-depends-on-window" if not np.array_equal(now_sel, want) else "ranking-same")


def rejects(rng, mon):
    k = pick(rng, ["clash-in", "clash-out", "nothing", "inf", "criteria", "type", "subset", "args"])
    mon.sig("rejects", k)
    name, d, f = fitted(rng)
    t = ModesTuner(d)
    g = {
        "clash-in": lambda: ModesSelectors.stable_modes(max_distance_from_unity=0.0, max_distance_from_unity_inside=0.1),
        "clash-out": lambda: ModesSelectors.stable_modes(max_distance_from_unity=0.1, max_distance_from_unity_outside=0.0),
        "nothing": lambda: ModesSelectors.stable_modes(),
        "inf": lambda: ModesSelectors.stable_modes(max_distance_from_unity=np.inf),
        "criteria": lambda: t.select("no-such-criterion"),
        "type": lambda: t.select(pick(rng, [3, None, np.array([True])])),
        "subset": lambda: t.subset([0]),
        "args": lambda: t.select("module_threshold", low=1),
    }[k]
    before = fingerprint(t.get())
    mon.raises("rejected", (ValueError, TypeError), g, k)
    mon.ok("rejected-no-effect", same(before, fingerprint(t.get())), k)


WORKLOADS = {
    "functions": {"fn": functions, "quick": 900, "thorough": 10000},
    "tuner": {"fn": tuner, "quick": 600, "thorough": 6000},
    "window": {"fn": window, "quick": 300, "thorough": 3000},
    "rejects": {"fn": rejects, "quick": 80, "thorough": 400},
}
REQUIRED = {"eigs": 2000, "cut-indexes": 300, "stabilized-indexes": 100, "original-untouched": 300,
            "contribution-original-window": 150, "given-untouched": 100, "rejected": 60}
