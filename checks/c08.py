"""C08: mode selection is a pure restriction; a reference model follows every
history of masking, indexing and in-place edits."""

import copy

import numpy as np

from vmon.core import Skip
from vmon.gen import pick
from vmon.kits import make_kit

RULE = (
    "Random histories (up to 14 steps) of bitmask assignments, indexing with "
    "ints, slices, lists and arrays, nested indexing, invalid requests, in-place "
    "edits and time-window changes on every class that supports mode selection; "
    "after each step all instances alive are compared with a reference model; "
    "distinct = distinct (class, operation) tuples."
)
ASSUMPTIONS = [
    "in-place edits are only combined with one instance (sharing between a "
    "selection and its origin is documented as unspecified)",
]
CASE_TIMEOUT = 60
NAMES = ["DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "EDMD", "SpDMD", "HankelDMD",
         "HODMD", "DMDc", "PiDMD", "BOPDMD", "VarProDMD", "LANDO", "wrap-hankel",
         "wrap-svd", "wrap-mean", "wrap-rand"]
NOINDEX = {"HankelDMD", "HODMD"}  # documented: raise ValueError
CONT = {"BOPDMD", "VarProDMD"}


class Ref:
    """what a user should see: full spectrum + mask"""

    def __init__(self, model):
        self.eigs = np.array(model.eigs)
        self.modes = np.array(model.modes)
        self.amps = np.array(model.amplitudes)
        self.mask = np.ones(len(self.eigs), bool)
        self.win = None

    def child(self, mask):
        r = copy.copy(self)
        r.mask = mask
        r.win = dict(self.win)
        return r


def fitted(rng, name):
    kit = make_kit(rng, name)
    model = kit.build()
    np.random.seed(3)
    try:
        kit.fit(model, kit.data(rng))
    except np.linalg.LinAlgError:
        raise Skip()
    return kit, model


def compare(mon, name, model, ref, where):
    k = ref.mask
    if ref.win:
        mon.eq("window-is-its-own", dict(model.dmd_time), ref.win, where)
    mon.ok("mask-as-set", np.array_equal(np.asarray(model.modes_activation_bitmask), k), where)
    ok = (np.array_equal(model.eigs, ref.eigs[k]) and np.array_equal(model.modes, ref.modes[:, k])
          and np.array_equal(model.amplitudes, ref.amps[k]))
    if not mon.ok("selection-is-exact-restriction", ok, where):
        return False
    if name in ("LANDO", "PiDMD"):
        return True
    dyn = np.asarray(model.dynamics)
    mon.eq("dynamics-restricted", dyn.shape[0], int(k.sum()), where)
    want = ref.modes[:, k] @ dyn
    if name in CONT or name in ("DMD", "FbDMD", "SpDMD", "CDMD", "RDMD", "SubspaceDMD", "EDMD"):
        rec = np.asarray(model.reconstructed_data)
        if np.isfinite(want).all():
            mon.close("reconstruction-uses-active-modes-only", rec, want, 1e-9, where,
                      scale=max(np.abs(want).max() if want.size else 0, 1e-9))
    if name not in CONT:
        with np.errstate(all="ignore"):
            f = np.log(ref.eigs[k].astype(complex)).imag / (2 * np.pi * model.original_time["dt"])
        got = np.asarray(model.frequency)
        mon.close("frequency-restricted", got, f, 1e-9, where, scale=max(1e-9, np.abs(f).max(initial=0)))
    return True


def random_key(rng, r):
    """(key, mask) or None if the key selects nothing valid"""
    kind = pick(rng, ["int", "neg", "slice", "list", "arr", "perm"])
    if kind in ("int", "neg"):
        i = int(rng.integers(r))
        key = i - r if kind == "neg" else i
    elif kind == "slice":
        a, b = rng.integers(-r - 1, r + 2, 2)
        st = pick(rng, [None, 1, 2, -1])
        key = slice(pick(rng, [None, int(a)]), pick(rng, [None, int(b)]), st)
    else:
        p = rng.permutation(r)[: int(rng.integers(1, r + 1))]
        key = [int(x) for x in p]
        if kind == "arr":
            key = np.array(key)
    mask = np.zeros(r, bool)
    mask[key] = True
    return kind, key, mask


def history(rng, mon):
    name = pick(rng, NAMES)
    kit, model = fitted(rng, name)
    if not len(model.eigs):
        raise Skip()
    ref = Ref(model)
    r = len(ref.eigs)
    ref.win = dict(model.dmd_time) if name not in CONT else {}
    alive = [(model, ref)]
    edits = rng.random() < 0.25
    hist = []
    mon.describe(cls=name, kw=kit.kw)
    for step in range(int(rng.integers(3, 14))):
        d, f = alive[int(rng.integers(len(alive)))]
        op = pick(rng, ["mask", "mask", "index", "index", "bad-mask", "bad-key", "write-mask",
                        "edit", "read", "child-mask", "caller-mask", "restore", "window", "window"])
        hist.append(op)
        mon.event("op:" + op)
        mon.sig(name, op)
        where = "%s after %s" % (name, hist)
        if op == "mask":
            m = rng.random(r) < rng.uniform(0.1, 0.95)
            d.modes_activation_bitmask = pick(rng, [m, list(map(bool, m))])
            f.mask = m.copy()
        elif op == "window":
            if name in CONT:
                continue
            k = pick(rng, ["t0", "tend", "tend", "dt"])
            v = {"t0": int(rng.integers(0, 3)), "tend": int(rng.integers(4, 20)),
                 "dt": float(pick(rng, [0.5, 1, 2]))}[k]
            if rng.random() < 0.7:
                d.dmd_time[k] = v
            else:
                tm = copy.deepcopy(d.dmd_time)
                tm[k] = v
                d.dmd_time = tm
                tm["tend"] = -99  # the caller's own dictionary
            f.win[k] = v
        elif op == "restore":
            d.modes_activation_bitmask = np.ones(r, bool)
            f.mask = np.ones(r, bool)
        elif op == "caller-mask":
            # the caller keeps using (and modifying) its own mask array
            m = rng.random(r) < 0.5
            d.modes_activation_bitmask = m
            f.mask = m.copy()
            m[:] = ~m
            mon.ok("callers-mask-stays-writable", m.flags.writeable, where)
        elif op in ("index", "child-mask"):
            if edits:
                continue
            kind, key, mask = random_key(rng, r)
            if name in NOINDEX:
                mon.raises("indexing-rejected", ValueError, lambda: d[key], where)
                continue
            if name.startswith("wrap-"):
                try:
                    c = d[key]
                except TypeError:
                    mon.event("wrapper-not-subscriptable")
                    continue
            else:
                c = d[key]
            mon.sig(name, "key", kind)
            mon.ok("selection-is-a-new-instance", c is not d, where)
            cf = f.child(mask)
            alive.append((c, cf))
            if op == "child-mask":
                m = rng.random(r) < 0.5
                c.modes_activation_bitmask = m
                cf.mask = m
        elif op == "bad-mask":
            cur = np.array(d.modes_activation_bitmask)
            bad = pick(rng, [np.ones(r + 1, bool), np.ones((r, 1), bool), np.ones(r),
                             np.ones(r, int), [True] * (r + 2)])
            mon.raises("invalid-mask-rejected", (ValueError, RuntimeError),
                       lambda: setattr(d, "modes_activation_bitmask", bad), where)
            f.mask = cur
        elif op == "bad-key":
            if name in NOINDEX or name.startswith("wrap-"):
                continue
            bad = pick(rng, ["a", None, 1.0, (0, 1), [0, 0], [0.0], [0, "x"],
                             np.array([0.5]), {0}])
            mon.raises("invalid-key-rejected", ValueError, lambda: d[bad], where)
            mon.raises("out-of-range-rejected", IndexError, lambda: d[r + 3], where)
        elif op == "write-mask":
            b = d.modes_activation_bitmask

            def w():
                b[0] = not b[0]

            mon.raises("mask-is-read-only", ValueError, w, where)
        elif op == "edit":
            # documented: edits of the selected quantities survive mask changes
            if not edits or len(alive) > 1 or not f.mask.any() or name in ("EDMD",):
                continue
            i = int(rng.integers(int(f.mask.sum())))
            j = np.flatnonzero(f.mask)[i]
            if np.iscomplexobj(ref.eigs):
                d.eigs[i] = d.eigs[i] * 0.9
                f.eigs[j] = f.eigs[j] * 0.9
            d.amplitudes[i] = d.amplitudes[i] * 1.1
            f.amps[j] = f.amps[j] * 1.1
            d.modes[:, i] = d.modes[:, i] * 2
            f.modes[:, j] = f.modes[:, j] * 2
            mon.event("edited")
        for dd, ff in alive:
            if not compare(mon, name, dd, ff, where):
                return


def superpose(rng, mon):
    """modes superpose linearly: a selection and its complement add up"""
    name = pick(rng, [n for n in NAMES if n not in ("DMDc", "LANDO", "PiDMD")])
    kit, model = fitted(rng, name)
    if name not in CONT:
        model.dmd_time["tend"] = model.dmd_time["tend"] + int(rng.integers(0, 3))
    r = len(model.eigs)
    full = np.array(model.reconstructed_data)
    # (almost) equal eigenvalues: huge amplitudes cancel in the sum
    big = (np.abs(model.modes) @ np.abs(model.dynamics)).max(initial=0) if name in CONT else 0.0
    m = rng.random(r) < 0.5
    mon.describe(cls=name, kw=kit.kw)
    mon.sig(name, "superpose", bool(m.all()), bool(m.any()))

    def rec(mask):
        model.modes_activation_bitmask = mask
        return np.array(model.reconstructed_data)

    a, b, z = rec(m), rec(~m), rec(np.zeros(r, bool))
    if not np.isfinite(full).all():
        raise Skip()
    s = max(np.abs(full).max(), np.abs(a).max(), np.abs(b).max(), 1e-9, big)
    mon.close("selection-and-complement-add-up", a + b - z, full, 1e-8, name, scale=s)
    if name != "wrap-mean":
        mon.close("no-modes-no-signal", z, np.zeros_like(z), 1e-12, name, scale=s)
    # removing a mode and adding it again changes nothing
    mon.close("mask-round-trip", rec(np.ones(r, bool)), full, 1e-12, name, scale=s)
    if name in CONT and not (name == "BOPDMD" and kit.kw["num_trials"]):
        t = np.linspace(0, 1, 4)
        tot = np.asarray(model.forecast(t))
        model.modes_activation_bitmask = m
        p = np.asarray(model.forecast(t))
        model.modes_activation_bitmask = ~m
        q = np.asarray(model.forecast(t))
        if np.isfinite(tot).all():
            mon.close("forecast-and-complement-add-up", p + q, tot, 1e-8, name,
                      scale=max(np.abs(tot).max(), np.abs(p).max()))
    if name == "BOPDMD" and kit.kw["num_trials"]:
        model.modes_activation_bitmask = m
        mon.eq("uncertainties-restricted",
               (len(model.eigenvalues_std), len(model.amplitudes_std), model.modes_std.shape[1]),
               (int(m.sum()),) * 3, name)
        if m.any():
            np.random.seed(1)
            x, v = model.forecast(np.linspace(0, 1, 4))
            mon.eq("masked-ensemble-forecast", (x.shape, v.shape),
                   ((model.modes.shape[0], 4),) * 2, name)
    if name in ("DMD", "FbDMD", "SpDMD"):
        model.modes_activation_bitmask = m
        X = np.asarray(model.snapshots)[:, :3].astype(complex)
        if m.any():
            want = model.modes @ (model.eigs[:, None] * (np.linalg.pinv(model.modes) @ X))
            mon.close("predict-uses-active-modes", model.predict(X), want, 1e-8, name,
                      scale=max(1e-9, np.abs(want).max()))


def unfitted(rng, mon):
    """before a fit there is nothing to select"""
    name = pick(rng, [n for n in NAMES if n not in ("LANDO",)])
    kit = make_kit(rng, name)
    d = kit.build()
    mon.sig(name, "unfitted")
    mon.raises("unfitted-mask-rejected", (RuntimeError, ValueError),
               lambda: d.modes_activation_bitmask, name)
    mon.raises("unfitted-mask-rejected", (RuntimeError, ValueError),
               lambda: setattr(d, "modes_activation_bitmask", np.ones(2, bool)), name)
    if not name.startswith("wrap-"):
        mon.raises("unfitted-index-rejected", (RuntimeError, ValueError), lambda: d[0], name)


WORKLOADS = {
    "history": {"fn": history, "quick": 5000, "thorough": 90000},
    "superpose": {"fn": superpose, "quick": 2500, "thorough": 50000},
    "unfitted": {"fn": unfitted, "quick": 120, "thorough": 600},
}
REQUIRED = {
    "selection-is-exact-restriction": 12000,
    "reconstruction-uses-active-modes-only": 4000,
    "invalid-mask-rejected": 600,
    "invalid-key-rejected": 400,
    "mask-is-read-only": 600,
    "selection-and-complement-add-up": 800,
    "unfitted-mask-rejected": 150,
}
