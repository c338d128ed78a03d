"""C24: Every plot shows the model's own numbers.

matplotlib is the observation point: the figures the package produces (shown or
saved) are recorded, and the points, curves, meshes, images and discs drawn in
them are compared with independently computed quantities of the model.
"""

import os
import shutil
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.collections import PathCollection
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure
from matplotlib.patches import Circle, Rectangle

from pydmd import BOPDMD, DMD, HAVOK, HankelDMD, MrDMD, VarProDMD, plotter
from pydmd.costs import COSTS
from pydmd.mrcosts import mrCOSTS
from pydmd.preprocessing import zero_mean_preprocessing
from vmon.core import Skip
from vmon.gen import cont_system, pick
from vmon.kits import make_kit, noisy

RULE = (
    "Random models (many classes, masked modes, changed time windows, one- and "
    "two-dimensional snapshots, real and complex) x every plotting function and "
    "random plotting options, shown or saved; all curves, points, meshes, images "
    "and discs of the recorded figures are compared with the model's own numbers; "
    "distinct = distinct (function, class, options) tuples."
)
ASSUMPTIONS = [
    "modes of equal amplitude (such as conjugate pairs) may be drawn in any order",
    "figures are recorded, not rendered",
]
CASE_TIMEOUT = 90
warnings.filterwarnings("ignore")


# ------------------------------------------------------------------ recorder
class Ax:
    def __init__(self, ax):
        self.title = ax.get_title()
        self.color = to_rgba(ax.title.get_color())
        self.labels = (ax.get_xlabel(), ax.get_ylabel())
        self.xlim, self.ylim = ax.get_xlim(), ax.get_ylim()
        self.pos = ax.get_position().bounds
        self.curves, self.points, self.meshes = [], [], []
        self.spans = []
        for ln in ax.get_lines():
            if hasattr(ln, "get_data_3d"):
                data = [np.asarray(v) for v in ln.get_data_3d()]
            else:
                data = [np.asarray(v) for v in ln.get_data(orig=True)]
            data = [np.atleast_1d(v) for v in data]
            if ln.get_transform() != ax.transData and not hasattr(ln, "get_data_3d"):
                self.spans.append(data)
                continue
            if ln.get_linestyle() in ("None", "", " ", None):
                self.points.append((data, to_rgba(ln.get_color()), ln.get_markersize()))
            else:
                self.curves.append((data, to_rgba(ln.get_color())))
        for c in ax.collections:
            if isinstance(c, PathCollection):
                off = np.asarray(c.get_offsets())
                self.points.append(((off[:, 0], off[:, 1]), None, None))
            elif hasattr(c, "get_coordinates"):
                xy = np.asarray(c.get_coordinates())
                v = np.ma.filled(np.ma.asarray(c.get_array()).astype(float), np.nan)
                v = v.reshape(xy.shape[0] - 1, xy.shape[1] - 1)
                self.meshes.append((xy[0, :, 0], xy[:, 0, 1], v, c.get_clim()))
        self.images = [np.asarray(i.get_array()) for i in ax.get_images()]
        self.discs = [
            (complex(*p.get_center()), p.get_radius())
            for p in list(ax.patches) + list(ax.artists)
            if isinstance(p, Circle)
        ]
        self.bars = [
            (p.get_x(), p.get_width(), p.get_height())
            for p in ax.patches
            if isinstance(p, Rectangle)
        ]

    def cloud(self):
        z = [np.ravel(p[0][0]) + 1j * np.ravel(p[0][1]) for p in self.points]
        return np.concatenate(z) if z else np.zeros(0, complex)


class Fig:
    def __init__(self, fig, name=None):
        self.file = name
        st = getattr(fig, "_suptitle", None)
        self.title = st.get_text() if st is not None else ""
        self.axes = [Ax(a) for a in fig.axes]

    def named(self, title):
        return [a for a in self.axes if a.title == title]

    def starting(self, title):
        return [a for a in self.axes if a.title.startswith(title)]


class Recorder:
    """Records every figure that is saved, and those open when the call ends."""

    def __enter__(self):
        plt.close("all")
        self.figs = []
        self.real, self.tight = Figure.savefig, Figure.tight_layout
        Figure.tight_layout = lambda *a, **k: None  # slow, and moves no data
        rec = self

        def savefig(fig, fname, *a, **k):
            rec.figs.append(Fig(fig, fname))
            rec.saved.add(id(fig))
            with open(fname, "wb") as f:
                f.write(b"figure")

        self.saved = set()
        Figure.savefig = savefig
        self.show = plt.show
        plt.show = lambda *a, **k: None
        return self

    def __exit__(self, *exc):
        Figure.savefig, Figure.tight_layout = self.real, self.tight
        plt.show = self.show
        if exc[0] is None:
            for n in plt.get_fignums():
                fig = plt.figure(n)
                if id(fig) not in self.saved:
                    self.figs.append(Fig(fig))
        plt.close("all")
        return False


def same(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    s = max(np.abs(b).max() if b.size else 0.0, 1e-300)
    return bool(np.all(np.abs(a - b) <= tol * s))


def cover(mon, name, drawn, want, ctx):
    """the drawn cloud is exactly the wanted set of points (repetitions allowed)"""
    drawn, want = np.asarray(drawn, complex), np.asarray(want, complex)
    s = 1e-9 * max(1.0, np.abs(want).max() if want.size else 1.0)
    if drawn.size and want.size:
        d = np.abs(drawn[:, None] - want[None])
        ok = d.min(axis=1).max() <= s and d.min(axis=0).max() <= s
    else:
        ok = drawn.size == want.size
    mon.ok(name, ok, "%s: drawn %s wanted %s" % (ctx, drawn[:6], want[:6]))


def on_grid(mesh, x, y, want):
    """is the value shown at the place (x[j], y[i]) want[i, j]?"""
    xe, ye, v, _ = mesh
    ix = np.searchsorted(xe, x) - 1
    iy = np.searchsorted(ye, y) - 1
    if ix.min() < 0 or iy.min() < 0 or ix.max() >= v.shape[1] or iy.max() >= v.shape[0]:
        return False
    if v.shape != want.shape:
        return False
    return same(v[np.ix_(iy, ix)], want)


def axis_points(rng, n):
    return np.cumsum(rng.uniform(0.5, 1.5, n)) + rng.uniform(-3, 3)


def target(rng, scratch):
    return os.path.join(scratch, "fig.png") if rng.random() < 0.5 else None


def maybe_mask(rng, model):
    k = len(model.eigs)
    if k > 1 and rng.random() < 0.4:
        mask = rng.random(k) < 0.6
        if mask.any():
            model.modes_activation_bitmask = mask
            return "masked"
    return "all"


CLASSES = ["DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "EDMD", "SpDMD", "HankelDMD",
           "HODMD", "DMDc", "PiDMD", "wrap-mean", "wrap-svd", "wrap-hankel"]


def build(rng, name, n=8):
    kit = make_kit(rng, name, n=n)
    model = kit.build()
    np.random.seed(int(rng.integers(2**31)))
    try:
        kit.fit(model, kit.data(rng))
    except np.linalg.LinAlgError:
        raise Skip()
    return kit, model


# --------------------------------------------------------------------- eigs
def eigs(rng, mon):
    name = pick(rng, CLASSES + ["BOPDMD", "VarProDMD"])
    kit, model = build(rng, name)
    state = maybe_mask(rng, model) if name not in ("VarProDMD",) else "all"
    e = np.array(model.eigs)
    if not e.size or np.abs(e).max() == 0 or not np.all(np.isfinite(e)):
        raise Skip()
    kw = dict(narrow_view=bool(rng.integers(2)), show_axes=bool(rng.integers(2)),
              show_unit_circle=bool(rng.integers(2)), title="T%d" % rng.integers(99))
    if rng.random() < 0.3:
        kw["dpi"] = 50
    mon.describe(cls=name, kw=kw, state=state)
    mon.sig("eigs", name, state, kw["narrow_view"], kw["show_unit_circle"])
    scratch = tempfile.mkdtemp(prefix="vmon")
    try:
        f = target(rng, scratch)
        with Recorder() as rec:
            plotter.plot_eigs(model, filename=f, **kw)
        mon.ok("eigs-one-figure", len(rec.figs) == 1 and rec.figs[0].file == f, name)
        ax = rec.figs[0].axes[0]
        cover(mon, "eigs-drawn-are-eigs", ax.cloud(), e, name)
        lo, hi = np.sort(ax.xlim), np.sort(ax.ylim)
        s = 1e-9 * np.abs(e).max()
        mon.ok("eigs-all-in-view",
               e.real.min() >= lo[0] - s and e.real.max() <= lo[1] + s
               and e.imag.min() >= hi[0] - s and e.imag.max() <= hi[1] + s,
               "%s %s %s %s" % (name, e, ax.xlim, ax.ylim))
        mon.ok("eigs-title", ax.title == kw["title"], ax.title)
        circ = [d for d in ax.discs if d == (0, 1.0)]
        mon.ok("eigs-unit-circle", len(circ) == int(kw["show_unit_circle"]),
               "%s discs %s" % (kw, ax.discs))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def eigs_mrdmd(rng, mon):
    lev = int(rng.integers(0, 4))
    m = int(rng.integers(40, 70))
    X = noisy(rng, 6, m, real=bool(rng.integers(2)), r=2)
    tt = np.arange(m) / m
    for f in rng.uniform(0.1, 2.5, 3):
        X = X + np.outer(rng.standard_normal(6), 3 * np.cos(2 * np.pi * f * tt + f))
    model = MrDMD(DMD(svd_rank=int(rng.integers(2, 5))), max_level=lev,
                  max_cycles=int(rng.integers(1, 5)))
    try:
        model.fit(X)
    except np.linalg.LinAlgError:
        raise Skip()
    L = len(model.dmd_tree.levels)
    level = pick(rng, [None] + list(range(L)))
    node = None
    if level is not None and rng.random() < 0.5:
        node = int(rng.integers(2**level))
    want = model.eigs if level is None else model.partial_eigs(level=level, node=node)
    want = np.array(want)
    if not want.size or np.abs(want).max() == 0:
        raise Skip()
    mon.describe(level=level, node=node, levels=L)
    mon.sig("eigs_mrdmd", level, node is None)
    kw = dict(show_axes=bool(rng.integers(2)), show_unit_circle=bool(rng.integers(2)))
    if level is not None:
        kw["level"] = level
        if node is not None:
            kw["node"] = node
    scratch = tempfile.mkdtemp(prefix="vmon")
    try:
        f = target(rng, scratch)
        with Recorder() as rec:
            plotter.plot_eigs_mrdmd(model, filename=f, **kw)
        ax = rec.figs[0].axes[0]
        cover(mon, "mrdmd-eigs-drawn-are-eigs", ax.cloud(), want, "level %s" % level)
        if level is None:
            by = {}
            for p, c, _ in ax.points:
                by.setdefault(c, []).extend(p[0] + 1j * p[1])
            per = [np.array(model.partial_eigs(k)) for k in range(L)]
            ok = len(by) == L
            for e in per:
                ok = ok and any(
                    len(g) == len(e) and same(np.sort_complex(np.array(g, complex)),
                                              np.sort_complex(e.astype(complex)))
                    for g in by.values()
                )
            mon.ok("mrdmd-eigs-one-colour-per-level", ok, "%s levels" % L)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# -------------------------------------------------------------------- grids
def grids(rng, mon):
    ny, nx = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    n, m = nx * ny, int(rng.integers(8, 14))
    cplx = bool(rng.random() < 0.4)
    X = noisy(rng, n, m, real=not cplx, r=3)
    name = pick(rng, ["DMD", "wrap-mean", "BOPDMD"])
    order = pick(rng, ["C", "C", "F"])
    how = pick(rng, ["nd", "shape", "xy"])
    if how == "nd":
        order = "C"
        data = X.reshape(ny, nx, m)
    else:
        data = X
    if name == "BOPDMD":
        try:
            model = BOPDMD(svd_rank=3).fit(data, np.arange(m) * 0.1)
        except np.linalg.LinAlgError:
            raise Skip()
        if not np.all(np.isfinite(model.modes)):
            raise Skip()
    else:
        model = DMD(svd_rank=3, opt=bool(rng.integers(2)))
        if name == "wrap-mean":
            model = zero_mean_preprocessing(model)
        model.fit(data)
    state = maybe_mask(rng, model)
    kw = {"order": order}
    x, y = np.arange(nx), np.arange(ny)
    if how == "shape":
        kw["snapshots_shape"] = (ny, nx)
    elif how == "xy":
        x, y = axis_points(rng, nx), axis_points(rng, ny)
        kw.update(x=x, y=y)
    what = pick(rng, ["modes", "snapshots"])
    count = model.modes.shape[1] if what == "modes" else m
    idx = pick(rng, [None, int(rng.integers(count)),
                     [int(i) for i in rng.permutation(count)[:2]]])
    if what == "modes":
        kw["index_mode"] = idx
        src, fn, head = np.array(model.modes), plotter.plot_modes_2D, "DMD Mode %d"
    else:
        kw["index_snap"] = idx
        src, fn, head = np.array(model.snapshots), plotter.plot_snapshots_2D, "Snapshot %d"
    lst = list(range(count)) if idx is None else ([idx] if isinstance(idx, int) else idx)
    mon.describe(cls=name, how=how, order=order, what=what, shape=(ny, nx), idx=idx)
    mon.sig("grids", what, name, how, order, nx == ny, type(idx).__name__, state, cplx)
    scratch = tempfile.mkdtemp(prefix="vmon")
    try:
        f = target(rng, scratch)
        with Recorder() as rec:
            fn(model, filename=f, **kw)
        mon.ok("grids-one-figure-each", len(rec.figs) == len(lst),
               "%d figures for %s" % (len(rec.figs), lst))
        for k, fig in zip(lst, rec.figs):
            want = src[:, k].reshape((ny, nx), order=order)
            mon.ok("grids-title", fig.title == head % k, fig.title)
            if f:
                mon.ok("grids-file", fig.file == f[:-4] + ".%d.png" % k, fig.file)
            parts = {"": want.real}
            if what == "modes":
                parts = {"Real": want.real, "Imag": want.imag}
            for t, w in parts.items():
                ax = [a for a in fig.axes if a.title == t and a.meshes]
                ok = ax and on_grid(ax[0].meshes[0], x, y, w)
                mon.ok("grids-show-field", ok,
                       "%s %d %s shape %s %s" % (what, k, t, (ny, nx), how))
                if ok and w.min() < w.max():
                    mon.ok("grids-colour-range", same(ax[0].meshes[0][3], [w.min(), w.max()]),
                           "%s" % (ax[0].meshes[0][3],))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------ summary
def summary(rng, mon):
    name = pick(rng, CLASSES + ["BOPDMD", "BOPDMD", "VarProDMD", "wrap-bop"])
    n = 8
    t_arg, cont = None, False
    if name in ("BOPDMD", "wrap-bop", "VarProDMD"):
        m = int(rng.integers(12, 20))
        t = np.arange(m) * 0.1 + rng.uniform(-1, 1)
        if rng.random() < 0.3 and name != "VarProDMD":
            t = np.sort(t + rng.uniform(-0.03, 0.03, m))
        s = cont_system(rng, n=n, r=3, real=False, t=t)
        X = s.at(t) + 1e-3 * rng.standard_normal((n, m))
        if name == "VarProDMD":
            model = VarProDMD(svd_rank=3)
            model.fit(X, t)
            cont, t_arg = True, t
        else:
            model = BOPDMD(svd_rank=3, num_trials=0)
            if name == "wrap-bop":
                model = zero_mean_preprocessing(model)
            model.fit(X, t)
        d = 1
    else:
        kit, model = build(rng, name, n=n)
        d = kit.kw.get("d", 1) if name in ("HankelDMD", "HODMD", "wrap-hankel") else 1
    if name in ("wrap-svd", "wrap-rand"):
        d = 1
    state = maybe_mask(rng, model) if name != "VarProDMD" else "all"
    window = "full"
    if name not in ("BOPDMD", "wrap-bop", "VarProDMD"):
        r = rng.random()
        if r < 0.3:
            model.original_time["dt"] = model.dmd_time["dt"] = 0.25
            model.original_time["t0"] = model.dmd_time["t0"] = 2.0
            mm = model.snapshots.shape[-1]
            model.original_time["tend"] = model.dmd_time["tend"] = 2.0 + 0.25 * (mm - 1)
            window = "rescaled"
        elif r < 0.55:
            model.dmd_time["tend"] = model.dmd_time["tend"] + model.dmd_time["dt"] * int(
                rng.integers(1, 6))
            window = "extended"
        elif r < 0.7:
            # a window sampled more coarsely (or finely) than the data
            dt = model.dmd_time["dt"] * float(pick(rng, [2, 0.5]))
            model.dmd_time["dt"] = dt
            model.dmd_time["tend"] = model.dmd_time["t0"] + dt * int(rng.integers(4, 12))
            window = "resampled"
        elif r < 0.82:
            t_arg = float(rng.uniform(0.05, 2))
        elif r < 0.9:
            t_arg = 1.5 + 0.3 * np.arange(model.snapshots.shape[-1])
    lam, b = np.array(model.eigs), np.array(model.amplitudes)
    phi, dyn = np.array(model.modes), np.array(model.dynamics)
    R = len(lam)
    snp = model.ho_snapshots if isinstance(model, HankelDMD) else model.snapshots
    if R == 0 or np.abs(b).max() == 0 or np.abs(lam).min() == 0:
        raise Skip()
    if len(phi) % d:
        raise Skip()
    # the time axis the curves live on
    if name in ("BOPDMD", "wrap-bop"):
        time = np.array(model.time)
        dt = time[1] - time[0]
        even = np.allclose(np.diff(time), dt)
    else:
        even = True
        mm = model.snapshots.shape[-1]
        if t_arg is None:
            time, dt = np.array(model.dmd_timesteps), model.original_time["dt"]
        elif isinstance(t_arg, float):
            time, dt = np.arange(mm) * t_arg, t_arg
        else:
            time, dt = np.asarray(t_arg), t_arg[1] - t_arg[0]
    if len(time) != dyn.shape[1]:
        raise Skip()
    if cont or name in ("BOPDMD", "wrap-bop"):
        disc, con = np.exp(lam * dt), lam
    else:
        disc, con = lam, np.log(lam.astype(complex)) / dt
    # options
    kw = {"plot_semilogy": bool(rng.integers(2)), "flip_continuous_axes": bool(rng.random() < 0.3)}
    k = int(rng.integers(1, min(3, R) + 1))
    idx = tuple(int(i) for i in (rng.permutation(R)[:k] if rng.random() < 0.5 else range(k)))
    if R < 3:
        idx = tuple(range(R))
    kw["index_modes"] = idx
    kw["max_sval_plot"] = int(pick(rng, [50, R, R + 1]))
    order = "C"
    size = len(phi) // d
    shape2 = None
    x = np.arange(size)
    if size == 8 and rng.random() < 0.4:
        shape2 = pick(rng, [(4, 2), (2, 4)])  # width, height
        order = pick(rng, ["C", "F"])
        kw.update(snapshots_shape=shape2, order=order)
        x, y = np.arange(shape2[0]), np.arange(shape2[1])
        if rng.random() < 0.5:
            x, y = axis_points(rng, shape2[0]), axis_points(rng, shape2[1])
            kw.update(x=x, y=y)
    elif rng.random() < 0.4:
        x = axis_points(rng, size)
        kw["x"] = x
    if t_arg is not None:
        kw["t"] = t_arg
    if cont:
        kw["continuous"] = True
    if d > 1:
        kw["d"] = d
    mon.describe(cls=name, kw={a: repr(v)[:60] for a, v in kw.items()}, state=state,
                 window=window, rank=R)
    mon.sig("summary", name, state, window, shape2 is not None, order,
            kw["flip_continuous_axes"], type(t_arg).__name__, k)
    scratch = tempfile.mkdtemp(prefix="vmon")
    try:
        f = target(rng, scratch)
        with Recorder() as rec:
            plotter.plot_summary(model, filename=f, **kw)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    fig = rec.figs[0]
    # singular values
    s = np.linalg.svd(np.asarray(snp), compute_uv=False)
    s = (100 * s / s.sum())[: kw["max_sval_plot"]]
    ax = fig.named("Singular Values")[0]
    cover(mon, "summary-singular-values", ax.cloud(), np.arange(1, len(s) + 1) + 1j * s, name)
    inside = [p for p in ax.points if len(p[0][0]) and p[1] == to_rgba("tab:orange")]
    cnt = sum(len(p[0][0]) for p in inside)
    mon.ok("summary-rank-marked", cnt == min(R, len(s)), "%s: %d marked, rank %d" % (name, cnt, R))
    # eigenvalues
    if kw["flip_continuous_axes"]:
        con = con.imag + 1j * con.real
    da = fig.named("Discrete-time Eigenvalues")[0]
    ca = fig.named("Continuous-time Eigenvalues")[0]
    cover(mon, "summary-discrete-eigs", da.cloud(), disc if even else [], name)
    cover(mon, "summary-continuous-eigs", ca.cloud(), con, name)
    A = np.abs(b)
    for pts, col, ms in ca.points:
        z = pts[0] + 1j * pts[1]
        j = int(np.argmin(np.abs(con - z[0])))
        twins = np.abs(con - con[j]) < 1e-6 * max(1, np.abs(con).max())
        ok = np.any(np.abs(ms - 10 * np.sqrt(A[twins] / A.max())) < 1e-6 * 10)
        mon.ok("summary-marker-size", ok, "%s: %g for |b| %s" % (name, ms, A[twins] / A.max()))
    # modes and dynamics
    srt = np.sort(A)[::-1]
    avg = phi.reshape(d, size, R).mean(axis=0)
    modes = sorted(fig.starting("Mode "), key=lambda a: -round(a.pos[1], 2) * 100 + a.pos[0])
    dax = [a for a in modes if a.title == "Mode Dynamics"]
    max_ = [a for a in modes if a.title != "Mode Dynamics"]
    mon.ok("summary-panels", len(dax) == len(max_) == len(idx),
           "%s: %d/%d panels for %s" % (name, len(max_), len(dax), idx))
    for i, ma, ta in zip(idx, max_, dax):
        mon.ok("summary-mode-title", ma.title == "Mode %d" % (i + 1), ma.title)
        cand = [j for j in range(R) if abs(A[j] - srt[i]) <= 1e-9 * A.max()]
        good = []
        for j in cand:
            w = avg[:, j].real
            if shape2 is None:
                g = len(ma.curves) == 1 and same(ma.curves[0][0][0], x) and same(
                    ma.curves[0][0][1], w)
            else:
                g = ma.meshes and on_grid(
                    ma.meshes[0], x, y, w.reshape(shape2[::-1], order=order))
            h = len(ta.curves) == 1 and same(ta.curves[0][0][0], time) and same(
                ta.curves[0][0][1], dyn[j].real)
            good.append((bool(g), bool(h), j))
        mon.ok("summary-mode-drawn", any(g for g, _, _ in good), "%s mode %d" % (name, i))
        mon.ok("summary-dynamics-drawn", any(h for _, h, _ in good), "%s mode %d" % (name, i))
        mon.ok("summary-same-mode", any(g and h for g, h, _ in good), "%s mode %d" % (name, i))
        # the colour of the titles is the one of the eigenvalue
        js = [j for g, h, j in good if g and h]
        if js:
            cols = [c for p, c, _ in ca.points
                    if any(np.abs(p[0][0] + 1j * p[1][0] - con[j]) < 1e-9 * max(1, np.abs(con).max())
                           for p in [p] for j in js)]
            mon.ok("summary-colours", ma.color == ta.color and ma.color in cols,
                   "%s mode %d %s" % (name, i, cols))
            if len(js) == 1 and np.sum(
                    np.abs(con - con[js[0]]) < 1e-6 * max(1, np.abs(con).max())) == 1:
                # an eigenvalue has one colour, also when its conjugate is listed as well
                mon.ok("summary-one-colour", len(set(cols)) == 1,
                       "%s mode %d %s" % (name, i, cols))


# ----------------------------------------------------------------------- UQ
def uq(rng, mon):
    n, m = 8, int(rng.integers(16, 22))
    t = np.arange(m) * 0.1
    r = int(rng.integers(2, 5))
    s = cont_system(rng, n=n, r=r, real=r % 2 == 0 and bool(rng.integers(2)), t=t)
    X = s.at(t) + 2e-3 * rng.standard_normal((n, m))
    np.random.seed(int(rng.integers(2**31)))
    model = BOPDMD(svd_rank=r, num_trials=int(rng.integers(3, 6)), trial_size=0.7)
    model.fit(X, t)
    if not np.all(np.isfinite(model.modes)) or model.modes_std is None:
        raise Skip()
    state = maybe_mask(rng, model)
    e, es = np.array(model.eigs), np.array(model.eigenvalues_std)
    if rng.random() < 0.4:
        kw = dict(flip_axes=bool(rng.integers(2)), draw_axes=bool(rng.integers(2)))
        truth = np.array([0.1 + 1j, -0.2 - 2j]) if rng.random() < 0.5 else None
        if truth is not None:
            kw["eigs_true"] = list(truth)
        mon.describe(kw={k: repr(v) for k, v in kw.items()}, state=state)
        mon.sig("eig_uq", state, kw["flip_axes"], truth is not None)
        with Recorder() as rec:
            model.plot_eig_uq(**kw)
        ax = rec.figs[0].axes[0]
        f = (lambda z: z.imag + 1j * z.real) if kw["flip_axes"] else (lambda z: z)
        want = f(e) if truth is None else np.concatenate([f(e), f(truth)])
        cover(mon, "uq-eigs-drawn", ax.cloud(), want, "flip %s" % kw["flip_axes"])
        got = sorted((round(c.real, 9), round(c.imag, 9), round(q, 9)) for c, q in ax.discs)
        exp = sorted((round(c.real, 9), round(c.imag, 9), round(k * q, 9))
                     for c, q in zip(f(e), es) for k in (1, 2))
        mon.ok("uq-discs-drawn", len(got) == len(exp) and np.allclose(got, exp, atol=1e-7),
               "%s vs %s" % (got[:3], exp[:3]))
        lab = ax.labels
        mon.ok("uq-axis-labels", ("Im" in lab[0]) == kw["flip_axes"]
               and ("Re" in lab[1]) == kw["flip_axes"], str(lab))
        return
    R = len(e)
    kw = dict(cols=int(rng.integers(1, 5)))
    d = pick(rng, [1, 1, 2])
    if d > 1:
        kw["d"] = d
    size = n // d
    shape2, order = None, "C"
    x = np.arange(size)
    if rng.random() < 0.4:
        shape2 = (2, size // 2) if rng.random() < 0.5 else (size // 2, 2)
        order = pick(rng, ["C", "F"])
        x, y = np.arange(shape2[0]), np.arange(shape2[1])
        kw.update(modes_shape=shape2, order=order)
    elif rng.random() < 0.4:
        x = axis_points(rng, size)
        kw["x"] = x
    which = pick(rng, ["all", "count", "list", "pairs"])
    lst = list(range(R))
    if which == "count":
        kw["plot_modes"] = int(rng.integers(1, R + 1))
        lst = lst[: kw["plot_modes"]]
    elif which == "list":
        lst = [int(i) for i in rng.permutation(R)[: int(rng.integers(1, R + 1))]]
        kw["plot_modes"] = lst
    elif which == "pairs":
        kw["plot_conjugate_pairs"] = False
        lst = lst[::2] if R % 2 == 0 else [0] + lst[1::2]
    A = np.abs(model.amplitudes)
    srt = np.sort(A)[::-1]
    phi = np.array(model.modes).reshape(d, size, R).mean(axis=0)
    std = np.array(model.modes_std).reshape(d, size, R).mean(axis=0)
    mon.describe(kw={k: repr(v) for k, v in kw.items()}, state=state)
    mon.sig("mode_uq", state, which, shape2 is not None, d, order)
    with Recorder() as rec:
        model.plot_mode_uq(**kw)
    axes = rec.figs[0].axes
    ma = [a for a in axes if a.title.startswith("Mode") and a.title != "Mode Standard Deviation"]
    sa = [a for a in axes if a.title == "Mode Standard Deviation"]
    mon.ok("uq-panels", len(ma) == len(sa) == len(lst), "%d %d %s" % (len(ma), len(sa), lst))
    for i, a, q in zip(lst, ma, sa):
        head = a.title.replace("Modes", "Mode").split(",")[0]
        mon.ok("uq-mode-title", head == "Mode %d" % (i + 1), a.title)
        good = False
        for j in [j for j in range(R) if abs(A[j] - srt[i]) <= 1e-9 * A.max()]:
            if shape2 is None:
                g = (a.curves and q.curves and same(a.curves[0][0][0], x)
                     and same(a.curves[0][0][1], phi[:, j].real)
                     and same(q.curves[0][0][0], x) and same(q.curves[0][0][1], std[:, j]))
            else:
                sh = shape2[::-1]
                g = (a.meshes and q.meshes
                     and on_grid(a.meshes[0], x, y, phi[:, j].real.reshape(sh, order=order))
                     and on_grid(q.meshes[0], x, y, std[:, j].reshape(sh, order=order)))
            good = good or bool(g)
        mon.ok("uq-mode-drawn", good, "mode %d" % i)
        mon.ok("uq-std-below-mode", abs(a.pos[0] - q.pos[0]) < 0.02 or shape2 is not None,
               "%s %s" % (a.pos, q.pos))


# -------------------------------------------------------------------- HAVOK
def havok(rng, mon):
    m = int(rng.integers(120, 200))
    dt = float(rng.uniform(0.01, 0.1))
    t = rng.uniform(-2, 2) + dt * np.arange(m)
    x = (np.sin(2 * t) + 0.5 * np.cos(3.3 * t) + 0.3 * np.sin(7 * t + 1)
         + 0.05 * rng.standard_normal(m))
    nc = int(rng.integers(1, 3))
    model = HAVOK(svd_rank=int(rng.integers(3 + nc, 7)), delays=int(rng.integers(8, 15)),
                  num_chaos=nc).fit(x, t)
    V = np.array(model.delay_embeddings)
    N = len(V)
    num = pick(rng, [None, int(rng.integers(20, N))])
    k = N if num is None else num
    fi = int(rng.integers(nc))
    forc = np.array(model.forcing)[:k, fi]
    lin = [(0, 1, 2), (1, 2, 0), (0, 2), (2, 1)][int(rng.integers(4))]
    thr = pick(rng, [None, float(np.quantile(np.abs(forc), rng.uniform(0.3, 0.95))),
                     2 * float(np.abs(forc).max())])
    jump = pick(rng, [None, int(rng.integers(1, 6))])
    kw = dict(num_plot=num, index_linear=lin, index_forcing=fi, forcing_threshold=thr,
              min_jump_dist=jump)
    sw = None
    if rng.random() < 0.4:
        sw = np.sort(rng.permutation(N)[:5])
        kw["true_switch_indices"] = sw
    mon.describe(kw={a: repr(v) for a, v in kw.items()}, delays=model.delays, nc=nc)
    mon.sig("havok", num is None, lin, thr is None, jump is None, sw is not None, nc)
    limit = thr if thr is not None else model.compute_threshold(np.array(model.forcing)[:, fi])
    above = np.abs(forc) > limit
    if not above.any() and thr is None:
        raise Skip()
    scratch = tempfile.mkdtemp(prefix="vmon")
    try:
        f = target(rng, scratch)
        with Recorder() as rec:
            model.plot_summary(filename=f, **kw)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    fig = rec.figs[0]
    tt = np.array(model.time)[:k]

    def curve(title, want, colour):
        ax = fig.named(title)[0]
        c = [q for q in ax.curves if q[1] == to_rgba(colour)]
        ok = len(c) == 1 and len(c[0][0]) == len(want) and all(
            same(p, w) for p, w in zip(c[0][0], want))
        mon.ok("havok-curves", ok, title)
        return ax

    curve("Time series", [tt, x[:k]], "k")
    curve("Linear dynamics", [tt, np.array(model.linear_dynamics)[:k, 0]], "tab:blue")
    fa = curve("Forcing", [tt, forc], "gray")
    ea = curve("Embedded attractor", [np.array(model.linear_dynamics)[:k, i] for i in lin], "gray")
    rec_emb = np.array(model.reconstructed_embeddings)
    curve("Reconstructed attractor", [rec_emb[:k, i] for i in lin], "tab:blue")
    img = fig.named("Regression model")[0].images[0]
    mon.ok("havok-operator-image", same(img, np.array(model.operator).real), "operator")
    # bursts: runs of active samples, merged over gaps of at most min_jump_dist
    gap = jump if jump is not None else int(0.5 / (model.time[1] - model.time[0]))
    ia = np.flatnonzero(above)
    runs = []
    for i in ia:
        if runs and i - runs[-1][1] <= gap:
            runs[-1][1] = i
        else:
            runs.append([i, i])
    red = [c[0] for c in fa.curves if c[1] == to_rgba("r")]
    mon.ok("havok-bursts", len(red) == len(runs), "%d drawn %d bursts" % (len(red), len(runs)))
    for (a, z), c in zip(runs, red):
        # the last sample of a burst may or may not be included
        ok = any(same(c[0], tt[a:e]) and same(c[1], forc[a:e]) for e in (z, z + 1))
        mon.ok("havok-burst-drawn", ok, "burst %d..%d" % (a, z))
    red3 = [c[0] for c in ea.curves if c[1] == to_rgba("r")]
    for (a, z), c in zip(runs, red3):
        ok = any(all(same(p, np.array(model.linear_dynamics)[a:e, i]) for p, i in zip(c, lin))
                 for e in (z, z + 1))
        mon.ok("havok-burst-on-attractor", ok, "burst %d..%d" % (a, z))
    if sw is not None:
        cover(mon, "havok-switches", fa.cloud(), tt[sw[sw < k]] + 0j, "switches")


# -------------------------------------------------------------------- COSTS
def signal(rng, n, m):
    t = np.arange(m) * 1.0
    X = np.zeros((n, m))
    for w in (2 * np.pi / 40, 2 * np.pi / 9):
        X += np.outer(rng.standard_normal(n), np.cos(w * t)) + np.outer(
            rng.standard_normal(n), np.sin(w * t))
    return X + 3 + 0.01 * rng.standard_normal((n, m)), t[None]


def mesh_is(ax, want):
    return len(ax.meshes) == 1 and same(ax.meshes[0][2], want)


def costs(rng, mon):
    n, m, w = int(rng.integers(5, 8)), int(rng.integers(90, 120)), int(rng.integers(30, 45))
    X, t = signal(rng, n, m)
    model = COSTS(svd_rank=4)
    model.fit(X, t, w, int(rng.integers(8, 20)))
    tr = pick(rng, [None, "absolute", "square_frequencies", "log10"])
    q = int(rng.integers(2, 4))
    if len(np.unique(np.round(np.abs(model.omega_array.imag), 8))) <= q:
        raise Skip()
    model.cluster_omega(q, transform_method=tr)
    means = bool(rng.random() < 0.7)
    rk = {} if means else {"scale_reconstruction_kwargs": {"include_means": False}}
    sep = np.array(model.scale_reconstruction(include_means=means))
    cls = np.array(model.omega_classes)
    om = np.array(model.omega_array)
    f = np.abs(om.imag)
    f = {"square_frequencies": f**2, "log10": np.log10(np.maximum(f, 1e-300))}.get(tr, f)
    if f[np.isfinite(f)].size != f.size or np.abs(om.imag).min() < 1e-12:
        raise Skip()
    act = pick(rng, ["hist", "series", "separation", "recon", "error", "time"])
    mon.describe(n=n, m=m, window=w, transform=tr, act=act, means=means)
    mon.sig("costs", act, tr, means, q)
    resid = bool(rng.integers(2))
    user = {}
    with Recorder() as rec:
        if act == "hist":
            model.plot_omega_histogram()
        elif act == "series":
            model.plot_omega_time_series()
        elif act == "separation":
            model.plot_scale_separation(X, plot_residual=resid, plot_kwargs=user,
                                        hf_plot_kwargs={}, **rk)
        elif act == "recon":
            model.plot_reconstructions(X, plot_residual=resid, plot_kwargs=user,
                                       plot_period=bool(rng.integers(2)), **rk)
        elif act == "error":
            model.plot_error(X, plot_kwargs=user, **rk)
        else:
            si = int(rng.integers(n))
            model.plot_time_series(si, X, include_residual=resid, **rk)
    mon.ok("costs-caller-options-untouched", user == {}, "%s: %s" % (act, user))
    axes = rec.figs[0].axes
    if act == "hist":
        ax = axes[0]
        tot = sum(h for _, _, h in ax.bars)
        mon.ok("costs-histogram", tot == f.size, "%s of %d" % (tot, f.size))
        bad = 0
        fl = np.sort(f.ravel())
        for x0, wd, h in ax.bars:
            lo = np.sum(fl < x0 - 1e-9 * wd)
            lo2 = np.sum(fl < x0 + 1e-9 * wd)
            hi = np.sum(fl < x0 + wd - 1e-9 * wd)
            hi2 = np.sum(fl <= x0 + wd + 1e-9 * wd)
            bad += not (hi - lo2 <= h <= hi2 - lo)
        mon.ok("costs-histogram-bars", bad == 0, "%d bars off" % bad)
        cen = sorted(float(s[0][0]) for s in ax.spans)
        mon.ok("costs-histogram-centroids", same(cen, np.sort(model.cluster_centroids)), str(cen))
    elif act == "series":
        tm = np.array(model.time_array).mean(axis=1)
        by = {}
        for p, c, _ in axes[0].points:
            k = np.isfinite(p[1])
            by.setdefault(c, []).extend(p[0][k] + 1j * p[1][k])
        ok = len(by) >= len(np.unique(cls))
        for b in np.unique(cls):
            ii, jj = np.nonzero(cls == b)
            want = np.sort_complex(tm[ii] + 1j * f[ii, jj])
            ok = ok and any(len(g) == len(want) and same(np.sort_complex(np.array(g)), want)
                            for g in by.values())
        mon.ok("costs-frequencies-by-band", ok, "bands %s" % np.unique(cls))
    elif act == "separation":
        want = [X, sep[0], sep[1:].sum(axis=0)] + ([X - sep.sum(axis=0)] if resid else [])
        got = [a for a in axes if a.meshes]
        mon.ok("costs-separation-panels", len(got) == len(want), "%d" % len(got))
        for a, w_ in zip(got, want):
            mon.ok("costs-field-drawn", mesh_is(a, w_), a.title)
        mon.ok("costs-colour-range", same(got[0].meshes[0][3],
                                          [-np.abs(X).max(), np.abs(X).max()]), "range")
    elif act == "recon":
        want = [X] + list(sep) + ([X - sep.sum(axis=0)] if resid else [])
        got = [a for a in axes if a.meshes]
        mon.ok("costs-reconstruction-panels", len(got) == len(want), "%d" % len(got))
        for a, w_ in zip(got, want):
            mon.ok("costs-field-drawn", mesh_is(a, w_), a.title)
    elif act == "error":
        g = sep.sum(axis=0)
        mon.ok("costs-error-drawn", mesh_is(axes[0], (g - X) / X * 100), "error")
        rel = np.linalg.norm(g - X) / np.linalg.norm(X)
        mon.ok("costs-error-title", axes[0].title.endswith("%.2g" % rel) or
               axes[0].title.endswith(f"{rel:.2}"), axes[0].title)
    else:
        mu = X[si].mean()
        ax = axes[0]
        ok = (len(ax.curves) == 2 and same(ax.curves[0][0][1], X[si] - mu)
              and same(ax.curves[1][0][1], sep.sum(axis=0)[si] - mu))
        mon.ok("costs-series-total", ok, "panel 0")
        for b in range(q):
            want = sep[b, si] - (mu if b == 0 else 0)
            ok = any(same(c[0][1], want) for c in axes[b + 1].curves)
            mon.ok("costs-series-band", ok, "band %d" % b)
        last = axes[q + 1]
        want = [X[si] - mu, sep[1:].sum(axis=0)[si], sep[0, si] - mu]
        if resid:
            want.append(X[si] - sep.sum(axis=0)[si])
        for i, w_ in enumerate(want):
            mon.ok("costs-series-last", any(same(c[0][1], w_, 1e-8) for c in last.curves),
                   "curve %d" % i)


def mrcosts(rng, mon):
    """the plots of one level: its input data, its bands and what is left over"""
    n, m = int(rng.integers(4, 7)), int(rng.integers(90, 120))
    X, t = signal(rng, n, m)
    ws = [int(rng.integers(14, 20)), int(rng.integers(30, 45))]
    rk = pick(rng, [None, {"include_means": False}])
    model = mrCOSTS(window_length_array=ws, step_size_array=[6, int(rng.integers(8, 14))],
                    svd_rank_array=[4, 4], n_components_array=[2, 2],
                    costs_recon_kwargs=dict(rk) if rk else None)
    try:
        model.fit(X, t, verbose=False)
    except (ValueError, np.linalg.LinAlgError):
        raise Skip()
    level = int(rng.integers(2))
    given = level == 0 or rng.random() < 0.3
    low = np.array(model.costs_array[0].scale_reconstruction(**(rk or {})))[0]
    data = X if level == 0 else low
    means = bool(rng.integers(2))
    own = None if means else {"include_means": False}
    sep = np.array(model.costs_array[level].scale_reconstruction(include_means=means))
    act = pick(rng, ["recon", "error", "separation", "time"])
    mon.describe(n=n, m=m, ws=ws, rk=rk, level=level, given=bool(given), act=act, means=means)
    mon.sig("mrcosts", act, level, bool(given), rk is None, means)
    kw = dict(data=data.copy() if given else None, scale_reconstruction_kwargs=own)
    opts = {"plot_residual": True}
    with Recorder() as rec:
        if act == "recon":
            model.plot_local_reconstructions(level, kwargs=opts, **kw)
        elif act == "error":
            model.plot_local_error(level, **kw)
        elif act == "separation":
            model.plot_local_scale_separation(level, **kw)
        else:
            si = int(rng.integers(n))
            model.plot_local_time_series(si, level, **kw)
    axes = rec.figs[0].axes
    mon.ok("mrcosts-caller-options-untouched", opts == {"plot_residual": True}
           and own in (None, {"include_means": False}), act)
    if act == "error":
        mon.ok("mrcosts-error-drawn",
               mesh_is(axes[0], (sep.sum(axis=0) - data) / data * 100), "level %d" % level)
    elif act == "time":
        mu = data[si].mean()
        c = axes[0].curves
        mon.ok("mrcosts-series-drawn", len(c) == 2 and same(c[0][0][1], data[si] - mu)
               and same(c[1][0][1], sep.sum(axis=0)[si] - mu), "level %d" % level)
    else:
        want = [data, sep[0], sep[1:].sum(axis=0)] if act == "separation" else (
            [data] + list(sep) + [data - sep.sum(axis=0)])
        got = [a for a in axes if a.meshes]
        mon.ok("mrcosts-panels", len(got) == len(want), "%d of %d" % (len(got), len(want)))
        for a, w_ in zip(got, want):
            mon.ok("mrcosts-field-drawn", mesh_is(a, w_), "level %d: %s" % (level, a.title))
    if rng.random() < 0.2:
        mon.raises("mrcosts-data-required", ValueError, lambda: model.plot_local_error(0))
        mon.raises("mrcosts-data-shape", ValueError,
                   lambda: model.plot_local_error(0, data=X[:, :-1]))


WORKLOADS = {
    "eigs": {"fn": eigs, "quick": 200, "thorough": 5000},
    "eigs_mrdmd": {"fn": eigs_mrdmd, "quick": 120, "thorough": 2000},
    "grids": {"fn": grids, "quick": 160, "thorough": 5000},
    "summary": {"fn": summary, "quick": 200, "thorough": 6000},
    "uq": {"fn": uq, "quick": 120, "thorough": 2500},
    "havok": {"fn": havok, "quick": 80, "thorough": 2000},
    "mrcosts": {"fn": mrcosts, "quick": 30, "thorough": 500},
    "costs": {"fn": costs, "quick": 50, "thorough": 800},
}
REQUIRED = {
    "eigs-drawn-are-eigs": 100,
    "mrdmd-eigs-drawn-are-eigs": 40,
    "grids-show-field": 150,
    "summary-mode-drawn": 120,
    "summary-dynamics-drawn": 120,
    "uq-mode-drawn": 60,
    "uq-discs-drawn": 20,
    "havok-curves": 150,
    "costs-caller-options-untouched": 30,
    "mrcosts-caller-options-untouched": 15,
}
