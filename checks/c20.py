"""C20: COSTS and mrCOSTS separate scales consistently."""

import copy
import os
import shutil
import tempfile
import warnings

import numpy as np
from sklearn.cluster import KMeans
from sklearn.metrics import calinski_harabasz_score, silhouette_score

from pydmd import BOPDMD
from pydmd.costs import COSTS
from pydmd.mrcosts import mrCOSTS
from vmon.core import Skip
from vmon.gen import pick

RULE = (
    "COSTS fits over random data lengths, windows, steps, ranks, local and global "
    "bases are replayed window by window with bare BOPDMD fits of independently "
    "cut and tapered windows; clusterings under every transform, method and number "
    "of bands (on fits and on exported fits whose eigenvalues were replaced by "
    "random ones) are judged as frequency intervals, reconstructions against an "
    "independent overlap-add; mrCOSTS against a chain of COSTS; round trips "
    "through xarray and netCDF; refits; distinct = distinct (workload, geometry, "
    "options) tuples."
)
ASSUMPTIONS = [
    "window fits which a 1e-12 relative perturbation of the data changes by more "
    "than 1e-6 are not compared",
    "eigenvalues equally near to two centroids are not judged",
]
CASE_TIMEOUT = 90
warnings.filterwarnings("ignore")
TRANSFORMS = [None, "absolute", "square_frequencies", "log10", "period"]


# ---------------------------------------------------------------- references
def trans(om, how):
    f = np.abs(np.asarray(om).imag).astype(float)
    if how in (None, "absolute"):
        return f
    if how == "square_frequencies":
        return f * f
    if how == "period":
        return 1.0 / f
    with np.errstate(divide="ignore"):
        g = np.log10(f)
    g[np.isinf(g)] = g[np.isfinite(g)].min()
    return g


def starts(m, w, s):
    out = list(range(0, m - w + 1, s))
    if out[-1] + w < m:
        out.append(m - w)
    return out


def taper(w, sharp):
    k = np.arange(w)
    return np.tanh(sharp * k / w) - np.tanh(sharp * (k - w - 1) / w) - 1


def weights(w):
    k = np.arange(w)
    return np.exp(-(((k - (w - 1) / 2) / (w / 8)) ** 2))


def overlap_add(m, s0s, w, pieces):
    """Weighted mean of window signals (windows x ... x w) on m steps."""
    g = weights(w)
    num = np.zeros(pieces[0].shape[:-1] + (m,))
    den = np.zeros(m)
    for a, p in zip(s0s, pieces):
        num[..., a:a + w] += p * g
        den[a:a + w] += g
    return num / den


def bands_ref(c, m, n_bands, classes, means=True):
    """Signals of each band from the public arrays of a COSTS object."""
    w = c.window_length
    s0s = starts(m, w, c.step_size)
    pieces = []
    for k in range(len(s0s)):
        t = np.asarray(c.time_array[k]) - c.time_array[k][0]
        E = np.exp(np.outer(c.omega_array[k], t))
        sig = np.zeros((n_bands, c.modes_array.shape[1], w))
        for j in range(n_bands):
            on = classes[k] == j
            sig[j] = ((c.modes_array[k][:, on] * c.amplitudes_array[k][on]) @ E[on]).real
        if means:
            sig[0] += np.asarray(c.window_means_array[k])[:, None]
        pieces.append(sig)
    return overlap_add(m, s0s, w, pieces)


def scale_of(c):
    return float(np.abs(c.window_means_array).max() + (np.abs(c.modes_array).max(axis=1) * np.abs(
        c.amplitudes_array) * np.exp(np.maximum(0, c.omega_array.real) * np.ptp(
            np.asarray(c.time_array), axis=1).max())).sum(axis=1).max()) + 1e-300


def intervals(mon, name, freq, classes, n, where, reverse=False):
    """Bands are disjoint frequency intervals, ascending."""
    f, k = np.ravel(freq), np.ravel(classes)
    good = mon.ok(name + "-range", k.min() >= 0 and k.max() < n, (where, k.min(), k.max()))
    hi = -1.0
    for j in (range(n)[::-1] if reverse else range(n)):
        v = f[k == j]
        if len(v) == 0:
            continue
        good &= mon.ok(name, v.min() >= hi * (1 - 1e-12), (where, j, v.min(), hi))
        hi = v.max()
    return good


# ---------------------------------------------------------------- generators
def signal(rng, n, t, tones=None, noise=None):
    X = np.zeros((n, len(t)))
    T = len(t) * (t[1] - t[0])
    fr = tones if tones is not None else np.sort(rng.uniform(4, 60, int(rng.integers(2, 4)))) / T * 2
    for f in fr:
        a, b = rng.standard_normal((2, n))
        X += np.outer(a, np.cos(f * t)) + np.outer(b, np.sin(f * t))
    X += rng.standard_normal((n, 1)) * rng.choice([0, 1, 5])
    return X + rng.standard_normal(X.shape) * (rng.choice([1e-3, 0.05]) if noise is None else noise)


def geometry(rng, mlo=50, mhi=110):
    m = int(rng.integers(mlo, mhi))
    w = int(rng.integers(18, min(40, m)))
    if rng.random() < 0.1:
        w = m
    s = int(rng.integers(2, 12))
    return m, w, s


def times(rng, m):
    t = np.arange(m) * float(rng.choice([0.1, 1.0, 0.02]))
    if rng.random() < 0.4:
        t = t + float(rng.choice([5.0, -3.0, 100.0]))
    if rng.random() < 0.2:  # uneven sampling
        dt = t[1] - t[0]
        t = t[0] + np.cumsum(rng.uniform(0.8, 1.2, m)) * dt
    return t


def options(rng):
    kw = dict(eig_constraints=pick(rng, [{"imag"}, {"imag", "conjugate_pairs"}, {"stable"}, None]))
    if kw["eig_constraints"] is None:
        kw = {}
    if rng.random() < 0.3:
        kw["use_proj"] = True
    if rng.random() < 0.3:
        kw["eig_sort"] = pick(rng, ["real", "abs", "imag"])
    return kw


def fit_costs(rng, X, t, w, s, **over):
    kw = dict(svd_rank=int(pick(rng, [2, 4, 4])), global_svd=bool(rng.integers(2)),
              pydmd_kwargs=options(rng))
    kw.update(over)
    c = COSTS(**kw)
    try:
        c.fit(X, np.atleast_2d(t), w, s)
    except ValueError as e:
        if "conjugate pairs" in str(e):
            raise Skip()
        raise
    except np.linalg.LinAlgError:
        raise Skip()
    return c, kw


def stand_in(rng, c, m, transform, n_bands, blank=True):
    """The exported fit with random eigenvalues, modes and amplitudes."""
    c.cluster_omega(2, transform_method="absolute")
    ds = c.to_xarray().copy(deep=True)
    K, r = ds.omega.shape
    T = float(np.ptp(np.asarray(c.time_array), axis=1).min())
    centers = np.sort(rng.uniform(0.5, 60, n_bands)) / T * 2
    om = centers[rng.integers(n_bands, size=(K, r))] * rng.uniform(0.9, 1.1, (K, r))
    om = om * rng.choice([-1, 1], (K, r)) * 1j + rng.uniform(-1, 0.5, (K, r)) / T
    if transform != "period" and rng.random() < 0.3:
        still = rng.random((K, r)) < 0.2
        if not still.all():
            om[still] = om[still].real
    ds["omega"].values[...] = om
    ds["modes"].values[...] = rng.standard_normal(ds.modes.shape) + 1j * rng.standard_normal(
        ds.modes.shape)
    ds["amplitudes"].values[...] = rng.uniform(0.2, 2, (K, r))
    d = COSTS().from_xarray(ds)
    return d


# ---------------------------------------------------------------- workloads
def w_fit(rng, mon):
    """Window by window replay with BOPDMD."""
    m, w, s = geometry(rng)
    n = int(rng.integers(4, 8))
    t = times(rng, m)
    X = signal(rng, n, t)
    sharp = pick(rng, [None, None, 8, 32])
    kw = dict(svd_rank=int(pick(rng, [2, 4, 4, 0])), global_svd=bool(rng.integers(2)),
              pydmd_kwargs=options(rng))
    if not kw["global_svd"] and kw["svd_rank"] == 0:
        kw["max_rank"] = pick(rng, [None, 4])
    if kw["global_svd"] is False and kw["svd_rank"]:
        kw[pick(rng, ["use_last_freq", "reset_alpha_init", "force_even_eigs"])] = True
    X0, t0, kw0 = X.copy(), t.copy(), copy.deepcopy(kw)
    c = COSTS(**kw)
    try:
        c.fit(X, np.atleast_2d(t), w, s, corner_sharpness=sharp)
    except ValueError as e:
        if "conjugate pairs" in str(e):
            raise Skip()
        raise
    except np.linalg.LinAlgError:
        raise Skip()
    mon.describe(m=m, w=w, s=s, n=n, kw=str(kw), sharp=sharp)
    where = f"m={m} w={w} s={s} {kw}"
    mon.ok("input-unchanged", np.array_equal(X, X0) and np.array_equal(t, t0) and kw == kw0, where)
    s0s = starts(m, w, s)
    if not mon.eq("n-windows", int(c.n_slides), len(s0s), where):
        return
    mon.sig(bool(kw["global_svd"]), kw["svd_rank"], len(s0s) > 1, (m - w) % s == 0, sharp,
            str(kw["pydmd_kwargs"]))
    mon.eq("window-length", (c.window_length, c.step_size), (w, s), where)
    for k, a in enumerate(s0s):
        sl = c.get_window_indices(k)
        mon.ok("indices", list(range(m))[sl] == list(range(a, a + w)), (where, k, sl))
        mon.close("time", c.time_array[k], t[a:a + w], 1e-14, (where, k), scale=np.abs(t).max())
        mon.close("means", c.window_means_array[k], X[:, a:a + w].mean(1), 1e-12, (where, k),
                  scale=np.abs(X).max())
    mon.event("windows", len(s0s))

    # replay
    g = taper(w, 16 if sharp is None else sharp)
    pk = dict(eig_sort="imag", use_proj=False)
    pk.update(kw["pydmd_kwargs"])
    basis = None
    if kw["global_svd"]:
        U, S, _ = np.linalg.svd(X, full_matrices=False)
        r = int(c.svd_rank)
        if kw["svd_rank"]:
            mon.eq("rank", r, kw["svd_rank"], where)
        if r < len(S) and S[r - 1] - S[r] < 1e-3 * S[0]:
            raise Skip()
        basis = U[:, :r]

    def replay(Y, upto):
        sig, alpha, prev = [], None, None
        for k, a in enumerate(s0s[:upto]):
            D = Y[:, a:a + w]
            D = (D - D.mean(1, keepdims=True)) * g
            if kw["global_svd"]:
                rk = r
            else:
                rk = kw["svd_rank"]
                if rk == 0:
                    rk = int((np.abs(np.asarray(c.amplitudes_array[k])) > 0).sum())
            b = BOPDMD(svd_rank=rk, proj_basis=basis, init_alpha=alpha, **pk)
            b.fit(D, t[a:a + w] - t[a])
            if kw["global_svd"]:
                if alpha is None:
                    alpha = np.array(b.init_alpha)
            elif kw.get("use_last_freq"):
                alpha = np.array(b.eigs)
            tt = t[a:a + w] - t[a]
            sig.append(((np.asarray(b.modes) * np.asarray(b.amplitudes)) @ np.exp(
                np.outer(b.eigs, tt)), np.array(b.eigs)))
        return sig

    upto = min(len(s0s), 6)
    try:
        one = replay(X, upto)
        two = replay(X * (1 + 1e-12 * rng.standard_normal(X.shape)), upto)
    except (ValueError, np.linalg.LinAlgError):
        raise Skip()
    for k in range(upto):
        tt = np.asarray(c.time_array[k]) - c.time_array[k][0]
        got = (c.modes_array[k] * c.amplitudes_array[k]) @ np.exp(np.outer(c.omega_array[k], tt))
        sc = np.abs(X).max()
        if not np.abs(one[k][0] - two[k][0]).max() < 1e-6 * sc:
            mon.event("ill-conditioned windows")
            if kw.get("use_last_freq"):
                break
            continue
        mon.event("windows replayed")
        mon.close("window-fit", got, one[k][0], 1e-3, (where, k), scale=sc)


def w_bands(rng, mon):
    """Clustering and reconstruction of COSTS."""
    m, w, s = geometry(rng)
    n = int(rng.integers(3, 6))
    t = times(rng, m)
    quick = rng.random() < 0.7
    opts = options(rng)
    if quick:
        opts["varpro_opts_dict"] = {"maxiter": 1, "tol": 1e9}
    r = int(pick(rng, [2, 3, 4]))
    r = min(r, n)
    glob = bool(rng.integers(2)) or r % 2 == 1
    opts.pop("eig_constraints", None) if r % 2 else None
    c, kw = fit_costs(rng, signal(rng, n, t), t, w, s, svd_rank=r, global_svd=glob,
                      pydmd_kwargs=opts)
    tr = pick(rng, TRANSFORMS)
    nb = int(rng.integers(2, 5))
    if quick:
        c = stand_in(rng, c, m, tr, nb)
    if np.any(c.omega_array.imag == 0) and tr == "period":
        raise Skip()
    if not np.any(c.omega_array.imag != 0) and tr == "log10":
        raise Skip()
    nb = min(nb, len(np.unique(np.abs(c.omega_array.imag).round(9))))
    if nb < 1:
        raise Skip()
    where = f"m={m} w={w} s={s} tr={tr} nb={nb} standin={quick}"
    mon.describe(where=where)
    kwargs, method, own = {}, "default", None
    z = rng.random()
    if z < 0.3:
        kwargs = dict(method=KMeans, kmeans_kwargs=dict(n_init=3, random_state=1))
        method = "kmeans"
    elif z < 0.5:
        rows = np.sort(rng.permutation(nb))
        order = rng.permutation(nb)

        class Own:
            """Quantile classes in scrambled numbering."""

            def __init__(self, n_clusters, tag=0):
                self.n, self.tag = n_clusters, tag

            def fit_predict(self, V):
                assert V.ndim == 2 and V.shape[1] == 1 and self.tag == 7
                v = V[:, 0]
                u = np.unique(v)
                cut = np.array_split(u, self.n)
                lab = np.zeros(len(v), int)
                self.cluster_centers_ = np.zeros((self.n, 1))
                for j, q in enumerate(cut):
                    lab[np.isin(v, q)] = order[j]
                    self.cluster_centers_[order[j]] = q.mean()
                self.v = v
                return lab

        kwargs, method, own = dict(method=Own, kmeans_kwargs=dict(tag=7)), "own", Own
    om0 = np.array(c.omega_array)
    c.cluster_omega(nb, transform_method=tr, **kwargs)
    mon.sig(tr, method, nb, quick, glob, (m - w) % s == 0)
    mon.eq("n-components", c.n_components, nb, where)
    mon.ok("omega-kept", np.array_equal(c.omega_array, om0), where)
    cl, f = np.asarray(c.omega_classes), np.abs(om0.imag)
    if not mon.eq("classes-shape", cl.shape, om0.shape, where):
        return
    if not intervals(mon, "bands-are-frequency-intervals", f, cl, nb, where):
        return
    cc = np.asarray(c.cluster_centroids, float)
    mon.eq("centroids-shape", cc.shape, (nb,), where)
    v = trans(om0, tr)
    mon.close("transform", c.transform_omega(om0, transform_method=tr), v, 1e-12, where,
              scale=np.abs(v).max())
    if method != "own":
        dist = np.abs(v[..., None] - cc)
        best = dist.min(-1)
        mine = np.take_along_axis(dist, cl[..., None], -1)[..., 0]
        mon.ok("nearest-centroid", np.all(mine <= best + 1e-9 * np.abs(v).max()), where)
    else:
        # bands hold the values which the clustering method put together
        u = np.unique(v)
        parts = np.array_split(u, nb)
        for j, q in enumerate(parts if tr != "period" else parts[::-1]):
            mon.ok("own-method", np.all(cl[np.isin(v, q)] == j), (where, j))
            mon.close("own-centroid", cc[j], q.mean(), 1e-12, where, scale=np.abs(v).max())
    mon.event("eigenvalues classified", cl.size)

    # reconstruction
    sc = scale_of(c)
    ref = bands_ref(c, m, nb, cl)
    rec = c.scale_reconstruction()
    if not mon.eq("bands-shape", rec.shape, ref.shape, where):
        return
    mon.close("bands", rec, ref, 1e-9, where, scale=sc)
    mon.close("bands-no-means", c.scale_reconstruction(include_means=False),
              bands_ref(c, m, nb, cl, False), 1e-9, where, scale=sc)
    mon.close("global", c.global_reconstruction(), ref.sum(0), 1e-9, where, scale=sc)
    low, high = c.scale_separation()
    mon.close("low", low, ref[0], 1e-9, where, scale=sc)
    mon.close("high", high, ref[1:].sum(0), 1e-9, where, scale=sc)
    mon.close("low-no-means", c.scale_separation(dict(include_means=False))[0],
              bands_ref(c, m, nb, cl, False)[0], 1e-9, where, scale=sc)
    mon.close("global-no-means", c.global_reconstruction(dict(include_means=False)),
              bands_ref(c, m, nb, cl, False).sum(0), 1e-9, where, scale=sc)
    with np.errstate(divide="ignore"):
        per = 2 * np.pi / f[cl > 0]
        mon.close("periods", np.sort(np.ravel(c.periods()) ** -1.0), np.sort(per ** -1.0), 1e-10,
                  where, scale=f.max() + 1e-300)

    # the number of bands found by a sweep maximizes the silhouette
    if rng.random() < 0.4 and 2 < nb < om0.size:
        rg = np.arange(2, nb + 1)
        before = (np.array(c.omega_classes), np.array(c.cluster_centroids), c.n_components)
        best = c.cluster_hyperparameter_sweep(n_components_range=rg, transform_method=tr)
        mon.ok("sweep-keeps-bands", all(np.array_equal(a, b) for a, b in zip(
            before, (c.omega_classes, c.cluster_centroids, c.n_components))), where)
        sco = []
        for k in rg:
            d = copy.deepcopy(c)
            d.cluster_omega(int(k), transform_method=tr)
            lab = np.ravel(d.omega_classes)
            sco.append(silhouette_score(v.reshape(-1, 1), lab) if len(set(lab)) > 1 else -1)
        mon.ok("sweep", sco[list(rg).index(best)] >= max(sco) - 1e-9, (where, best, sco))

    # round trip
    d = COSTS().from_xarray(c.to_xarray())
    for a in ("omega_array", "omega_classes", "amplitudes_array", "modes_array",
              "window_means_array", "time_array", "cluster_centroids"):
        mon.ok("roundtrip-" + a, np.array_equal(getattr(d, a), getattr(c, a)), where)
    for a in ("n_components", "n_slides", "window_length", "step_size", "svd_rank", "global_svd"):
        mon.eq("roundtrip-" + a, getattr(d, a), getattr(c, a), where)
    mon.close("roundtrip-bands", d.scale_reconstruction(), rec, 1e-14, where, scale=sc)
    kb = int(rng.integers(1, nb + 1))
    for e in (c, d):
        e.cluster_omega(kb, transform_method="absolute")
    mon.ok("roundtrip-recluster", np.array_equal(c.omega_classes, d.omega_classes), where)
    mon.close("roundtrip-rebands", c.scale_reconstruction(), d.scale_reconstruction(), 1e-14,
              where, scale=sc)
    mon.close("rebands", c.scale_reconstruction(), bands_ref(c, m, kb, np.asarray(
        c.omega_classes)), 1e-9, where, scale=sc)


def w_local_rank(rng, mon):
    """Window-dependent ranks (svd_rank=0 without a global basis)."""
    m, w, s = geometry(rng, 60, 90)
    n = int(rng.integers(4, 7))
    t = np.arange(m) * 0.1
    half = m // 2
    T = w * 0.1
    X = signal(rng, n, t, tones=np.array([8.0]) / T, noise=0)
    X[:, half:] += signal(rng, n, t, tones=np.array([25.0]) / T, noise=0)[:, half:]
    X += 1e-3 * rng.standard_normal(X.shape)
    mr = pick(rng, [None, 2, 4])
    c, kw = fit_costs(rng, X, t, w, s, svd_rank=0, global_svd=False, max_rank=mr,
                      pydmd_kwargs={"eig_constraints": {"imag"}})
    used = (np.abs(c.amplitudes_array) > 0).sum(1)
    where = f"m={m} w={w} s={s} max={mr} ranks={sorted(set(used.tolist()))}"
    mon.sig(mr, tuple(sorted(set(used.tolist()))))
    if mr is not None:
        mon.ok("max-rank", used.max() <= mr, where)
    mon.ok("even-rank", np.all((used % 2 == 0) | (used == n)), where)
    mon.ok("some-modes", used.min() >= 1, where)
    c.cluster_omega(2)
    cl = np.asarray(c.omega_classes)
    if not intervals(mon, "bands-are-frequency-intervals", np.abs(c.omega_array.imag), cl, 2, where):
        return
    sc = scale_of(c)
    ref = bands_ref(c, m, 2, cl)
    mon.close("bands", c.scale_reconstruction(), ref, 1e-9, where, scale=sc)
    d = COSTS().from_xarray(c.to_xarray())
    mon.close("roundtrip-bands", d.scale_reconstruction(), ref, 1e-9, where, scale=sc)
    d.cluster_omega(2, transform_method="square_frequencies")
    intervals(mon, "bands-are-frequency-intervals", np.abs(d.omega_array.imag),
              np.asarray(d.omega_classes), 2, where)


def chain(rng, X, t, ws, ss, rs, ncs, gl, pk, tr, rk=None):
    x, out = X, []
    for i in range(len(ws)):
        c = COSTS(svd_rank=rs[i], global_svd=gl[i], pydmd_kwargs=copy.deepcopy(pk))
        c.fit(x, np.atleast_2d(t), ws[i], ss[i])
        k = ncs[i] if ncs is not None else c.cluster_hyperparameter_sweep(transform_method=tr)
        c.cluster_omega(int(k), transform_method=tr)
        out.append(c)
        x = c.scale_reconstruction(**(rk or {}))[0]
    return out


def levels(rng, deep=False):
    m = int(rng.integers(70, 130))
    L = int(rng.integers(1, 4))
    ws = sorted(int(v) for v in rng.choice(np.arange(16, m - 2), L, replace=False))
    if rng.random() < 0.1:
        ws[-1] = m
    ss = [int(v) for v in np.sort(rng.integers(2, 14, L))]
    return m, L, ws, ss


def global_checks(mon, rng, mr, m, L, where, n):
    tr = pick(rng, [None, "absolute", "square_frequencies", "log10", "period"])
    eff = tr if tr is not None else mr.transform_method
    cs = mr.costs_array
    high = [np.asarray(c.omega_classes) > 0 for c in cs]
    if not any(h.any() for h in high):
        raise Skip()
    lens = [c.time_array.mean(1) for c in cs]
    hv = np.concatenate([np.asarray(c.omega_array)[h] for c, h in zip(cs, high)])
    if eff in ("period", "log10") and np.any(hv.imag == 0):
        raise Skip()
    nb = int(rng.integers(1, 5))
    nb = min(nb, len(np.unique(np.abs(hv.imag).round(9))))
    if rng.random() < 0.3 and 2 < nb < len(hv):
        how = pick(rng, [None, "silhouette", "calinski-harabasz"])
        det = {} if how is None else dict(method=KMeans, clustering_kwargs=dict(n_init=2, random_state=3))
        sco, nb2 = mr.global_cluster_hyperparameter_sweep(
            np.arange(2, nb + 1), transform_method=tr, verbose=False, score_method=how, **det)
        if how is not None:
            judge = dict(silhouette=silhouette_score).get(how, calinski_harabasz_score)
            for j, q in enumerate(np.arange(2, nb + 1)):
                mc = copy.deepcopy(mr)
                _, lab, val = mc.global_cluster_omega(int(q), transform_method=tr, **det)
                mon.close("global-sweep-score", sco[j], judge(val.reshape(-1, 1), lab), 1e-9, (where, how, q))
        mon.ok("global-sweep", nb2 == np.arange(2, nb + 1)[int(np.argmax(sco))] and
               mr.n_components_global == nb2, (where, sco, nb2))
        nb = int(nb2)
        cent, kl, vals = mr.global_cluster_omega(transform_method=tr)
    else:
        cent, kl, vals = mr.global_cluster_omega(nb, transform_method=tr)
    where = f"{where} global nb={nb} tr={eff}"
    mon.eq("global-n", int(mr.n_components_global), nb, where)
    mon.ok("global-properties", np.array_equal(mr.cluster_centroids, cent) and np.array_equal(
        mr.omega_classes_interpolated, kl), where)
    # every clustered value is a high-band eigenvalue of some level
    tv = np.sort(trans(hv, eff))
    pos = np.clip(np.searchsorted(tv, vals), 1, len(tv) - 1) if len(tv) > 1 else np.zeros(len(vals), int)
    near = np.minimum(np.abs(vals - tv[pos]), np.abs(vals - tv[pos - 1]))
    mon.ok("global-values", near.max() <= 1e-9 * np.abs(tv).max(), where)
    if not mon.ok("global-order", np.all(np.diff(cent) >= 0), (where, cent)):
        return
    dist = np.abs(vals[:, None] - cent)
    mon.ok("global-nearest", np.all(dist[np.arange(len(vals)), kl] <= dist.min(1) + 1e-9 * np.abs(
        tv).max()), where)
    rag = mr.ragged_omega_classes
    if not mon.eq("ragged-levels", len(rag), L, where):
        return
    # class of each eigenvalue of each level
    bad = False
    for d, c in enumerate(cs):
        om, h = np.asarray(c.omega_array), high[d]
        r = om.shape[1]
        got = np.asarray(rag[d])[:, :r]
        if not mon.eq("ragged-shape", got.shape, om.shape, (where, d)):
            return
        dd = np.abs(trans(om, eff)[..., None] - cent) if eff != "period" else np.abs(
            1 / np.maximum(np.abs(om.imag), 1e-300)[..., None] - cent)
        want = np.where(h, dd.argmin(-1), -1)
        srt = np.sort(dd, -1)
        tie = h & (srt[..., 1] - srt[..., 0] < 1e-9 * np.abs(tv).max()) if nb > 1 else np.zeros_like(h)
        for k in range(om.shape[0]):
            miss = (got[k] != want[k]) & ~tie[k]
            mon.event("window classes judged")
            if not miss.any():
                mon._hit("ragged-classes")
                continue
            bad = True
            mon.fail("ragged-classes", (where, d, k, got[k].tolist(), want[k].tolist()))
    if bad:
        return
    # reconstruction
    S = mr.global_scale_reconstruction()
    if not mon.eq("global-shape", S.shape, (L, nb, n, m), where):
        return
    tot = 0
    for d, c in enumerate(cs):
        sc = scale_of(c)
        got = np.asarray(rag[d])[:, :c.omega_array.shape[1]]
        ref = bands_ref(c, m, nb, got, means=False)
        mon.close("global-bands", S[d], ref, 1e-9, (where, d), scale=sc)
        own = bands_ref(c, m, int(c.n_components), np.asarray(c.omega_classes))
        mon.close("global-bands-complete", S[d].sum(0), own[1:].sum(0), 1e-9, (where, d), scale=sc)
        tot = tot + own[1:].sum(0)
    bg = bands_ref(cs[-1], m, int(cs[-1].n_components), np.asarray(cs[-1].omega_classes))[0]
    sc = max(scale_of(c) for c in cs)
    mon.close("background", mr.get_background(), bg, 1e-9, where, scale=sc)
    mon.close("global-reconstruction", mr.global_reconstruction(), tot + bg, 1e-9, where, scale=sc)
    mon.sig("global", L, nb, eff, tuple(len(x) for x in lens)[:1])


def w_multi(rng, mon):
    """mrCOSTS against a chain of COSTS."""
    m, L, ws, ss = levels(rng)
    n = int(rng.integers(4, 7))
    t = np.arange(m) * float(rng.choice([0.1, 1.0]))
    X = signal(rng, n, t)
    rs = [int(v) for v in rng.choice([2, 4], L)]
    sweep = bool(rng.random() < 0.2)
    if sweep:
        rs = [4] * L
    ncs = None if sweep else [int(min(2, r)) for r in rs]
    gl = None if rng.random() < 0.5 else [bool(v) for v in rng.integers(2, size=L)]
    tr = pick(rng, [None, "absolute", "square_frequencies", "log10"])
    pk = {"eig_constraints": pick(rng, [{"imag"}, {"imag", "conjugate_pairs"}])}
    pk.update(pick(rng, [{}, {"varpro_opts_dict": {"maxiter": 20}}, {"use_proj": True},
                         {"eig_sort": "abs"}]))
    rk = {"include_means": False} if rng.random() < 0.15 else None
    where = f"m={m} ws={ws} ss={ss} rs={rs} ncs={ncs} gl={gl} tr={tr} rk={rk}"
    mon.describe(where=where)
    mr = mrCOSTS(window_length_array=ws, step_size_array=ss, svd_rank_array=rs,
                 n_components_array=copy.copy(ncs), cluster_sweep=sweep, global_svd_array=gl,
                 transform_method=tr, pydmd_kwargs=copy.deepcopy(pk),
                 costs_recon_kwargs=copy.copy(rk))
    X0 = X.copy()

    def run(Y):
        try:
            mr.fit(Y, np.atleast_2d(t), verbose=False)
            return chain(rng, Y, t, ws, ss, rs, ncs, gl or [True] * L, pk, tr, rk)
        except np.linalg.LinAlgError:
            raise Skip()
        except ValueError as e:
            if any(q in str(e) for q in ("conjugate pairs", "empty", "Number of labels", "zero-size")):
                raise Skip()
            raise

    cs = run(X)
    hist = 1
    if rng.random() < 0.4:  # refit on other data, after a global clustering
        try:
            mr.global_cluster_omega(2)
        except ValueError:
            pass
        X = signal(rng, n, t)
        X0 = X.copy()
        cs = run(X)
        hist = 2
    mon.sig("chain", L, sweep, tuple(rs), gl is None, tr, hist, str(pk))
    mon.ok("input-unchanged", np.array_equal(X, X0), where)
    if not mon.eq("levels", (len(mr.costs_array), mr.n_decompositions), (L, L), where):
        return
    for d, (a, b) in enumerate(zip(mr.costs_array, cs)):
        for name in ("omega_array", "modes_array", "amplitudes_array", "window_means_array",
                     "time_array", "cluster_centroids"):
            mon.close("level-" + name, getattr(a, name), getattr(b, name), 1e-6, (where, d),
                      scale=np.abs(getattr(b, name)).max() + 1e-300)
        mon.ok("level-classes", np.array_equal(a.omega_classes, b.omega_classes), (where, d))
        mon.eq("level-geometry", (a.window_length, a.step_size, int(a.n_components)),
               (ws[d], ss[d], int(b.n_components)), (where, d))
        mon.eq("level-components", int(mr.n_components_array[d]), int(b.n_components), (where, d))
    for nm, at in (("ragged_omega_array", "omega_array"), ("ragged_modes_array", "modes_array"),
                   ("ragged_amplitudes_array", "amplitudes_array")):
        got = getattr(mr, nm)
        mon.ok(nm, len(got) == L and all(np.array_equal(g, getattr(c, at)) for g, c in zip(
            got, mr.costs_array)), where)
    # round trip through files
    if rng.random() < 0.6:
        old, mr = mr, through_files(mon, rng, mr, where)
        if rk is None and rng.random() < 0.4:
            again = copy.deepcopy(mr)
            again.fit(X, np.atleast_2d(t), verbose=False)
            for d, (a, b) in enumerate(zip(again.costs_array, old.costs_array)):
                mon.close("files-refit", a.omega_array, b.omega_array, 1e-6, (where, d),
                          scale=np.abs(b.omega_array).max() + 1e-300)
                mon.ok("files-refit-classes", np.array_equal(a.omega_classes, b.omega_classes),
                       (where, d))
    global_checks(mon, rng, mr, m, L, where, n)


def through_files(mon, rng, mr, where):
    if len(set(mr.window_length_array)) < len(mr.window_length_array):
        return mr
    tmp = tempfile.mkdtemp()
    try:
        mr.to_netcdf("fit", filepath=tmp)
        names = sorted(os.listdir(tmp))
        mon.eq("files", len(names), len(mr.costs_array), where)
        files = [os.path.join(tmp, f) for f in names]
        rng.shuffle(files)
        new = mrCOSTS()
        new.from_netcdf(files)
        mon.raises("missing-file", ValueError, lambda: mrCOSTS().from_netcdf(
            [os.path.join(tmp, "no-such-file.nc")]), where)
    finally:
        shutil.rmtree(tmp)
    for a, b in zip(mr.costs_array, new.costs_array):
        for name in ("omega_array", "modes_array", "amplitudes_array", "window_means_array",
                     "time_array", "cluster_centroids", "omega_classes"):
            mon.ok("files-" + name, np.array_equal(getattr(a, name), getattr(b, name)), where)
    mon.eq("files-n", new.n_decompositions, len(mr.costs_array), where)
    for at in ("window_length_array", "step_size_array", "svd_rank_array"):
        mon.eq("files-" + at, [int(v) for v in getattr(new, at)], [int(v) for v in getattr(mr, at)],
               where)
    mon.eq("files-transform", new.transform_method, mr.transform_method, where)
    mon.event("files round trip")
    return new


def w_global(rng, mon):
    """Global bands of fits with arbitrary eigenvalues."""
    m, L, ws, ss = levels(rng)
    if rng.random() < 0.15:
        rng.shuffle(ss)
    n = int(rng.integers(3, 5))
    t = np.arange(m) * 0.1
    X = signal(rng, n, t)
    cs = []
    for i in range(L):
        r = int(pick(rng, [2, 2, 3]))
        c = COSTS(svd_rank=r, pydmd_kwargs={"varpro_opts_dict": {"maxiter": 1, "tol": 1e9}})
        c.fit(X, np.atleast_2d(t), ws[i], ss[i])
        d = stand_in(rng, c, m, None, int(rng.integers(2, 4)))
        k = min(d.omega_array.size, int(pick(rng, [2, 2, 1, 3])))
        d.cluster_omega(k, transform_method=pick(
            rng, ["absolute", "log10", "square_frequencies"]))
        cs.append(d)
    where = f"m={m} ws={ws} ss={ss} bands={[c.n_components for c in cs]}"
    mon.describe(where=where)
    tmp = tempfile.mkdtemp()
    try:
        files = []
        for i, c in enumerate(cs):
            f = os.path.join(tmp, f"{i}.nc")
            c.to_xarray().to_netcdf(f, engine="h5netcdf", invalid_netcdf=True)
            files.append(f)
        rng.shuffle(files)
        mr = mrCOSTS()
        mr.from_netcdf(files)
    finally:
        shutil.rmtree(tmp)
    mon.eq("loaded-order", [int(c.window_length) for c in mr.costs_array], ws, where)
    for i in range(1 + int(rng.random() < 0.3)):
        global_checks(mon, rng, mr, m, L, where, n)


def w_reject(rng, mon):
    n, m = int(rng.integers(3, 6)), int(rng.integers(40, 60))
    t = np.arange(m) * 0.1
    X = signal(rng, n, t)
    T = np.atleast_2d(t)
    mon.raises("too-long-window", ValueError, lambda: COSTS(svd_rank=2).fit(
        X, T, m + int(rng.integers(1, 20)), 3))
    for dm in (-1, 1, 3):
        tt = np.atleast_2d(np.arange(m + dm) * 0.1)
        mon.raises("time-mismatch", ValueError, lambda: COSTS(svd_rank=2).fit(X, tt, 20, 3))
    mon.raises("odd-rank", ValueError, lambda: COSTS(svd_rank=3, global_svd=False).fit(X, T, 20, 5))
    big = n + 1 + (n + 1) % 2
    mon.raises("large-rank", ValueError, lambda: COSTS(svd_rank=big, global_svd=False).fit(X, T, 20, 5))
    c = COSTS(svd_rank=2)
    mon.raises("unfitted", ValueError, c.periods)
    c.fit(X, T, 20, 5)
    bad = pick(rng, ["bad", "Absolute", "", "squared", 3])
    mon.raises("transform", ValueError, lambda: c.cluster_omega(2, transform_method=bad))
    mon.raises("transform-global", ValueError, lambda: mrCOSTS.transform_omega(
        np.array([1j, 2j]), transform_method=bad))
    mon.raises("no-fit-predict", ValueError, lambda: c.cluster_omega(
        2, transform_method="absolute", method=dict))
    mon.raises("lengths", ValueError, lambda: mrCOSTS(
        window_length_array=[10, 20], step_size_array=[2, 3], n_components_array=[2]))
    mr = mrCOSTS(window_length_array=[20], step_size_array=[4], svd_rank_array=[2],
                 n_components_array=[2], cluster_sweep=True)
    mon.raises("sweep-and-array", ValueError, lambda: mr.fit(X, T, verbose=False))
    mr = mrCOSTS(window_length_array=[20], step_size_array=[4], svd_rank_array=[2],
                 n_components_array=[2])
    for a in ("ragged_omega_array", "ragged_modes_array", "ragged_amplitudes_array",
              "omega_classes_interpolated", "ragged_omega_classes", "n_components_global",
              "cluster_centroids"):
        mon.raises("unfitted-" + a, ValueError, lambda: getattr(mr, a))
    mr.fit(X, T, verbose=False)
    mon.raises("no-n-components", ValueError, lambda: mr.global_cluster_omega())
    mon.raises("unfitted-classes", ValueError, lambda: mr.omega_classes_interpolated)
    mon.sig("reject", n)


WORKLOADS = {
    "fit": dict(fn=w_fit, quick=40, thorough=800),
    "bands": dict(fn=w_bands, quick=110, thorough=2500),
    "local-rank": dict(fn=w_local_rank, quick=16, thorough=200),
    "multi": dict(fn=w_multi, quick=30, thorough=500),
    "global": dict(fn=w_global, quick=60, thorough=1200),
    "reject": dict(fn=w_reject, quick=4, thorough=20),
}
REQUIRED = {"window-fit": 30, "bands": 40, "ragged-classes": 300, "files-omega_array": 4}
