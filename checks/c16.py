"""C16: MrDMD - level by level decomposition into slow modes."""

import contextlib
import io
import warnings

import numpy as np

from pydmd import DMD, FbDMD, HankelDMD, MrDMD, SpDMD
from vmon import gen
from vmon.core import Skip
from vmon.gen import as_layout, linear_system, pick, random_data

RULE = (
    "MrDMD on noisy multi-scale and unstructured series with random numbers of "
    "levels, cycles and sub-DMDs (one instance, a list, a function); every level "
    "is replayed on the residual of the levels above with stand-alone models; "
    "distinct = distinct (sub-DMD, style, levels, length, cycles, dtype) tuples."
)
ASSUMPTIONS = [
    "bins with an eigenvalue within 1e-4 (relative) of the slowness threshold "
    "and everything below them are not judged against the replay",
]
CASE_TIMEOUT = 90


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()) as out:
        warnings.simplefilter("ignore")
        yield out


def series(rng, n, m, cplx):
    k = pick(rng, ["multi", "multi", "random", "drift"])
    t = np.arange(m)
    if k == "random":
        X = rng.standard_normal((n, m)) + (1j * rng.standard_normal((n, m)) if cplx else 0)
    elif k == "drift":
        X = np.outer(rng.standard_normal(n), 1 + t / m) + 0.2 * rng.standard_normal((n, m))
        if cplx:
            X = X * np.exp(1j * rng.uniform(0, 6, n))[:, None]
    else:
        X = np.zeros((n, m), complex)
        for j in range(int(rng.integers(1, 5))):
            w = 2 * np.pi / m * 10.0 ** rng.uniform(-0.6, 1.2)
            a = rng.standard_normal(n) + 1j * rng.standard_normal(n)
            g = np.exp((1j * w + rng.uniform(-1, 1) / m) * t)
            if rng.random() < 0.4:  # intermittent
                lo = int(rng.integers(0, m // 2))
                g = g * ((t >= lo) & (t < lo + m // 3))
            X += np.outer(a, g)
        X = X if cplx else X.real
        X = X + 1e-2 * rng.standard_normal((n, m))
    return k, X


def sub(rng, seed_kind=None):
    """(name, builder of a fresh sub DMD)"""
    k = pick(rng, ["DMD", "DMD", "DMD", "Hankel", "Fb"])
    r = pick(rng, [-1, 2, 3, 4])
    if k == "DMD":
        kw = dict(svd_rank=r, exact=bool(rng.integers(2)), opt=pick(rng, [False, True]),
                  tlsq_rank=0)
        return k, kw, lambda: DMD(**kw)
    if k == "Fb":
        kw = dict(svd_rank=2, exact=True)
        return k, kw, lambda: FbDMD(**kw)
    kw = dict(svd_rank=pick(rng, [2, 3, 4]), d=2, exact=True)
    return k, kw, lambda: HankelDMD(**kw)


def cap(m, asked):
    return min(asked, int(np.floor(np.log2(m / 4) + 1e-9)) + 1)


def replay(rng, mon):
    m = int(rng.integers(8, 130))
    n = int(rng.integers(2, 9))
    cplx = bool(rng.random() < 0.35)
    sk, X = series(rng, n, m, cplx)
    if rng.random() < 0.1 and not cplx:
        X = np.round(X * 50).astype(np.int64)
    name, kw, build = sub(rng)
    asked = int(rng.integers(0, 5))
    if name == "Hankel":
        asked = min(asked, max(0, cap(m, 9) - 1))
    cyc = pick(rng, [1, 1, 2, 3, 0.5])
    style = pick(rng, ["one", "list", "tuple", "fn"])
    calls = []

    def fn(level, leaf):
        calls.append((level, leaf))
        return build()

    dm = {"one": build(), "list": [build() for _ in range(asked + 1)],
          "tuple": tuple(build() for _ in range(asked + 1)), "fn": fn}[style]
    where = f"{name}{kw} {style} levels={asked} cycles={cyc} {sk} {X.shape} {X.dtype}"
    mon.describe(where=where)
    mon.sig(name, style, asked, m // 16, cyc, cplx, sk)
    L = cap(m, asked)
    try:
        with quiet():
            d = MrDMD(dm, max_level=asked, max_cycles=cyc).fit(as_layout(rng, X))
    except np.linalg.LinAlgError:
        if name == "Fb" or m // 2 ** L <= 8:
            raise Skip()  # singular residual in a bin of a few snapshots
        raise
    if not mon.eq("levels", d.max_level, L, where):
        return
    if style == "fn":
        mon.ok("builder-sees-nodes", {(l, k) for l in range(L + 1) for k in range(2 ** l)}
               <= set(calls), where)
    nodes = list(d.enumerate())
    mon.eq("nodes", [(l, k) for l, k, _ in nodes],
           [(l, k) for l in range(L + 1) for k in range(2 ** l)], where)
    mon.ok("fitted", d.fitted, where)
    # replay with stand-alone models
    R = X.astype(np.result_type(X, float)).copy()
    judged = 0
    total = np.zeros((n, m), complex)
    alive = True
    for lev in range(L + 1):
        parts = np.array_split(R, 2 ** lev, axis=1)
        rec = []
        for k, x in enumerate(parts):
            thr = 2 * np.pi * cyc / x.shape[1]
            eig = d.partial_eigs(lev, k)
            with np.errstate(all="ignore"):
                mon.ok("slow-only", np.all(np.abs(np.log(eig)) < thr * (1 + 1e-12)),
                       f"{where} level {lev} bin {k}: {eig}")
            mine = d.partial_reconstructed_data(lev, k)
            if alive:
                with quiet():
                    ref = build().fit(x)
                e = ref.eigs
                with np.errstate(all="ignore"):
                    speed = np.abs(np.log(e)) / thr
                if np.any(np.abs(speed - 1) < 1e-4):
                    mon.event("threshold-tie")
                    alive = False
                else:
                    keep = speed < 1
                    if keep.sum() != len(eig):
                        # near-defective spectra: the count itself is unstable
                        s = np.linalg.svd(x, compute_uv=False)
                        if s[-1] < 1e-6 * s[0]:
                            alive = False
                            mon.event("ill-conditioned")
                        else:
                            mon.ok("slow-count", False, f"{where} level {lev} bin {k}: "
                                   f"{len(eig)} kept, {keep.sum()} slow of {e}")
                    elif keep.any():
                        ref.modes_activation_bitmask = keep
                        want = ref.reconstructed_data
                        s = np.linalg.svd(x, compute_uv=False)
                        q = np.linalg.cond(ref.modes)
                        if s[-1] > 1e-6 * s[0] and q < 1e5:
                            mon.ok("slow-count", True)
                            mon.le("slow-eigs", gen.match_eigs(eig, e[keep])[0],
                                   1e-4 * max(1, np.abs(e).max()), f"{where} level {lev} bin {k}")
                            mon.close("slow-part", mine, want, 1e-4,
                                      f"{where} level {lev} bin {k}",
                                      scale=max(np.abs(x).max(), np.abs(want).max()))
                            judged += 1
                    else:
                        mon.ok("slow-count", True)
                        mon.ok("nothing-slow", np.all(mine == 0), where)
            rec.append(mine)
        mon.eq("bin-lengths", [r.shape[1] for r in rec], [p.shape[1] for p in parts], where)
        rec = np.hstack(rec)
        mon.close("level", d.partial_reconstructed_data(lev), rec, 1e-12, where,
                  scale=max(1e-300, np.abs(rec).max()))
        total += rec
        R = R - (rec if np.iscomplexobj(R) else rec.real)
    mon.event("bins-judged", judged)
    sc = max(np.abs(total).max(), np.abs(X).max(), 1e-300)
    out = d.reconstructed_data
    mon.close("levels-add-up", out, total, 1e-9, where, scale=sc)
    api(rng, mon, d, X, name, where, sc)


def api(rng, mon, d, X, name, where, sc):
    m = X.shape[1]
    L = d.max_level
    tree = {(l, k): s for l, k, s in d.enumerate()}
    per = lambda f: [f(tree[l, k]) for l in range(L + 1) for k in range(2 ** l)]
    mon.close("eigs", d.eigs, np.concatenate(per(lambda s: s.eigs)), 1e-14, where)
    mon.close("amplitudes", d.amplitudes, np.concatenate(per(lambda s: s.amplitudes)), 1e-14, where)
    mon.close("modes", d.modes, np.hstack(per(lambda s: s.modes)), 1e-14, where)
    if name != "Hankel":
        dyn = d.dynamics
        mon.eq("dynamics-shape", dyn.shape, (len(d.eigs), m), where)
        mon.close("modes-x-dynamics", d.modes @ dyn, d.reconstructed_data, 1e-9, where,
                  scale=max(sc, np.abs(dyn).max() if dyn.size else 0))
        # a mode acts only inside its own bin
        row = 0
        for l in range(L + 1):
            start = 0
            for k in range(2 ** l):
                s = tree[l, k]
                q = len(s.eigs)
                w = s.dynamics.shape[1] if q else len(s.original_timesteps)
                blk = dyn[row:row + q]
                mon.ok("only-own-bin", np.all(blk[:, :start] == 0)
                       and np.all(blk[:, start + w:] == 0), where)
                row += q
                start += w
    # time windows
    a, b = np.sort(rng.uniform(0, m, 2))
    if rng.random() < 0.3:
        g = m / 2 ** int(rng.integers(0, L + 1))
        a = g * int(rng.integers(0, max(1, int(m / g))))
        b = a + g
    bins = [(l, k) for l in range(L + 1) for k in range(2 ** l)
            if k * m / 2 ** l < b and (k + 1) * m / 2 ** l > a]
    got = [tuple(int(v) for v in x) for x in d.time_window_bins(a, b)]
    mon.eq("window-bins", got, bins, f"{where} [{a},{b}]")
    if got == bins:
        for f, g in (("eigs", lambda s: s.eigs), ("frequency", lambda s: s.frequency),
                     ("growth_rate", lambda s: s.growth_rate),
                     ("amplitudes", lambda s: s.amplitudes)):
            mon.close("window-" + f, getattr(d, "time_window_" + f)(a, b),
                      np.concatenate([g(tree[x]) for x in bins]), 1e-14, where)
    l = int(rng.integers(0, L + 1))
    k = int(rng.integers(0, 2 ** l))
    ti = d.partial_time_interval(l, k)
    mon.close("interval", [ti["t0"], ti["tend"], ti["delta"]],
              [k * m / 2 ** l, (k + 1) * m / 2 ** l, m / 2 ** l], 1e-12, where)
    for f in ("modes", "eigs", "amplitudes", "dynamics"):
        one = getattr(d, "partial_" + f)(l, k)
        mon.close("partial-node", one, getattr(tree[l, k], f), 1e-14, f"{where} {f}")
        whole = getattr(d, "partial_" + f)(l)
        sizes = [len(tree[l, j].eigs) for j in range(2 ** l)]
        lo = sum(sizes[:k])
        if f == "modes":
            sel = whole[:, lo:lo + sizes[k]]
        elif f == "dynamics":
            w = [len(tree[l, j].original_timesteps) for j in range(2 ** l)]
            if name == "Hankel":
                continue
            sel = whole[lo:lo + sizes[k], sum(w[:k]):sum(w[:k + 1])]
        else:
            sel = whole[lo:lo + sizes[k]]
        mon.close("partial-level", sel, one, 1e-14, f"{where} {f}")
    for f in ("partial_modes", "partial_eigs", "partial_dynamics", "partial_amplitudes",
              "partial_reconstructed_data", "partial_time_interval"):
        mon.raises("no-such-level", ValueError, lambda: getattr(d, f)(L + 1, 0), f)
        mon.raises("no-such-node", ValueError, lambda: getattr(d, f)(l, 2 ** l), f)


def truth(rng, mon):
    """Exact linear data: level 0 holds exactly the slow part of the signal."""
    m = int(rng.integers(24, 100))
    cplx = bool(rng.random() < 0.4)
    s = linear_system(rng, r=int(rng.integers(2, 6)), m=m, real=not cplx, rho=(0.985, 1.005),
                      max_cond=1e3, sep=0.15)
    cyc = pick(rng, [1, 2, 4])
    thr = 2 * np.pi * cyc / m
    sp = np.abs(np.log(s.eigs))
    if np.any(np.abs(sp / thr - 1) < 0.02):
        raise Skip()
    slow = sp < thr
    exact = bool(rng.integers(2))
    opt = bool(rng.random() < 0.4) and exact
    X = s.X
    E = np.power(s.eigs[:, None].astype(complex), np.arange(m)[None])
    with quiet():
        d = MrDMD(DMD(svd_rank=len(s.eigs), exact=exact, opt=opt),
                  max_level=int(rng.integers(0, 3)), max_cycles=cyc).fit(X)
    where = f"truth r={len(s.eigs)} slow={slow.sum()} m={m} cycles={cyc} exact={exact} opt={opt}"
    mon.describe(where=where)
    mon.sig("truth", len(s.eigs), int(slow.sum()), cyc, cplx, exact, opt)
    e = d.partial_eigs(0)
    if mon.eq("true-count", len(e), int(slow.sum()), where) and slow.any():
        mon.le("true-slow-eigs", gen.match_eigs(e, s.eigs[slow])[0], 1e-6, where)
    mon.close("true-slow-part", d.partial_reconstructed_data(0), (s.Phi * s.b)[:, slow] @ E[slow], 1e-5,
              where, scale=np.abs(X).max())


def refit(rng, mon):
    """The level cap belongs to the data of each fit, not to the instance."""
    asked = int(rng.integers(2, 5))
    with quiet():
        d = MrDMD(DMD(svd_rank=2), max_level=asked)
        for _ in range(3):
            m = int(rng.integers(4, 90))
            X = random_data(rng, n=4, m=m, cplx=False)
            d.fit(X)
            mon.eq("cap-per-fit", d.max_level, cap(m, asked), f"m={m} asked {asked}")
            mon.eq("shape-per-fit", d.reconstructed_data.shape, X.shape, f"m={m}")
    mon.sig("refit", asked, m // 16)
    # one prototype, two decompositions: neither sees the other
    proto = DMD(svd_rank=2, opt=bool(rng.integers(2)))
    with quiet():
        one = MrDMD(proto, max_level=min(asked, 2)).fit(random_data(rng, n=4, m=m, cplx=False))
        keep = np.array(one.reconstructed_data), [np.array(e) for e in (one.eigs, one.amplitudes)]
        how = pick(rng, ["mrdmd", "proto"])
        Z = random_data(rng, n=5, m=24, cplx=True)
        MrDMD(proto, max_level=1).fit(Z) if how == "mrdmd" else proto.fit(Z)
    mon.ok("prototype-not-shared", np.array_equal(keep[0], one.reconstructed_data), f"{how} m={m}")
    mon.ok("prototype-not-shared", np.array_equal(keep[1][0], one.eigs)
           and np.array_equal(keep[1][1], one.amplitudes), f"{how} m={m}")
    k = int(rng.integers(1, 5))
    mon.raises("list-length", ValueError,
               lambda: MrDMD([DMD() for _ in range(k)], max_level=pick(rng, [k, k + 1])), "list")
    # scaling the data scales the result
    X = random_data(rng, n=5, m=int(rng.integers(16, 70)), cplx=bool(rng.integers(2)), scale=1.0,
                    decay=0.0)
    c = 2.0 ** int(rng.integers(-20, 20))
    with quiet():
        a = MrDMD(DMD(svd_rank=3), max_level=2).fit(X)
        b = MrDMD(DMD(svd_rank=3), max_level=2).fit(X * c)
    mon.close("homogeneous", b.reconstructed_data, a.reconstructed_data * c, 1e-6, "scale",
              scale=max(1e-300, np.abs(X).max() * c, np.abs(a.reconstructed_data).max() * c))


WORKLOADS = {
    "replay": {"fn": replay, "quick": 500, "thorough": 7000},
    "truth": {"fn": truth, "quick": 400, "thorough": 5000},
    "refit": {"fn": refit, "quick": 120, "thorough": 1500},
}
REQUIRED = {"slow-part": 300, "slow-only": 1500, "levels-add-up": 300, "window-bins": 300,
            "true-slow-part": 150, "cap-per-fit": 150}
