"""C05: amplitudes are the documented least-squares coefficients."""

import numpy as np

from pydmd import CDMD, DMD, EDMD, RDMD, FbDMD, HankelDMD, HODMD, SubspaceDMD, DMDc
from vmon.core import Skip
from vmon.gen import as_layout, linear_system, pick, random_data

RULE = (
    "Random class x opt in {False, True, positive/negative snapshot index} x "
    "exact/projected modes x rescaling/TLSQ/sorting on generic noisy data; "
    "amplitudes are compared with an independent least-squares solution for "
    "the published modes and eigenvalues; distinct = distinct (class, opt "
    "kind, option) tuples."
)
ASSUMPTIONS = [
    "least-squares problems with condition number below 1e6 (2e3 for the normal equations of opt=True)",
    "opt=True with projected modes deviates as recorded in the known finding "
    "opt-projected-normal-equations; any other deviation is a violation",
]


def vander(eigs, m):
    return np.power(np.asarray(eigs, dtype=complex)[:, None], np.arange(m)[None])


def design(modes, V):
    """columns: vec of mode_k * V_k"""
    n, r = modes.shape
    return np.stack([np.outer(modes[:, k], V[k]).ravel() for k in range(r)], 1)


def judge_opt(mon, tag, modes, eigs, amps, S, exact):
    m = S.shape[1]
    V = vander(eigs, m)
    A = design(modes, V)
    c = np.linalg.cond(A)
    if not np.isfinite(c) or c > 2e3:
        raise Skip()
    best = np.linalg.lstsq(A, S.ravel().astype(complex), rcond=None)[0]
    err = np.linalg.norm(A @ (amps - best)) / np.linalg.norm(S)
    mon.event("opt-evaluated")
    if exact:
        mon.close("optimal-amplitudes", err, 0.0, 1e-6, tag, scale=1.0)
        return
    if err <= 1e-6:
        mon._hit("optimal-amplitudes", err / 1e-6)
        return
    # known deviation: instants on the left: all, on the right: all but last
    P = (modes.conj().T @ modes) * np.conj(V @ V.conj().T)
    q = np.conj(np.diag(V[:, : m - 1] @ S[:, : m - 1].conj().T @ modes))
    bad = np.linalg.lstsq(P, q, rcond=None)[0]
    e2 = np.linalg.norm(A @ (amps - bad)) / np.linalg.norm(S)
    mon._hit("optimal-amplitudes")
    mon.fail("optimal-amplitudes", "%s rel err %.2e / %.2e" % (tag, err, e2),
             "opt-projected-normal-equations" if e2 < 1e-6 else None)


def amplitudes(rng, mon):
    name = pick(rng, ["DMD", "DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "EDMD",
                      "HankelDMD", "HODMD", "DMDc"])
    n, m = int(rng.integers(2, 14)), int(rng.integers(7, 20))
    if rng.random() < 0.04:
        n, m = int(rng.integers(30, 80)), int(rng.integers(30, 80))
    cplx = False if name == "EDMD" else bool(rng.integers(2))
    kind_data = rng.random()
    r = None
    if kind_data < 0.4:
        S = random_data(rng, n, m, cplx)
    elif kind_data < 0.6 and name not in ("EDMD", "HankelDMD", "HODMD"):
        # nearly parallel modes: ill-conditioned but solvable
        s = linear_system(rng, r=int(rng.integers(2, 4)), real=False, unit=True, sep=0.8)
        n, m, r = s.n, s.m, s.r
        cplx = True
        s.Phi[:, 1] = s.Phi[:, 0] + 10 ** rng.uniform(-5, -2) * s.Phi[:, 1]
        S = s.X
    else:
        s = linear_system(rng, real=not cplx)
        n, m = s.n, s.m
        S = s.X + 0.05 * rng.standard_normal((n, m))
    d = int(rng.integers(1, 4)) if name in ("HankelDMD", "HODMD") else 1
    nw = m - d + 1
    kmax = min(n * d, nw - 1)
    r = int(rng.integers(1, min(6, kmax) + 1)) if r is None else r
    opt = pick(rng, [False, True, True, 0, int(rng.integers(0, nw - 1)),
                     -int(rng.integers(1, nw)), np.int64(rng.integers(0, nw - 1))])
    exact = bool(rng.integers(2))
    resc = pick(rng, [None, None, "auto", rng.uniform(0.3, 3, r)])
    sort = pick(rng, [False, "abs", "real"])
    tl = pick(rng, [0, 0, r, min(r + 1, kmax)])
    kw = dict(svd_rank=r, tlsq_rank=tl, opt=opt, rescale_mode=resc, sorted_eigs=sort)
    pairs = False
    if name in ("DMD", "FbDMD"):
        kw.update(exact=exact)
        pairs = rng.random() < 0.25
    elif name in ("HankelDMD", "HODMD"):
        kw.update(exact=exact, d=d)
        if name == "HODMD":
            kw.update(svd_rank_extra=-1)
    elif name == "CDMD":
        kw.update(compression_matrix=rng.standard_normal((kmax + 2, n)))
    elif name == "RDMD":
        kw.update(seed=1)
    elif name == "SubspaceDMD":
        kw = dict(svd_rank=r, opt=opt, sorted_eigs=sort,
                  rescale_mode=pick(rng, [None, "auto"]))
    elif name == "EDMD":
        kw = dict(svd_rank=r, opt=opt, tlsq_rank=tl)
        pairs = rng.random() < 0.25
    elif name == "DMDc":
        kw = dict(svd_rank=r, opt=opt)
    if name in ("CDMD", "RDMD", "SubspaceDMD", "EDMD"):
        exact = True
    if name == "DMDc":
        exact = False
    cls = dict(DMD=DMD, FbDMD=FbDMD, CDMD=CDMD, RDMD=RDMD, EDMD=EDMD,
               HankelDMD=HankelDMD, HODMD=HODMD, SubspaceDMD=SubspaceDMD, DMDc=DMDc)[name]
    mon.describe(cls=name, n=n, m=m, r=r, opt=opt, exact=exact, tl=tl, sort=sort, d=d,
                 pairs=pairs, cplx=cplx)
    dmd = cls(**kw)
    try:
        if name == "DMDc":
            u = rng.standard_normal((1, m - 1))
            if rng.integers(2):
                dmd.fit(as_layout(rng, S), u)
            else:
                dmd.fit(as_layout(rng, S), u, rng.standard_normal((n, 1)))
        elif pairs:
            dmd.fit(as_layout(rng, S), as_layout(rng, random_data(rng, n, m, cplx)))
        else:
            dmd.fit(as_layout(rng, S))
    except np.linalg.LinAlgError:
        raise Skip()
    H = S
    if name == "HankelDMD":
        H = np.vstack([S[:, k : k + nw] for k in range(d)])
    elif name == "HODMD":
        Z = np.linalg.svd(S, full_matrices=False)[0].conj().T @ S
        H = np.vstack([Z[:, k : k + nw] for k in range(d)])
    modes, eigs, amps = map(np.asarray, (dmd.modes, dmd.eigs, dmd.amplitudes))
    if name == "HODMD":
        # basis of the projection is defined up to phases: use the model's own
        H = np.asarray(dmd.ho_snapshots)
    if not (np.all(np.isfinite(modes)) and np.all(np.isfinite(eigs))):
        raise Skip()
    kind = repr(opt) if isinstance(opt, (bool, np.bool_)) else ("neg" if opt < 0 else "idx")
    mon.sig(name, kind, exact, "arr" if isinstance(resc, np.ndarray) else resc, sort,
            tl > 0, pairs, cplx)
    mon.event("opt:" + kind)
    if isinstance(opt, bool) and opt:
        # DMD.fit(X, Y): every snapshot of X enters, as for exact modes
        judge_opt(mon, name, modes, eigs, amps, H, exact or pairs)
        return
    k = 0 if isinstance(opt, bool) else int(opt)
    x = H[:, k]
    c = np.linalg.cond(modes)
    if not np.isfinite(c) or c > 1e6:
        raise Skip()
    best = np.linalg.lstsq(modes, x, rcond=None)[0]
    mon.close("snapshot-amplitudes", modes @ amps, modes @ best, 1e-6,
              "%s opt=%r" % (name, opt), scale=np.abs(x).max())
    mon.close("snapshot-amplitudes-unique", amps, best, 1e-6 * max(1, c),
              "%s opt=%r" % (name, opt))
    if name not in ("HankelDMD", "HODMD", "DMDc"):
        # ... and that snapshot is the one reproduced best at its own instant
        kk = k if k >= 0 else H.shape[1] + k
        rec = np.asarray(dmd.reconstructed_data)[:, kk]
        if np.all(np.isfinite(rec)) and np.all(np.abs(eigs) > 1e-8):
            mon.close("snapshot-reproduced", rec, modes @ best, 1e-6, name,
                      scale=np.abs(x).max())


WORKLOADS = {"amplitudes": {"fn": amplitudes, "quick": 7000, "thorough": 150000}}
REQUIRED = {
    "optimal-amplitudes": 500,
    "snapshot-amplitudes": 1500,
    "snapshot-amplitudes-unique": 1500,
    "snapshot-reproduced": 800,
}
