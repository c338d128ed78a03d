"""C04: modes/eigenvalues are the eigenpairs of the documented low-rank
least-squares operator, for every option combination and any data."""

import numpy as np
import scipy.linalg as sla

from pydmd import CDMD, DMD, EDMD, RDMD, FbDMD, HankelDMD, HODMD, OptDMD, SpDMD, SubspaceDMD
from pydmd.utils import compute_rqb
from vmon.core import Skip
from vmon.gen import as_layout, match_eigs, pick, random_data

RULE = (
    "Generic noisy data (no exact linear law) x class x {rank, TLSQ, "
    "rescaling, exact/projected, Tikhonov, sorting, forward-backward, delay, "
    "compression} options; the fitted eigenvalues and modes are compared with "
    "an independent dense computation of the defining operator; distinct = "
    "distinct (class, option) tuples with well separated eigenvalues."
)
ASSUMPTIONS = [
    "eigenvalues separated by >1e-3 and eigenvector condition number <1e4, "
    "otherwise round-off decides (skipped)",
    "forward-backward: the recorded deviation fb-basis is reported as a known "
    "finding, anything else is a violation",
]


def ref_tlsq(X, Y, k):
    if k == 0:
        return X, Y
    Vh = sla.svd(np.vstack([X, Y]), full_matrices=False)[2]
    P = Vh[:k].conj().T @ Vh[:k]
    return X @ P, Y @ P


def trunc(X, r):
    U, s, Vh = np.linalg.svd(X, full_matrices=False)
    return U[:, :r], s[:r], Vh[:r].conj().T


def eff(s, tik, nrm):
    return s if tik is None else (s**2 + tik * nrm) / s


def ref_operator(X, Y, r, tik, fb):
    """Returns U, list of (label, atilde), Yfull->modes factor V/s."""
    U, s, V = trunc(X, r)
    nrm = np.linalg.norm(X)
    se = eff(s, tik, nrm)
    f = (U.conj().T @ Y @ V) / se
    if not fb:
        return U, [("ok", f)], V / se, s
    bU, bs, bV = trunc(Y, r)
    bse = eff(bs, tik, nrm)
    back = (bV / bse) @ bU.conj().T
    good = U.conj().T @ X @ back @ U
    bad = (bU.conj().T @ X @ bV) / bse
    out = []
    for lab, b in (("ok", good), ("fb-basis", bad)):
        if np.linalg.cond(b) > 1e4 or np.linalg.cond(f) > 1e4:
            raise Skip()
        p = f @ np.linalg.inv(b)
        ev = np.linalg.eigvals(p)
        if np.any((ev.real < 0) & (np.abs(ev.imag) < 1e-3 * np.abs(ev))):
            raise Skip()  # principal square root is discontinuous here
        out.append((lab, sla.sqrtm(p)))
    return U, out, V / se, s


def compare(mon, tag, eigs, modes, at, basis_fn, kind):
    """eigs/modes vs eigenpairs of `at`; basis_fn maps w -> full mode."""
    lam, W = np.linalg.eig(at)
    r = len(lam)
    if r > 1:
        D = np.abs(lam[:, None] - lam[None]) + 1e9 * np.eye(r)
        if D.min() < 1e-3 * max(1e-12, np.abs(lam).max()):
            raise Skip()
    if np.linalg.cond(W) > 1e4:
        raise Skip()
    scale = max(1e-9, np.abs(lam).max())
    dist, perm = match_eigs(lam, eigs)
    good = dist <= 1e-6 * scale
    ref = basis_fn(W)
    got = np.asarray(modes)[:, perm]
    cos = []
    for k in range(r):
        if abs(lam[k]) < 1e-8 * scale:
            continue
        a, b = got[:, k], ref[:, k]
        na, nb = np.linalg.norm(a), np.linalg.norm(b)
        if nb < 1e-10:
            continue
        cos.append(1 - abs(np.vdot(a, b)) / max(na * nb, 1e-300))
    mism = max(cos) if cos else 0.0
    return good, mism, dist / scale


def judge(mon, tag, eigs, modes, ats, basis_fn, phases=False):
    best = None
    for lab, at in ats:
        try:
            good, mism, d = compare(mon, tag, eigs, modes, at, basis_fn, lab)
        except Skip:
            if len(ats) == 1:
                raise
            continue
        if best is None or (d, mism) < best[1:3]:
            best = (lab, d, mism)
        if good and mism < 1e-6:
            mon._hit("eigenvalues", d / 1e-6)
            mon._hit("modes", mism / 1e-6)
            if lab != "ok":
                mon.fail("eigenvalues", tag + " forward-backward basis mismatch", lab)
            return
    if best is None:
        raise Skip()
    if phases and len(ats) == 2:
        # two bases: the result also depends on the (arbitrary) phases of the
        # singular vectors, which only leaves the determinant well defined
        a, b = abs(np.prod(eigs)), abs(np.linalg.det(ats[1][1]))
        if mon.close("fb-determinant", a, b, 1e-5, tag):
            mon.fail("eigenvalues", tag + " forward-backward basis mismatch",
                     "fb-basis")
        return
    mon.close("eigenvalues", best[1], 0.0, 1e-6, tag, scale=1.0)
    mon.close("modes", best[2], 0.0, 1e-6, tag, scale=1.0)


def check_sort(mon, tag, eigs, how):
    e = np.asarray(eigs)
    if how == "abs":
        a = np.abs(e)
        mon.ok("sorted-abs", np.all(np.diff(a) >= -1e-12 * max(1, a.max())), tag)
    elif how == "real":
        for x, y in zip(e[:-1], e[1:]):
            tie = abs(x.real - y.real) < 1e-9 * max(1, abs(x))
            mon.ok("sorted-real", x.real < y.real or tie, tag)
            if x.real == y.real:
                mon.ok("sorted-real-ties", x.imag <= y.imag, tag)


def operators(rng, mon):
    name = pick(rng, ["DMD", "DMD", "DMD", "FbDMD", "CDMD", "RDMD", "EDMD", "SpDMD",
                      "HankelDMD", "HODMD"])
    n, m = int(rng.integers(2, 14)), int(rng.integers(6, 20))
    if rng.random() < 0.04:
        n, m = int(rng.integers(30, 80)), int(rng.integers(30, 80))
    cplx = False if name == "EDMD" else bool(rng.integers(2))
    S = random_data(rng, n, m, cplx, decay=rng.uniform(0.6, 0.95))
    d = 1
    if name in ("HankelDMD", "HODMD"):
        d = int(rng.integers(1, 4))
    H = np.vstack([S[:, k : k + m - d + 1] for k in range(d)])
    kmax = min(n * d, m - d)
    tl = 0
    if rng.random() < 0.3:
        tl = int(rng.integers(1, kmax + 1))
    r = int(rng.integers(1, min(14, tl or kmax) + 1))
    tik = None
    if name in ("DMD", "CDMD", "RDMD", "HankelDMD") and rng.random() < 0.3:
        tik = pick(rng, [0, float(10 ** rng.uniform(-5, 1))])
    fb = name == "FbDMD" or (name != "EDMD" and rng.random() < 0.12)
    exact = bool(rng.integers(2))
    resc = pick(rng, [None, None, "auto", rng.uniform(0.3, 3.0, r)])
    sort = pick(rng, [False, False, "abs", "real"])
    kw = dict(svd_rank=r, tlsq_rank=tl, rescale_mode=resc, sorted_eigs=sort)
    C = None
    if name in ("DMD", "HankelDMD"):
        kw.update(exact=exact, forward_backward=fb, tikhonov_regularization=tik)
    elif name in ("SpDMD", "HODMD"):
        kw.update(exact=exact, forward_backward=fb)
    elif name == "FbDMD":
        kw.update(exact=exact)
    elif name in ("CDMD", "RDMD"):
        kw.update(forward_backward=fb, tikhonov_regularization=tik)
        exact = True
    elif name == "EDMD":
        kw = dict(svd_rank=r, tlsq_rank=tl)
        exact, resc, sort = False, None, False
    pairs = name in ("DMD", "FbDMD", "EDMD") and rng.random() < 0.3
    mon.describe(cls=name, n=n, m=m, r=r, tl=tl, tik=tik, fb=fb, exact=exact,
                 resc=resc if not isinstance(resc, np.ndarray) else "arr",
                 sort=sort, d=d, cplx=cplx, pairs=pairs)
    Zc = H
    if name == "CDMD":
        C = rng.standard_normal((int(rng.integers(kmax, kmax + 5)), n))
        if rng.integers(2):
            C = C + 1j * rng.standard_normal(C.shape)
        kw["compression_matrix"] = C
    if name == "RDMD":
        kw.update(seed=5, oversampling=4, power_iters=1)
    if name == "SpDMD":
        kw.update(verbose=False, max_iterations=5)
    if name == "HankelDMD":
        kw.update(d=d)
    if name == "HODMD":
        kw.update(d=d, svd_rank_extra=-1)
    cls = dict(DMD=DMD, FbDMD=FbDMD, CDMD=CDMD, RDMD=RDMD, EDMD=EDMD, SpDMD=SpDMD,
               HankelDMD=HankelDMD, HODMD=HODMD)[name]
    # the same rank asked for as a fraction of the energy of the data matrix
    asked = "count"
    if name in ("DMD", "FbDMD", "CDMD", "HankelDMD") and not pairs and rng.random() < 0.3:
        Zr = C @ S if name == "CDMD" else H
        sr = np.linalg.svd(ref_tlsq(Zr[:, :-1], Zr[:, 1:], tl)[0], compute_uv=False)
        cum = np.concatenate([[0.0], np.cumsum(sr**2) / np.sum(sr**2)])
        if cum[r] - cum[r - 1] > 1e-6 and not isinstance(resc, np.ndarray):
            kw["svd_rank"] = float((cum[r] + cum[r - 1]) / 2)
            asked = "energy"
    dmd = cls(**kw)
    if pairs:
        Y0 = random_data(rng, n, m, cplx)
        dmd.fit(as_layout(rng, S), as_layout(rng, Y0))
        X, Y, Yfull = S, Y0, Y0
    else:
        dmd.fit(as_layout(rng, S))
        if name == "CDMD":
            Zc = C @ S
        elif name == "RDMD":
            Q = compute_rqb(S, r, 4, 1, None, 5).Q
            Zc = Q.conj().T @ S
        elif name == "HODMD":
            U0 = np.linalg.svd(S, full_matrices=False)[0]
            Z = U0.conj().T @ S
            H = Zc = np.vstack([Z[:, k : k + m - d + 1] for k in range(d)])
        X, Y = Zc[:, :-1], Zc[:, 1:]
        Yfull = H[:, 1:]
    X, Yt = ref_tlsq(X, Y, tl)
    if name in ("CDMD", "RDMD"):
        Yfull = S[:, 1:]
    else:
        Yfull = Yt
    sv = np.linalg.svd(X, compute_uv=False)
    if sv[r - 1] < 1e-5 * sv[0] or (r < len(sv) and sv[r - 1] - sv[r] < 1e-4 * sv[0]):
        raise Skip()
    U, ats, VS, s = ref_operator(X, Yt, r, tik, fb)
    basis = (lambda W: Yfull @ (VS @ W)) if exact else (lambda W: U @ W)
    if resc is not None and fb and False:
        raise Skip()
    eigs, modes = np.asarray(dmd.eigs), np.asarray(dmd.modes)
    if not mon.eq("count", (len(eigs), modes.shape[1]), (r, r), name):
        return
    mon.sig(name, tl > 0, tik is not None, fb, exact,
            "arr" if isinstance(resc, np.ndarray) else resc, sort, d, cplx, pairs, asked)
    judge(mon, name, eigs, modes, ats, basis, phases=cplx or tl > 0 or C is not None)
    check_sort(mon, name, eigs, sort)
    mon.event("fit:" + name)
    if name != "EDMD":
        op = dmd.operator
        A = np.asarray(op.as_numpy_array)
        mon.eq("operator-shape", tuple(op.shape), (r, r), name)
        v = rng.standard_normal(r)
        mon.close("operator-apply", op(v), A @ v, 1e-10, name,
                  scale=max(1e-12, np.abs(A).max()))
        if resc is None:
            W = np.asarray(op.eigenvectors)
            mon.close("operator-eigenpairs", A @ W, W * np.asarray(op.eigenvalues),
                      1e-8, name, scale=max(1e-12, np.abs(A).max()))
        if not fb:
            # same operator up to an orthonormal change of basis
            ref = ats[0][1]
            for p in (1, 2):
                mon.close("operator-invariants",
                          np.trace(np.linalg.matrix_power(A, p)),
                          np.trace(np.linalg.matrix_power(ref, p)), 1e-6, name,
                          scale=max(1e-12, np.linalg.norm(ref) ** p))
            mon.close("operator-invariants", np.linalg.norm(A), np.linalg.norm(ref),
                      1e-6, name)
    mon.close("operator-eigs-public", np.asarray(dmd.operator.eigenvalues), eigs, 1e-12,
              name)
    if name in ("DMD", "SpDMD") and np.linalg.cond(modes) < 1e6:
        z = rng.standard_normal((n, 2))
        ref = (modes * eigs) @ np.linalg.lstsq(modes, z, rcond=None)[0]
        mon.close("predict-formula", dmd.predict(z), ref, 1e-6, name,
                  scale=np.linalg.cond(modes) * max(1, np.abs(eigs).max()) * 3)


def optdmd(rng, mon):
    """Closed-form optimal low-rank operator: attains the minimum residual."""
    n, m = int(rng.integers(2, 12)), int(rng.integers(5, 18))
    if rng.random() < 0.04:
        n, m = int(rng.integers(20, 60)), int(rng.integers(20, 60))
    cplx = bool(rng.integers(2))
    fac = pick(rng, ["svd", "evd"])
    tl = 0
    u = 2.0 ** int(rng.integers(-45, 30)) if rng.random() < 0.2 else 1.0
    q = None
    if rng.integers(2):
        X, Y = random_data(rng, n, m, cplx), random_data(rng, n, m, cplx)
        if rng.random() < 0.3 and min(n, m) > 2:  # rank-deficient input
            q = int(rng.integers(1, min(n, m)))
            a, s, b = np.linalg.svd(X, full_matrices=False)
            X = (a[:, :q] * s[:q]) @ b[:q]
        X, Y = X * u, Y * u
        args = (as_layout(rng, X), as_layout(rng, Y))
    else:
        S = random_data(rng, n, m, cplx) * u
        args = (as_layout(rng, S),)
        X, Y = S[:, :-1], S[:, 1:]
    kmax = min(n, X.shape[1])
    q = q or kmax
    r = int(rng.integers(1, q + 1))
    sx = np.linalg.svd(X, compute_uv=False)
    if sx[0] > 1e4 * sx[q - 1]:
        raise Skip()
    dmd = OptDMD(factorization=fac, svd_rank=r, tlsq_rank=tl).fit(*args)
    Vh = np.linalg.svd(X, full_matrices=False)[2][:q]
    Z = Y @ Vh.conj().T @ Vh
    Uz, sz, _ = np.linalg.svd(Z, full_matrices=False)
    if r < len(sz) and sz[r - 1] - sz[r] < 1e-3 * sz[0]:
        raise Skip()
    if sz[r - 1] < 1e-6 * sz[0]:
        raise Skip()
    A = Uz[:, :r] @ Uz[:, :r].conj().T @ Y @ np.linalg.pinv(X, rcond=1e-10)
    mon.describe(n=n, m=m, r=r, cplx=cplx, fac=fac, units=u, rank=q)
    mon.sig("optdmd", fac, cplx, len(args), r == kmax)
    P = np.asarray(dmd.predict(X))
    if fac == "evd":
        At = Uz[:, :r].conj().T @ A @ Uz[:, :r]
        lam, W = np.linalg.eig(At)
        if np.linalg.cond(W) > 1e3 or np.abs(lam).min() < 1e-5 * np.abs(lam).max():
            raise Skip()
        if np.abs(lam).min() < 1e-8:
            raise Skip()
        d, _ = match_eigs(lam, dmd.eigs)
        mon.close("optdmd-eigs", d, 0.0, 1e-6, scale=max(1e-9, np.abs(lam).max()))
        M = np.asarray(dmd.modes)
        mon.close("optdmd-eigenpairs", A @ M, M * np.asarray(dmd.eigs), 1e-6,
                  scale=np.abs(A).max() * np.abs(M).max() * n)
    mon.close("optdmd-prediction", P, A @ X, 1e-6, scale=np.abs(Y).max())
    opt = np.sqrt(np.sum(sz[r:] ** 2) + np.linalg.norm(Y - Z) ** 2)
    mon.le("optdmd-minimal-residual", np.linalg.norm(Y - P),
           opt + 1e-6 * np.linalg.norm(Y))


def subspace(rng, mon):
    n, m = int(rng.integers(2, 10)), int(rng.integers(8, 40))
    cplx = bool(rng.integers(2))
    S = random_data(rng, n, m, cplx, decay=rng.uniform(0.7, 0.95))
    r = int(rng.integers(1, n + 1))
    req = pick(rng, [r, -1])
    sort = pick(rng, [False, "abs", "real"])
    resc = pick(rng, [None, "auto"])
    Yp = np.vstack([S[:, :-3], S[:, 1:-2]])
    Yf = np.vstack([S[:, 2:-1], S[:, 3:]])
    sp = np.linalg.svd(Yp, compute_uv=False)
    if sp[-1] < 1e-6 * sp[0]:
        raise Skip()
    Vp = np.linalg.svd(Yp, full_matrices=False)[2].conj().T
    O = Yf @ Vp @ Vp.conj().T
    U, so, _ = np.linalg.svd(O, full_matrices=False)
    rank = min(np.linalg.matrix_rank(O), n)
    rr = rank if req == -1 else min(req, rank)
    if rr < len(so) and so[rr - 1] - so[rr] < 1e-3 * so[0]:
        raise Skip()
    U1, U2 = U[:n, :rr], U[n:, :rr]
    s1 = np.linalg.svd(U1, compute_uv=False)
    if s1[-1] < 1e-3:
        raise Skip()
    dmd = SubspaceDMD(svd_rank=req, sorted_eigs=sort, rescale_mode=resc).fit(
        as_layout(rng, S))
    mon.describe(n=n, m=m, req=req, cplx=cplx, sort=sort, resc=resc)
    mon.sig("subspace", cplx, req == -1, sort, resc)
    A = U2 @ np.linalg.pinv(U1)
    Q = np.linalg.svd(U1, full_matrices=False)[0]
    at = Q.conj().T @ A @ Q
    if not mon.eq("count", len(dmd.eigs), rr, "SubspaceDMD"):
        return
    judge(mon, "SubspaceDMD", np.asarray(dmd.eigs), np.asarray(dmd.modes),
          [("ok", at)], lambda W: A @ Q @ W)
    check_sort(mon, "SubspaceDMD", dmd.eigs, sort)


def invariance(rng, mon):
    """Options that must not change the decomposition do not change it."""
    n, m = int(rng.integers(2, 12)), int(rng.integers(6, 20))
    S = random_data(rng, n, m, None, decay=rng.uniform(0.6, 0.95))
    kmax = min(n, m - 1)
    r = int(rng.integers(1, kmax + 1))
    base = DMD(svd_rank=r, exact=bool(rng.integers(2))).fit(S)
    lam = np.asarray(base.eigs)
    kind = pick(rng, ["scale", "rescale", "unitary", "sort", "exact", "full-tlsq",
                      "tik0", "rows"])
    kw = dict(svd_rank=r, exact=base._exact)
    T = S
    if kind == "scale":
        T = S * pick(rng, [1e-8, 1e6, -3.0, 2j])
    elif kind == "rescale":
        kw["rescale_mode"] = pick(rng, ["auto", rng.uniform(0.1, 4, r)])
    elif kind == "unitary":
        T = np.linalg.qr(rng.standard_normal((n, n)))[0] @ S
    elif kind == "sort":
        kw["sorted_eigs"] = pick(rng, ["abs", "real"])
    elif kind == "exact":
        kw["exact"] = not base._exact
    elif kind == "full-tlsq":
        kw["tlsq_rank"] = m + 50
    elif kind == "tik0":
        kw["tikhonov_regularization"] = 0
    elif kind == "rows":
        T = S[rng.permutation(n)]
    other = DMD(**kw).fit(T)
    X = S[:, :-1]
    sv = np.linalg.svd(X, compute_uv=False)
    W = np.linalg.eig(np.asarray(base.operator.as_numpy_array))[1]
    if (np.linalg.cond(W) > 1e4 or sv[r - 1] < 1e-5 * sv[0]
            or (r < len(sv) and sv[r - 1] - sv[r] < 1e-4 * sv[0])):
        raise Skip()
    d, _ = match_eigs(lam, other.eigs)
    mon.describe(kind=kind, n=n, m=m, r=r)
    mon.close("invariance-" + kind, d, 0.0, 1e-6, kind,
              scale=max(1e-9, np.abs(lam).max()))
    mon.sig("inv", kind, base._exact, np.iscomplexobj(S))


WORKLOADS = {
    "operators": {"fn": operators, "quick": 5000, "thorough": 100000},
    "optdmd": {"fn": optdmd, "quick": 1000, "thorough": 15000},
    "subspace": {"fn": subspace, "quick": 1000, "thorough": 15000},
    "invariance": {"fn": invariance, "quick": 1500, "thorough": 15000},
}
REQUIRED = {
    "eigenvalues": 1500,
    "modes": 1500,
    "sorted-abs": 300,
    "sorted-real": 300,
    "operator-invariants": 1000,
    "optdmd-minimal-residual": 200,
    "predict-formula": 200,
}
