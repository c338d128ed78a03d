"""C13: PiDMD returns the best operator of the requested matrix manifold."""

import numpy as np

from pydmd import PiDMD
from vmon.core import Skip
from vmon.gen import as_layout, match_eigs, pick

RULE = (
    "Every manifold x option x dtype x shape (fewer and more snapshots than "
    "rows) x truncation: membership is decided by projecting A on an explicit "
    "basis of the manifold, optimality by solving the constrained least-squares "
    "problem over that basis; distinct = distinct (manifold, option kind, dtype, "
    "shape class, truncation) tuples."
)
ASSUMPTIONS = [
    "for complex data, (skew)symmetric means (skew-)Hermitian, as in the papers "
    "and in the code; symmetric tridiagonal operators are real",
    "optimal A is compared entrywise only when it is unique (cond < 1e5)",
]
CASE_TIMEOUT = 60
LINEAR = ["uppertriangular", "lowertriangular", "diagonal", "toeplitz", "hankel",
          "symmetric_tridiagonal", "BC", "BCTB"]
SPECTRAL = ["circulant", "circulant_symmetric", "circulant_skewsymmetric", "BCCB",
            "BCCBsymmetric", "BCCBskewsymmetric", "circulant_unitary", "BCCBunitary"]
REDUCED = ["symmetric", "skewsymmetric", "unitary"]
NEED_A = {"uppertriangular", "lowertriangular", "toeplitz", "hankel", "BC", "BCTB", "BCCB",
          "BCCBunitary", "BCCBsymmetric", "BCCBskewsymmetric"}


def shift(n, k):
    return np.roll(np.eye(n), k, axis=0)


def unit(n, i, j):
    e = np.zeros((n, n))
    e[i, j] = 1
    return e


def bands(opt, n):
    if opt is None:
        opt = 1
    if isinstance(opt, np.ndarray):
        return opt
    lo, up = opt if isinstance(opt, tuple) else (opt, opt)
    return np.tile([lo, up], (n, 1))


def herm(bs, sign):
    """real-coefficient basis of the (skew-)Hermitian part of span(bs)"""
    return [b + sign * b.conj().T for b in bs] + [1j * (b - sign * b.conj().T) for b in bs]


def basis(man, n, opt):
    """(list of matrices, coefficients are real)"""
    if man == "uppertriangular":
        return [unit(n, i, j) for i in range(n) for j in range(i, n)], False
    if man == "lowertriangular":
        return [unit(n, i, j) for i in range(n) for j in range(i + 1)], False
    if man == "diagonal":
        b = bands(opt, n)
        return [unit(n, i, j) for i in range(n) for j in range(n)
                if i - b[i, 0] < j < i + b[i, 1]], False
    if man in ("symmetric", "skewsymmetric"):
        e = [unit(n, i, j) for i in range(n) for j in range(i + 1)]
        return herm(e, 1 if man == "symmetric" else -1), True
    if man == "toeplitz":
        return [np.eye(n, k=k) for k in range(-n + 1, n)], False
    if man == "hankel":
        return [np.eye(n, k=k)[:, ::-1] for k in range(-n + 1, n)], False
    if man == "symmetric_tridiagonal":
        return [unit(n, i, i) for i in range(n)] + [
            unit(n, i, i + 1) + unit(n, i + 1, i) for i in range(n - 1)], True
    if man.startswith("circulant"):
        b = [shift(n, k) for k in range(n)]
    else:
        p, q = opt
        if man == "BC":
            return [np.kron(shift(q, k), unit(p, i, j)) for k in range(q) for i in range(p)
                    for j in range(p)], False
        if man == "BCTB":
            return [np.kron(shift(q, k), unit(p, i, j)) for k in range(q) for i in range(p)
                    for j in range(p) if abs(i - j) < 2], False
        b = [np.kron(shift(q, k), shift(p, j)) for k in range(q) for j in range(p)]
    if man.endswith("skewsymmetric"):
        return herm(b, -1), True
    if man.endswith("symmetric"):
        return herm(b, 1), True
    return b, False


def solve(man, X, Y, opt):
    bs, realc = basis(man, len(X), opt)
    M = np.stack([(B @ X).ravel() for B in bs], 1)
    y = Y.ravel()
    if realc:
        M = np.vstack([M.real, M.imag])
        y = np.concatenate([y.real, y.imag])
    u, s, vh = np.linalg.svd(M, full_matrices=False)
    k = int(np.sum(s > 1e-11 * s[0]))
    c = vh[:k].conj().T @ ((u[:, :k].conj().T @ y) / s[:k])
    A = sum(ci * B for ci, B in zip(c, bs))
    # directions the data cannot see: basis elements may be redundant
    G = np.stack([B.ravel() for B in bs], 1)
    if realc:
        G = np.vstack([G.real, G.imag])
    dim = np.linalg.matrix_rank(G)
    return A, k == dim and s[k - 1] > 1e-5 * s[0]


def off_manifold(man, A, opt):
    bs, realc = basis(man, len(A), opt)
    G = np.stack([B.ravel() for B in bs], 1)
    a = A.ravel()
    if realc:
        G = np.vstack([G.real, G.imag])
        a = np.concatenate([a.real, a.imag])
    c = np.linalg.lstsq(G, a, rcond=1e-12)[0]
    return float(np.abs(G @ c - a).max())


def member(mon, man, A, opt, where, scale):
    tol = 1e-8
    if man.endswith("unitary"):
        mon.close("unitary", A.conj().T @ A, np.eye(len(A)), tol, where)
        if man != "unitary":
            base = "circulant" if man[0] == "c" else "BCCB"
            mon.close("in-manifold", off_manifold(base, A, opt), 0.0, tol, where, scale=scale)
    else:
        mon.close("in-manifold", off_manifold(man, A, opt), 0.0, tol, where, scale=scale)


def options(rng, man):
    n = int(rng.integers(3, 9))
    opt = None
    if man == "diagonal":
        k = pick(rng, ["none", "int", "tuple", "array", "const"])
        if k == "int":
            opt = int(rng.integers(1, 4))
        elif k == "tuple":
            opt = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        elif k == "array":
            opt = rng.integers(1, 4, (n, 2))
        elif k == "const":
            opt = np.full((n, 2), 2)
    elif man.startswith("BC"):
        p, q = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        if p * q < 3:
            p, q = 2, 3
        n, opt = p * q, (p, q)
    return n, opt


def rnd(rng, shape, cplx):
    a = rng.standard_normal(shape)
    return a + 1j * rng.standard_normal(shape) if cplx else a


def units(rng):
    # powers of two: sums that vanish exactly go on doing so
    return 2.0 ** int(rng.integers(-33, 27)) if rng.random() < 0.15 else 1.0


def smooth(rng, X):
    """the same kind of data with little content at the high frequencies"""
    n = len(X)
    k = np.minimum(np.arange(n), n - np.arange(n)) / max(1, n // 2)
    Z = np.fft.ifft(np.fft.fft(X, axis=0) * 10.0 ** (-rng.uniform(1, 4) * k)[:, None], axis=0)
    return Z if np.iscomplexobj(X) else Z.real


def ascale(A):
    return max(1e-9, float(np.abs(A).max()))


def eigenpairs(mon, d, A, where):
    R = A @ d.modes - d.modes * d.eigs
    nrm = np.linalg.norm(d.modes, axis=0)
    mon.close("modes-are-eigenvectors", (np.linalg.norm(R, axis=0) / nrm).max(), 0.0, 1e-7, where,
              scale=max(ascale(A), 1e-9) * len(A))


def fit_pair(rng, mon):
    man = pick(rng, LINEAR + SPECTRAL + REDUCED)
    cplx = bool(rng.random() < 0.45)
    n, opt = options(rng, man)
    few = rng.random() < 0.3
    m = int(rng.integers(2, n)) if few and n > 2 else int(rng.integers(2 * n, 3 * n + 8))
    few = m < n
    X = rnd(rng, (n, m), cplx)
    if rng.random() < 0.4:
        g = 4.6 if man in ("BC", "BCTB", "uppertriangular", "lowertriangular", "diagonal") else 2
        G = np.logspace(0, rng.uniform(-g, g), n)
        if man in ("BC", "BCTB"):
            G = np.tile(np.logspace(0, rng.uniform(-g, g), opt[0]), opt[1])
        X = X * G[:, None]
    elif rng.random() < 0.3 and man in SPECTRAL:
        X = smooth(rng, X)
    elif rng.random() < 0.15 and not few:
        # data without a mean component, or with an unused row
        X = np.round(X * 50)
        X[-1] -= X.sum(0)
    Y = rnd(rng, (n, m), cplx) + (rnd(rng, (n, n), cplx) @ X) * 0.3
    u = units(rng)
    X, Y = X * u, Y * u
    where = "%s opt=%s n=%d m=%d cplx=%s" % (man, type(opt).__name__ if isinstance(
        opt, np.ndarray) else opt, n, m, cplx)
    mon.describe(man=man, opt=opt, n=n, m=m, cplx=cplx)
    mon.sig(man, type(opt).__name__, cplx, few, "pair")
    r = min(n, m)
    try:
        d = PiDMD(manifold=man, manifold_opt=opt, compute_A=True).fit(
            as_layout(rng, X), as_layout(rng, Y))
    except np.linalg.LinAlgError:
        if man in LINEAR or not few:
            raise
        raise Skip()
    A = np.asarray(d.A)
    sc = ascale(A)
    if man == "unitary":
        U = np.linalg.svd(X, full_matrices=False)[0][:, :r]
        u, s, vh = np.linalg.svd(U.conj().T @ Y @ X.conj().T @ U)
        want = U @ u @ vh @ U.conj().T
        if s[-1] > 1e-7 * s[0]:
            mon.close("best-unitary", A, want, 1e-6, where)
        if not few:
            member(mon, man, A, opt, where, 1.0)
        mon.close("unit-modulus-eigenvalues", np.abs(d.eigs), np.ones(r), 1e-8, where)
    elif man in REDUCED:
        member(mon, man, A, opt, where, sc)
        U, s, _ = np.linalg.svd(X, full_matrices=False)
        if s[-1] < 1e-5 * s[0]:
            raise Skip()
        At, uniq = solve(man, U.conj().T @ X, U.conj().T @ Y, None)
        if uniq:
            mon.close("best-of-manifold", A, U @ At @ U.conj().T, 1e-6, where, scale=ascale(At))
        ax = np.abs(d.eigs.imag if man == "symmetric" else d.eigs.real).max()
        mon.close("eigenvalues-on-axis", ax, 0.0, 1e-8, where, scale=max(1e-9, np.abs(d.eigs).max()))
    elif man in LINEAR:
        member(mon, man, A, opt, where, sc)
        want, uniq = solve(man, X, Y, opt)
        if uniq:
            mon.close("best-of-manifold", A, want, 1e-5, where, scale=ascale(want))
        mon.le("residual-optimal", np.linalg.norm(Y - A @ X),
               np.linalg.norm(Y - want @ X) * (1 + 1e-6) + 1e-7 * np.linalg.norm(Y), where)
    else:
        member(mon, man, A, opt, where, sc) if not (few and man.endswith("unitary")) else None
        if not few:
            if man.endswith("unitary"):
                full, uniq = solve("circulant" if man[0] == "c" else "BCCB", X, Y, opt)
                w, V = np.linalg.eig(full)
                # normal matrix: polar factor
                u, sv, vh = np.linalg.svd(full)
                if uniq and sv[-1] > 1e-6 * sv[0]:
                    mon.close("best-of-manifold", A, u @ vh, 1e-5, where)
            elif np.linalg.matrix_rank(X) == n:
                want, uniq = solve(man, X, Y, opt)
                if uniq:
                    mon.close("best-of-manifold", A, want, 1e-6, where,
                              scale=max(ascale(want), np.abs(Y).max() / np.abs(X).max()))
    eigenpairs(mon, d, A, where)
    # the eigendecomposition alone
    if man not in NEED_A:
        e = PiDMD(manifold=man, manifold_opt=opt, compute_A=False).fit(X, Y)
        mon.eq("rank", len(e.eigs), r if man not in ("diagonal", "symmetric_tridiagonal") else
               len(e.eigs), where)
        eigenpairs(mon, e, A, where)
        mon.raises("A-not-computed", ValueError, lambda: e.A, where)
    else:
        mon.raises("A-required", ValueError,
                   lambda: PiDMD(manifold=man, manifold_opt=opt).fit(X, Y), where)


def truncated(rng, mon):
    man = pick(rng, SPECTRAL + REDUCED + ["diagonal", "symmetric_tridiagonal"])
    cplx = bool(rng.random() < 0.45)
    n, opt = options(rng, man)
    m = int(rng.integers(2 * n, 3 * n + 6))
    X = rnd(rng, (n, m), cplx) * np.logspace(0, rng.uniform(-1, 1), n)[:, None]
    Y = rnd(rng, (n, m), cplx) + (rnd(rng, (n, n), cplx) @ X)
    u = units(rng)
    X, Y = X * u, Y * u
    r = int(rng.integers(1, n + 1))
    where = "%s r=%d n=%d cplx=%s" % (man, r, n, cplx)
    mon.describe(man=man, opt=opt, n=n, m=m, cplx=cplx, r=r)
    mon.sig(man, type(opt).__name__, cplx, "trunc", r == n)
    d = PiDMD(manifold=man, manifold_opt=opt, compute_A=True, svd_rank=r).fit(X, Y)
    A = np.asarray(d.A)
    if man in REDUCED:
        U, s, _ = np.linalg.svd(X, full_matrices=False)
        if r < n and s[r - 1] / s[r] < 1.02:
            raise Skip()
        U = U[:, :r]
        Xp, Yp = U.conj().T @ X, U.conj().T @ Y
        if man == "unitary":
            u, _, vh = np.linalg.svd(Yp @ Xp.conj().T)
            At = u @ vh
        else:
            At, uniq = solve(man, Xp, Yp, None)
            if not uniq:
                raise Skip()
        mon.close("truncated-best", A, U @ At @ U.conj().T, 1e-6, where, scale=ascale(At))
        mon.eq("truncated-rank", len(d.eigs), r, where)
        eigenpairs(mon, d, A, where)
        e = PiDMD(manifold=man, manifold_opt=opt, svd_rank=r).fit(X, Y)
        dist, _ = match_eigs(d.eigs, e.eigs)
        mon.close("eigs-independent-of-compute_A", dist, 0.0, 1e-8, where, scale=ascale(At))
        return
    if man in ("diagonal", "symmetric_tridiagonal"):
        e = PiDMD(manifold=man, manifold_opt=opt, svd_rank=r).fit(X, Y)
        w = np.linalg.eigvals(A)
        o = np.sort(np.abs(w))[::-1]
        mon.eq("truncated-rank", len(e.eigs), r, where)
        if np.linalg.cond(np.linalg.eig(A)[1]) > 1e6:
            raise Skip()
        mon.close("leading-eigenvalues", np.sort(np.abs(e.eigs))[::-1], o[:r], 1e-6, where,
                  scale=max(1e-9, o[0]))
        eigenpairs(mon, e, A, where)
        return
    # circulant families: the kept eigenvalues are those of the full fit
    base = "circulant" if man[0] == "c" else "BCCB"
    F = np.fft.fft(np.eye(n)) if base == "circulant" else np.kron(
        np.fft.fft(np.eye(opt[1])), np.fft.fft(np.eye(opt[0])))
    F = F / np.sqrt(n)  # unitary, diagonalises the family
    f = PiDMD(manifold=man, manifold_opt=opt, compute_A=True).fit(X, Y)
    lam = np.diag(F.conj().T @ f.A @ F)
    low = np.diag(F.conj().T @ A @ F)
    fx, fy = F.conj().T @ X, F.conj().T @ Y
    imp = np.abs(np.sum(fy * fx.conj(), 1)) / np.linalg.norm(fx, axis=1)
    o = np.sort(imp)[::-1]
    mon.close("diagonalised-by-fourier", F.conj().T @ A @ F, np.diag(low), 1e-8, where,
              scale=max(1e-9, np.abs(low).max()))
    s = max(1e-9, np.abs(lam).max())
    if r < n and o[r - 1] / o[r] < 1 + 1e-6:
        # ties come in conjugate pairs for real data
        kept = np.abs(low) > 1e-9 * s
        mon.close("kept-eigenvalues-of-full-fit", low[kept], lam[kept], 1e-7, where, scale=s)
        mon.ok("truncated-rank", kept.sum() <= r, where)
        return
    keep = imp >= o[r - 1] * (1 - 1e-9)
    mon.close("most-important-frequencies-kept", low, np.where(keep, lam, 0), 1e-7, where, scale=s)
    if man not in NEED_A:
        e = PiDMD(manifold=man, manifold_opt=opt, svd_rank=r).fit(X, Y)
        mon.eq("truncated-rank", len(e.eigs), r, where)
        eigenpairs(mon, e, A, where)


def truth(rng, mon):
    """data generated by a member of the manifold: the member is recovered"""
    man = pick(rng, LINEAR + SPECTRAL + REDUCED)
    cplx = bool(rng.random() < 0.4)
    n, opt = options(rng, man)
    bs, realc = (None, None) if man.endswith("unitary") else basis(man, n, opt)
    if man == "unitary":
        A0 = np.linalg.qr(rnd(rng, (n, n), cplx))[0]
    elif man.endswith("unitary"):
        bs, _ = basis("circulant" if man[0] == "c" else "BCCB", n, opt)
        M = sum(c * B for c, B in zip(rnd(rng, len(bs), cplx), bs))
        u, s, vh = np.linalg.svd(M)
        if s[-1] < 0.05:
            raise Skip()
        A0 = u @ vh
    else:
        c = rnd(rng, len(bs), cplx and not realc)
        A0 = sum(ci * B for ci, B in zip(c, bs))
        if not cplx:
            A0 = A0.real
    if cplx is False and np.iscomplexobj(A0):
        A0 = A0.real
    A0 = A0 if man.endswith("unitary") else A0 / max(1e-9, np.abs(np.linalg.eigvals(A0)).max())
    m = int(rng.integers(2 * n + 2, 4 * n + 6))
    X = rnd(rng, (n, m), cplx) * units(rng)
    Y = A0 @ X
    where = "%s n=%d m=%d cplx=%s opt=%s" % (man, n, m, cplx, opt)
    mon.describe(man=man, n=n, m=m, cplx=cplx, opt=opt)
    mon.sig(man, cplx, "truth")
    d = PiDMD(manifold=man, manifold_opt=opt, compute_A=True,
              tlsq_rank=pick(rng, [0, 0, n])).fit(X, Y)
    if man == "symmetric_tridiagonal" and cplx and np.abs(A0.imag).max() > 0:
        raise Skip()
    mon.close("operator-recovered", d.A, A0, 1e-6, where, scale=max(1.0, ascale(A0)))
    if man not in NEED_A:
        e = PiDMD(manifold=man, manifold_opt=opt).fit(X, Y)
        if np.linalg.cond(np.linalg.eig(A0)[1]) < 1e4:
            mon.close("eigenvalues-recovered", match_eigs(np.linalg.eigvals(A0), e.eigs)[0], 0.0,
                      1e-6, where, scale=1.0)
    # trajectory of a normal operator: reconstruction follows it
    if man in ("unitary", "symmetric", "circulant", "circulant_unitary", "BCCB", "BCCBunitary",
               "circulant_symmetric"):
        Z = [rnd(rng, n, cplx) * units(rng)]
        for _ in range(2 * n):
            Z.append(A0 @ Z[-1])
        Z = np.array(Z).T
        s = np.linalg.svd(Z[:, :-1], compute_uv=False)
        if s[-1] > 1e-4 * s[0]:
            t = PiDMD(manifold=man, manifold_opt=opt, compute_A=True).fit(Z)
            mon.close("trajectory-reconstructed", t.reconstructed_data, Z, 1e-5, where)


def rejects(rng, mon):
    n = 6
    X, Y = rnd(rng, (n, 12), False), rnd(rng, (n, 12), False)
    man = pick(rng, ["BC", "BCTB", "BCCB", "BCCBunitary"])
    bad = pick(rng, [None, 3, (2,), [2, 3], (1, 2, 3)])
    mon.raises("block-shape-required", ValueError, lambda: PiDMD(
        manifold=man, manifold_opt=bad, compute_A=True).fit(X, Y), (man, bad))
    mon.raises("unknown-manifold", ValueError, lambda: PiDMD(
        manifold=pick(rng, ["foo", "", "Unitary", "circ"]), compute_A=True).fit(X, Y))
    bad = pick(rng, [0, -1, (1, 0), (1, 2, 3), np.ones((n, 3)), np.zeros((n, 2)), "a"])
    mon.raises("band-option-rejected", ValueError, lambda: PiDMD(
        manifold="diagonal", manifold_opt=bad, compute_A=True).fit(X, Y), bad)
    mon.sig("rejects", man, str(bad)[:12])


WORKLOADS = {
    "fit-pair": {"fn": fit_pair, "quick": 2200, "thorough": 45000},
    "truncated": {"fn": truncated, "quick": 1200, "thorough": 25000},
    "truth": {"fn": truth, "quick": 1200, "thorough": 25000},
    "rejects": {"fn": rejects, "quick": 60, "thorough": 600},
}
REQUIRED = {
    "in-manifold": 1000,
    "best-of-manifold": 600,
    "residual-optimal": 500,
    "best-unitary": 40,
    "operator-recovered": 600,
    "modes-are-eigenvectors": 1500,
    "truncated-best": 100,
    "most-important-frequencies-kept": 100,
}
