"""Random configurations of the snapshot-based DMD classes."""

import numpy as np

from pydmd import (
    CDMD,
    DMD,
    EDMD,
    RDMD,
    FbDMD,
    HankelDMD,
    HODMD,
    SpDMD,
    SubspaceDMD,
)
from vmon.gen import pick

BASE = [
    "DMD",
    "DMD",
    "FbDMD",
    "CDMD",
    "RDMD",
    "SubspaceDMD",
    "EDMD",
    "SpDMD",
    "HankelDMD",
    "HODMD",
]


def rank_request(rng, kmax):
    return pick(
        rng,
        [
            0,
            -1,
            int(rng.integers(1, kmax + 1)),
            int(rng.integers(1, kmax + 1)),
            kmax + 7,
            float(rng.uniform(0.3, 0.999)),
        ],
    )


class Spec:
    """A reproducible recipe: build() returns a fresh unfitted model."""

    def __init__(self, name, cls, kw):
        self.name, self.cls, self.kw = name, cls, kw

    def build(self):
        kw = {
            k: (v.copy() if isinstance(v, np.ndarray) else v)
            for k, v in self.kw.items()
        }
        return self.cls(**kw)

    def sig(self):
        out = []
        for k, v in sorted(self.kw.items()):
            if isinstance(v, np.ndarray):
                v = "arr" + ("c" if np.iscomplexobj(v) else "")
            elif isinstance(v, (list, tuple)):
                v = type(v).__name__
            elif isinstance(v, dict):
                v = "dict%d" % len(v)
            elif isinstance(v, bool) or v is None or isinstance(v, str):
                pass
            elif isinstance(v, float):
                v = "f"
            elif isinstance(v, (int, np.integer)):
                v = "neg" if v < 0 else ("0" if v == 0 else "+")
            else:
                v = type(v).__name__
            out.append("%s=%s" % (k, v))
        return self.name + "(" + ",".join(out) + ")"


def base_spec(rng, name, n, m, fixed_rank=None, fb=None, randomised=True,
              tik=True):
    """Random valid options of class `name` for n x m data."""
    kmax = min(n, m - 1)
    r = rank_request(rng, kmax) if fixed_rank is None else fixed_rank
    opt = pick(rng, [False, False, True, 0, int(rng.integers(0, m - 1)),
                     -int(rng.integers(1, m - 1))])
    sort = pick(rng, [False, "abs", "real"])
    tlsq = pick(rng, [0, 0, int(rng.integers(1, kmax + 1)), m + 9])
    resc = pick(rng, [None, None, "auto"])
    if isinstance(r, int) and 0 < r <= kmax and tlsq == 0 and rng.random() < 0.3:
        resc = rng.uniform(0.3, 3.0, r)
    fb = bool(rng.random() < 0.15) if fb is None else fb
    tk = pick(rng, [None, None, None, 0, float(10 ** rng.uniform(-6, 0))]) if tik else None
    exact = bool(rng.integers(2))
    if tlsq and resc is not None:
        resc = None  # a TLSQ projection may leave zero singular values
    kw = dict(svd_rank=r, tlsq_rank=tlsq, opt=opt, rescale_mode=resc,
              sorted_eigs=sort)
    if tlsq and not (isinstance(r, int) and 0 < r <= min(tlsq, kmax)):
        # the projected data have rank tlsq: request at most that
        kw["svd_rank"] = int(rng.integers(1, min(tlsq, kmax) + 1))
    if name == "DMD":
        kw.update(exact=exact, forward_backward=fb, tikhonov_regularization=tk)
        return Spec(name, DMD, kw)
    if name == "FbDMD":
        kw.update(exact=exact)
        return Spec(name, FbDMD, kw)
    if name == "SpDMD":
        kw.update(exact=exact, forward_backward=fb, verbose=False,
                  rho=float(10 ** rng.uniform(-1, 3)),
                  gamma=float(10 ** rng.uniform(-3, 1)),
                  max_iterations=int(rng.integers(1, 400)),
                  release_memory=bool(rng.integers(2)))
        return Spec(name, SpDMD, kw)
    if name == "CDMD":
        c = rng.standard_normal((int(rng.integers(kmax, kmax + 6)), n))
        if randomised:
            c = pick(rng, [c, "normal", "uniform", "sparse"])
        kw.update(compression_matrix=c, forward_backward=fb,
                  tikhonov_regularization=tk)
        if not isinstance(c, np.ndarray):
            pass
        return Spec(name, CDMD, kw)
    if name == "RDMD":
        kw.update(seed=int(rng.integers(100)), oversampling=int(rng.integers(1, 12)),
                  power_iters=int(rng.integers(0, 3)), forward_backward=fb,
                  tikhonov_regularization=tk)
        return Spec(name, RDMD, kw)
    if name == "SubspaceDMD":
        kw = dict(svd_rank=pick(rng, [-1, int(rng.integers(1, kmax + 1))]),
                  opt=opt, rescale_mode=pick(rng, [None, "auto"]),
                  sorted_eigs=sort)
        return Spec(name, SubspaceDMD, kw)
    if name == "EDMD":
        kw = dict(svd_rank=pick(rng, [-1, int(rng.integers(1, kmax + 1)),
                                      float(rng.uniform(0.5, 0.999))]),
                  opt=opt)
        met = pick(rng, ["linear", "rbf", "poly"])
        kp = {"linear": {}, "rbf": {"gamma": float(rng.uniform(0.05, 0.5))},
              "poly": {"degree": 2}}[met]
        if met == "linear":
            kw["svd_rank"] = int(rng.integers(1, kmax + 1))
        kw.update(kernel_metric=met, kernel_params=kp)
        return Spec(name, EDMD, kw)
    if name in ("HankelDMD", "HODMD"):
        d = int(rng.integers(1, max(2, min(5, m - 3))))
        nw = m - d + 1
        kmax = min(n * d, nw - 1)
        if not isinstance(opt, bool):
            opt = int(opt) % (nw - 1)
        kw.update(exact=exact, forward_backward=fb, d=d, opt=opt)
        if tlsq:
            kw["tlsq_rank"] = int(min(tlsq, kmax))
            kw["svd_rank"] = int(rng.integers(1, kw["tlsq_rank"] + 1))
        else:
            kw["svd_rank"] = rank_request(rng, kmax) if fixed_rank is None else fixed_rank
        if isinstance(resc, np.ndarray):
            kw["rescale_mode"] = None
        rec = pick(rng, ["first", "mean", "w"])
        if rec == "w":
            w = rng.uniform(0.2, 1.0, d)
            rec = pick(rng, [w, list(w), tuple(w)])
        kw["reconstruction_method"] = rec
        if name == "HODMD":
            kw["svd_rank_extra"] = -1
            kw["rescale_mode"] = None
            return Spec(name, HODMD, kw)
        kw["tikhonov_regularization"] = tk
        return Spec(name, HankelDMD, kw)
    raise AssertionError(name)
