"""Closed environments for the sampler: priors, likelihoods, a normalizing flow with a known map.

All of them are pure functions of the point, so that the oracles can recompute any value.
"""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np
import torch
import zuko
from torch.distributions import constraints

LOG2PI = np.log(2 * np.pi)


class ToyPrior:
    """User-defined prior.  kinds: string over
       U  uniform on [-1, 2]        N  normal(0.3, 1.5)
       E  1 + Exp(1)  (x >= 1)      R  -0.5 - Exp(1)  (x <= -0.5)
       B  uniform on [5, 5.5]
    `hole`: None, or 'corner': zero density where x[0] + 0.3*x[-1] lies above a threshold (a constraint that
    couples parameters, so the support is smaller than the box given by `bounds`); 'nan', 'pinf': the density there is undefined or infinite."""

    def __init__(self, kinds="UN", hole=None, log=None):
        self.kinds = kinds
        self.dim = len(kinds)
        b = {"U": (-1.0, 2.0), "N": (-np.inf, np.inf), "E": (1.0, np.inf), "R": (-np.inf, -0.5), "B": (5.0, 5.5)}
        self.bounds = np.array([b[k] for k in kinds])
        self.hole = hole
        self.log = log

    def in_hole(self, x):
        if self.hole is None:
            return np.zeros(len(x), bool)
        s = np.zeros(len(x))
        for i, k in enumerate(self.kinds):
            z = {"U": (x[:, i] - 0.5) / 1.5, "N": (x[:, i] - 0.3) / 1.5, "E": x[:, i] - 2.0, "R": x[:, i] + 1.5,
                 "B": (x[:, i] - 5.25) / 0.25}[k]
            s = s + z
        return s > 0.9

    def pure_logpdf(self, x):
        x = np.asarray(x, dtype=float)
        lp = np.zeros(len(x))
        for i, k in enumerate(self.kinds):
            v = x[:, i]
            if k == "U":
                lp = lp + np.where((v >= -1.0) & (v <= 2.0), -np.log(3.0), -np.inf)
            elif k == "B":
                lp = lp + np.where((v >= 5.0) & (v <= 5.5), np.log(2.0), -np.inf)
            elif k == "N":
                lp = lp - 0.5 * ((v - 0.3) / 1.5) ** 2 - np.log(1.5) - 0.5 * LOG2PI
            elif k == "E":
                lp = lp + np.where(v >= 1.0, -(v - 1.0), -np.inf)
            elif k == "R":
                lp = lp + np.where(v <= -0.5, (v + 0.5), -np.inf)
        lp[self.in_hole(x)] = {"nan": np.nan, "pinf": np.inf}.get(self.hole, -np.inf)
        lp[~np.isfinite(x).all(axis=1)] = np.nan
        return lp

    def logpdf(self, x):
        if self.log is not None:
            self.log.prior_calls.append(np.array(x, copy=True))
        return self.pure_logpdf(x)

    def _draw(self, size):
        c = []
        for k in self.kinds:
            if k == "U":
                c.append(-1.0 + 3.0 * RS.random_sample(size))
            elif k == "B":
                c.append(5.0 + 0.5 * RS.random_sample(size))
            elif k == "N":
                c.append(0.3 + 1.5 * RS.standard_normal(size))
            elif k == "E":
                c.append(1.0 + RS.exponential(1.0, size))
            else:
                c.append(-0.5 - RS.exponential(1.0, size))
        return np.array(c).T

    def rvs(self, size=1):
        x = self._draw(size)
        for _ in range(1000):
            bad = self.in_hole(x)
            if not bad.any():
                break
            x[bad] = self._draw(int(bad.sum()))
        return x


class _RS:
    """The global numpy RandomState, reached below the numpy.random module functions (as scipy does)."""
    def __getattr__(self, n):
        return getattr(np.random.mtrand._rand, n)


RS = _RS()


class Log:
    def __init__(self):
        self.prior_calls = []
        self.like_rows = []     # every row the likelihood was asked for, in order
        self.like_calls = 0     # number of invocations


class Like:
    """Deterministic likelihood with a distinct value at every point.
    region: None | 'ninf' (zero likelihood on part of the support) | 'nan' (undefined on part of the support)
    vec: called with an (n, d) array.   blob: None | 'float' | 'pair' | 'vec' | 'str' | 'struct'"""

    def __init__(self, dim, region=None, vec=False, blob=None, sharp=3.0, log=None, offset=0.0):
        self.dim = dim
        self.region = region
        self.vec = vec
        self.blob = blob
        self.sharp = sharp
        self.log = log
        self.offset = offset
        self.hook = None

    def __getstate__(self):
        d = self.__dict__.copy()
        d["log"] = d["hook"] = None
        return d

    def pure(self, x):
        x = np.atleast_2d(np.asarray(x, dtype=float))
        out = np.empty(len(x))
        for r in range(len(x)):
            out[r] = self.pure1(x[r])
        return out

    def pure1(self, x):
        v = self.offset
        for i in range(self.dim):
            c = 0.2 + 0.35 * i
            v = v - self.sharp * (1.0 + 0.5 * i) * (x[i] - c) ** 2 / (1.0 + 0.05 * abs(x[i])) + 0.11 * np.sin(5.0 * x[i] + i)
        if self.region is not None and np.isfinite(v):
            f = np.sin(3.0 * x[0]) + (0.5 * np.cos(2.0 * x[-1]))
            if self.region == "ninf" and f > 0.9:
                return -np.inf
            if self.region == "nan" and f > 0.9:
                return np.nan
            if self.region == "both":
                if f > 1.1:
                    return -np.inf
                if f < -1.1:
                    return np.nan
        return float(v)

    def blob_of(self, x):
        if self.blob == "float":
            return (float(2.0 * x[0] + x[-1]),)
        if self.blob == "pair":
            return (float(x[0] * 3.0), float(x[-1] - 7.0))
        if self.blob == "vec":
            return (np.array([x[0] + 1.0, x[-1] * 2.0, 3.0 * x[0]]),)
        if self.blob == "str":
            return ("p%.12e" % x[0],)
        if self.blob == "struct":
            return (float(x[0] + 0.5), int(np.sum(x > 0)))
        if self.blob == "int":
            return (int(np.sum(x > 0.2) + 10 * (x[0] > 0.7)),)
        raise ValueError

    def __call__(self, x, *args, **kwargs):
        if self.hook is not None:
            self.hook()
        if self.log is not None:
            self.log.like_calls += 1
        if self.vec:
            x = np.asarray(x)
            if self.log is not None:
                self.log.like_rows.extend(np.array(x, copy=True))
            return self.pure(x) if len(x) else np.zeros(0)
        if self.log is not None:
            self.log.like_rows.append(np.array(x, copy=True))
        v = self.pure1(x)
        if self.blob is None:
            return v
        return (v,) + tuple(self.blob_of(x))


BLOB_DTYPE = {"struct": [("a", float), ("n", int)], "pair": None, "float": None, "vec": None, "str": None, "int": None}


# ---------------------------------------------------------------------------------------------
class SinhMap(torch.distributions.Transform):
    """theta_i = asinh(a_i u_i + s_i) * b_i : a smooth bijection of the real line with a known inverse and Jacobian."""
    domain = constraints.independent(constraints.real, 1)
    codomain = constraints.independent(constraints.real, 1)
    bijective = True

    def __init__(self, a, b, s):
        super().__init__()
        self.a, self.b, self.s = a, b, s

    def __eq__(self, other):
        return self is other

    def _call(self, x):
        return self.b * torch.asinh(self.a * x + self.s)

    def _inverse(self, y):
        return (torch.sinh(y / self.b) - self.s) / self.a

    def log_abs_det_jacobian(self, x, y):
        t = self.a * x + self.s
        return (torch.log(self.a * self.b) - 0.5 * torch.log1p(t * t)).sum(-1)

    def call_and_ladj(self, x):
        y = self._call(x)
        return y, self.log_abs_det_jacobian(x, y)

    @property
    def inv(self):
        return SinhInv(self)


class SinhInv(torch.distributions.Transform):
    domain = constraints.independent(constraints.real, 1)
    codomain = constraints.independent(constraints.real, 1)
    bijective = True

    def __init__(self, f):
        super().__init__()
        self.f = f

    def __eq__(self, other):
        return self is other

    def _call(self, y):
        return self.f._inverse(y)

    def _inverse(self, x):
        return self.f._call(x)

    def log_abs_det_jacobian(self, y, x):
        return -self.f.log_abs_det_jacobian(x, y)

    def call_and_ladj(self, y):
        x = self._call(y)
        return x, -self.f.log_abs_det_jacobian(x, y)

    @property
    def inv(self):
        return self.f


class LazySinh(zuko.lazy.LazyTransform):
    def __init__(self, dim):
        super().__init__()
        self.register_buffer("a", torch.tensor([0.8 + 0.3 * i for i in range(dim)], dtype=torch.float32))
        self.register_buffer("b", torch.tensor([1.3 - 0.2 * i for i in range(dim)], dtype=torch.float32))
        self.s = torch.nn.Parameter(torch.tensor([0.15 * (i + 1) for i in range(dim)], dtype=torch.float32))

    def forward(self, c=None):
        return SinhMap(self.a, self.b, self.s)


class KnownFlow(zuko.flows.Flow):
    """A (trainable, one shift per dimension) flow whose map is known in closed form."""

    def __init__(self, dim):
        base = zuko.lazy.UnconditionalDistribution(
            zuko.distributions.DiagNormal, torch.zeros(dim), torch.ones(dim), buffer=True)
        super().__init__(LazySinh(dim), base)
        self.dim = dim

    def params(self):
        t = self.transform
        return [v.detach().numpy().astype(float) for v in (t.a, t.b, t.s)]


def known_forward(flow, u):
    """float64 evaluation of the flow map; returns theta, log|dtheta/du|"""
    a, b, s = flow.params()
    t = a * np.asarray(u, float) + s
    return b * np.arcsinh(t), np.sum(np.log(a * b) - 0.5 * np.log1p(t * t), axis=-1)


def known_inverse(flow, th):
    a, b, s = flow.params()
    return (np.sinh(np.asarray(th, float) / b) - s) / a


# ---------------------------------------------------------------------------------------------
@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="mcverif-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make_sampler(cfg, log=None, cls=None, **over):
    """cfg: dict with kinds, hole, region, blob, vec, and Sampler options."""
    import pocomc
    dim = len(cfg.get("kinds", "UN"))
    prior = ToyPrior(cfg.get("kinds", "UN"), cfg.get("hole"), log)
    like = Like(dim, cfg.get("region"), cfg.get("vec", False), cfg.get("blob"), cfg.get("sharp", 3.0), log,
                cfg.get("offset", 0.0))
    kw = dict(n_effective=cfg.get("n_effective", 8), n_active=cfg.get("n_active", 4),
              vectorize=cfg.get("vec", False),
              precondition=cfg.get("precondition", False),
              sample=cfg.get("sample", "tpcn"), resample=cfg.get("resample", "mult"),
              metric=cfg.get("metric", "ess"), dynamic=cfg.get("dynamic", True),
              transform=cfg.get("transform", "probit"),
              periodic=cfg.get("periodic"), reflective=cfg.get("reflective"),
              n_steps=cfg.get("n_steps", 1), n_max_steps=cfg.get("n_max_steps", 3),
              random_state=cfg.get("seed", 0),
              train_config=cfg.get("train_config", dict(epochs=1)),
              blobs_dtype=BLOB_DTYPE.get(cfg.get("blob")) if cfg.get("blob") else None)
    for k in ("n_prior", "train_frequency", "output_dir", "output_label"):
        if k in cfg:
            kw[k] = cfg[k]
    if kw["precondition"]:
        fl = cfg.get("flow", "known")
        kw["flow"] = KnownFlow(dim) if fl == "known" else fl
    else:
        kw["flow"] = KnownFlow(dim)
    kw.update(over)
    s = (cls or pocomc.Sampler)(prior, like, **kw)
    return s, prior, like
