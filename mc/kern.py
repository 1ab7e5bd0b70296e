"""Direct drive of one mutation stage (the four MCMC kernels) with every random answer scripted."""
import numpy as np

from .env import KnownFlow, Like, Log, ToyPrior, known_forward, known_inverse, quiet
from .rng import HI, Poison, RngTap

KERNELS = ("pcn", "rwm", "preconditioned_pcn", "preconditioned_rwm")


class Geo:
    """A fitted geometry with given values (the kernels only read the attributes)."""

    def __init__(self, mean, cov, nu):
        import pocomc.geometry
        g = pocomc.geometry.Geometry()
        self.__dict__.update(g.__dict__)
        self.normal_mean = np.array(mean, float)
        self.normal_cov = np.array(cov, float)
        self.t_mean = np.array(mean, float)
        self.t_cov = np.array(cov, float)
        self.t_nu = float(nu)


class Script:
    """Answers of the random number generator, by kind.  `unif[step][walker]`, one normal vector and one standard gamma value
    per step (the same for all walkers, so that the order in which walkers are visited does not matter)."""

    def __init__(self, n, dim, z, g, unif):
        self.n, self.dim, self.z, self.g, self.unif = n, dim, z, g, unif
        self.nz = self.ng = self.nu = 0
        self.shapes = []

    def tap(self):
        return RngTap(script={"norm": self.norm, "gamma": self.gamma, "unif": self.uni})

    def norm(self, i, res, a, k, name):
        m = int(np.size(res))
        out = np.empty(m)
        per = self.n * self.dim
        flatz = [np.asarray(z, float) for z in self.z]
        for e in range(m):
            step, r = divmod(self.nz, per)
            out[e] = flatz[min(step, len(flatz) - 1)][r % self.dim]
            self.nz += 1
        return out.reshape(np.shape(res)) if np.ndim(res) else out[0]

    def gamma(self, i, res, a, k, name):
        m = int(np.size(res))
        out = np.empty(m)
        for e in range(m):
            step = self.ng // self.n
            out[e] = self.g[min(step, len(self.g) - 1)]
            self.ng += 1
        shape = k.get("shape", k.get("df", a[0] if a else 1.0))
        scale = k.get("scale", a[1] if len(a) > 1 and name == "gamma" else 1.0)
        if name == "chisquare":
            shape, scale = np.asarray(shape) / 2.0, 2.0
        if name == "exponential":
            shape, scale = 1.0, (a[0] if a else k.get("scale", 1.0))
        self.shapes.append(np.asarray(shape, float).reshape(-1))
        out = out.reshape(np.shape(res)) if np.ndim(res) else out[0]
        return out * scale

    def uni(self, i, res, a, k, name):
        m = int(np.size(res))
        out = np.empty(m)
        for e in range(m):
            step, w = divmod(self.nu, self.n)
            out[e] = self.unif[step][w] if step < len(self.unif) else HI
            self.nu += 1
        return out.reshape(np.shape(res)) if np.ndim(res) else out[0]


class Bench:
    """A mutation problem: prior, likelihood, scaler fitted to a fixed cloud, flow, geometry, starting points."""

    def __init__(self, kernel, kinds, x0, transform="probit", beta=0.5, hole=None, region=None, blob=None, nu=4.0, cov=None,
                 mean=None, sigma=0.6, n_steps=50, n_max=3, offset=0.0, periodic=None, reflective=None, sharp=3.0):
        import pocomc
        from pocomc import mcmc
        from pocomc.flow import Flow
        from pocomc.scaler import Reparameterize
        self.kernel = kernel
        self.fn = getattr(mcmc, kernel)
        self.pre = kernel.startswith("pre")
        self.t = kernel.endswith("pcn")
        self.dim = len(kinds)
        self.log = Log()
        self.prior = ToyPrior(kinds, hole, self.log)
        self.like = Like(self.dim, region, False, blob, sharp, self.log, offset)
        self.scaler = Reparameterize(self.dim, bounds=self.prior.bounds, transform=transform, periodic=periodic, reflective=reflective)
        self.scaler.fit(cloud(kinds))
        with quiet():
            self.flow = Flow(self.dim, KnownFlow(self.dim))
        self.x0 = np.array(x0, float)
        self.n = len(self.x0)
        self.u0 = self.scaler.forward(self.x0)
        self.ldj0 = self.scaler.inverse(self.u0)[1]
        self.logl0 = self.like.pure(self.x0)
        self.logp0 = self.prior.pure_logpdf(self.x0)
        self.beta = beta
        self.blob = blob
        self.nu = nu
        self.cov = np.atleast_2d(cov) if cov is not None else default_cov(self.dim)
        self.mean = np.array(mean if mean is not None else [0.2, -0.1, 0.3][:self.dim], float)
        self.sigma = sigma
        self.n_steps, self.n_max = n_steps, n_max

    # ---- coordinates in which the kernel proposes
    def theta_of_x(self, x):
        u = self.scaler.forward(np.array(x, float), check_input=False)
        return known_forward(self.flow.flow, u)[0] if self.pre else u

    def logtarget(self, x):
        """log of the density the kernel must leave invariant, in its proposal coordinate (without the t reference)"""
        x = np.atleast_2d(x)
        u = self.scaler.forward(np.array(x, float), check_input=False)
        ld = self.scaler.inverse(u)[1]
        v = self.beta * self.like.pure(x) + self.prior.pure_logpdf(x) + ld
        if self.pre:
            v = v - known_forward(self.flow.flow, u)[1]
        return v

    def blobs0(self):
        if self.blob is None:
            return None
        rows = [self.like.blob_of(x) for x in self.x0]
        from .env import BLOB_DTYPE
        dt = BLOB_DTYPE[self.blob]
        if dt is not None:
            return np.array(rows, dtype=dt)
        if self.blob == "str":
            return np.array([r[0] for r in rows], dtype=object)
        a = np.array(rows)
        return np.squeeze(a, axis=1) if a.shape[1] == 1 else a

    def loglike(self, x):
        """what Sampler passes to the kernels: (logl, blobs)"""
        x = np.asarray(x)
        self.log.batches.append(np.array(x, copy=True))
        ll = np.array([self.like.pure1(r) for r in x]) if len(x) else np.zeros(0)
        if self.blob is None:
            return ll, None
        if len(x) == 0:
            return ll, self.blobs0()[:0]
        b = Bench.__new__(Bench)
        b.blob, b.like, b.x0 = self.blob, self.like, x
        return ll, b.blobs0()

    def run(self, script=None, n_max=None, n_steps=None, sigma=None):
        self.log.batches = []
        self.log.prior_calls.clear()
        blobs = self.blobs0()
        state = dict(u=self.u0.copy(), x=self.x0.copy(), logdetj=self.ldj0.copy(), logp=self.logp0.copy(), logl=self.logl0.copy(),
                     beta=self.beta, blobs=blobs)
        geo = Geo(self.mean, self.cov, self.nu)
        fns = dict(loglike=self.loglike, logprior=self.prior.logpdf, scaler=self.scaler, flow=self.flow, u_geometry=geo, theta_geometry=geo)
        opts = dict(n_max=self.n_max if n_max is None else n_max, n_steps=self.n_steps if n_steps is None else n_steps,
                    progress_bar=None, proposal_scale=self.sigma if sigma is None else sigma)
        if self.pre:     # kernels may only read the geometry of their own space
            bad = Geo(np.full(self.dim, 1e3), np.eye(self.dim) * 1e-3, 1.5)
            fns["u_geometry"] = bad
        else:
            bad = Geo(np.full(self.dim, 1e3), np.eye(self.dim) * 1e-3, 1.5)
            fns["theta_geometry"] = bad
        with quiet(), Poison():
            if script is None:
                return self.fn(state, fns, opts)
            with script.tap():
                return self.fn(state, fns, opts)


def cloud(kinds):
    """A fixed set of prior points to fit the scaler."""
    pts = {"U": [-0.7, 0.1, 0.9, 1.6, 0.4, 1.1], "N": [-1.5, -0.2, 0.6, 2.1, 1.0, 0.1], "E": [1.2, 1.9, 2.6, 1.1, 3.5, 1.6],
           "R": [-0.6, -1.2, -2.2, -0.9, -3.0, -1.5], "B": [5.1, 5.2, 5.45, 5.3, 5.05, 5.33]}
    c = []
    for i, k in enumerate(kinds):
        v = pts[k]
        c.append(v[i:] + v[:i])
    return np.array(c).T


def default_cov(dim):
    L = np.array([[1.0, 0, 0], [0.35, 0.8, 0], [-0.25, 0.15, 0.6]])[:dim, :dim]
    return L @ L.T


def starts(kinds, n):
    """n distinct starting points from a per-type lattice"""
    lat = {"U": [-0.6, 0.3, 1.4], "N": [-1.2, 0.4, 2.0], "E": [1.3, 2.0, 3.1], "R": [-0.7, -1.4, -2.6], "B": [5.07, 5.26, 5.44]}
    import itertools
    pts = list(itertools.product(*[lat[k] for k in kinds]))
    step = max(1, len(pts) // n)
    out = (pts[::step] + pts)[:n]
    out = np.array(out, float)
    # perturb repeated ones so that all starting points differ
    return out + 1e-3 * np.arange(len(out))[:, None]
