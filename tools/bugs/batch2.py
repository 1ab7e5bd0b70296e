import os
import sys
_h = open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), "batch1.py")).read()
exec(_h[:_h.index('\nbug("C01')])

bug("C01-jacobian-only-with-flow", "C01",
    [("sampler.py", "        current_particles[\"logdetj\"] = results.get('logdetj').copy()\n",
      "        if self.preconditioned:\n            current_particles[\"logdetj\"] = results.get('logdetj').copy()\n")],
    "sampling without the flow and at least one accepted proposal",
    "accepted particles are stored with the log-Jacobian of their old position, and the next mutation starts from it",
    '''
s = sampler(gauss, n_steps=3, n_max_steps=8)
r = run(s)
u, j = np.asarray(r["u"]), np.asarray(r["logdetj"])
want = np.array([s.scaler.inverse(a)[1] for a in u])
done(np.allclose(j, want), "stored log-Jacobian differs from that of the stored point")
''', also=["C02"])

bug("C02-transposed-factor", "C02",
    [("mcmc.py", "np.dot(chol_cov, np.random.randn(n_dim)) \n", "np.dot(np.random.randn(n_dim), chol_cov)\n")],
    "t-preconditioned Crank-Nicolson without flow on correlated parameters",
    "the proposal noise has covariance L^T L instead of L L^T, so proposals are not reversible for the Student-t reference",
    '''
from pocomc.mcmc import pcn
from pocomc.scaler import Reparameterize
from pocomc.geometry import Geometry
n = 20000
rng = np.random.RandomState(0)
sc = Reparameterize(2, scale=False)
g = Geometry()
g.t_mean, g.t_cov, g.t_nu = np.zeros(2), np.array([[4.0, 1.8], [1.8, 1.0]]), 1e6
u0 = np.zeros((n, 2))
seen = []


def like(x):
    seen.append(x.copy())
    return np.full(len(x), -np.inf), None


np.random.seed(1)
z = np.zeros(n)
pcn(dict(u=u0, x=u0.copy(), logdetj=z, logl=z, logp=z, beta=1.0, blobs=None),
    dict(loglike=like, logprior=lambda x: np.zeros(len(x)), scaler=sc, u_geometry=g),
    dict(n_max=1, n_steps=0, progress_bar=None, proposal_scale=0.5))
c = np.cov(seen[0].T) / 0.25
done(np.allclose(c, g.t_cov, atol=0.25), "covariance of the proposals is %s" % c.tolist())
''')

bug("C03-zero-power", "C03",
    [("mcmc.py", "            np.exp(logl_prime * beta - logl * beta + logp_prime - logp + logdetj_prime - logdetj)\n",
      "            np.exp((logl_prime * beta - logl * beta if beta > 0.0 else 0.0) + logp_prime - logp + logdetj_prime - logdetj)\n")],
    "random-walk Metropolis without flow, an iteration that stays at inverse temperature zero and a region of zero likelihood",
    "zero-likelihood points are accepted at inverse temperature zero (0 to the power 0 is taken as one) and stored",
    '''
s = sampler(cut, sample="rwm", n_effective=64, n_active=8, n_prior=8, dynamic=False, n_steps=4, n_max_steps=8)
try:
    run(s)
except Exception as e:
    print(type(e).__name__, e)
l = np.asarray(s.particles.get("logl"))
done(np.isfinite(l).all(), "%d particles with zero likelihood are stored" % np.sum(~np.isfinite(l)))
''')

bug("C04-last-recorded-evidence", "C04",
    [("sampler.py", "            _, self.logz = self.particles.compute_logw_and_logz(1.0)\n", "            self.logz = self.particles.get(\"logz\", index=-1)\n")],
    "a run without importance samples (the last recorded value lacks the last iterations)",
    "the final SMC evidence is the one recorded when the temperature last advanced, not that of the whole history",
    '''
s = sampler(gauss, n_effective=32)
run(s, n_total=64)
z = s.evidence()[0]
done(abs(z - s.particles.compute_logw_and_logz(1.0)[1]) < 1e-9, "evidence is not that of the complete history")
''', also=["C12"])

bug("C05-stops-early", "C05",
    [("sampler.py", "return 1.0 - current_particles.get(\"beta\") >= 1e-4 or ess < self.n_total", "return 1.0 - current_particles.get(\"beta\") >= 1e-2 or ess < self.n_total")],
    "a ladder that passes through an inverse temperature between 0.99 and 1, with enough particles collected there",
    "the run ends before inverse temperature 1",
    '''
s = sampler(gauss, n_effective=12, n_active=8, dynamic=False)
run(s, n_total=64)
s.n_total = 2
cur = dict(s.current_particles)
print(cur["beta"], s._not_termination(cur))
cur["beta"] = 0.995
done(s._not_termination(cur), "the run would end at inverse temperature 0.995")
''')

bug("C06-without-replacement", "C06",
    [("sampler.py", "idx_resampled = np.random.choice(np.arange(len(weights)), size=self.n_active, replace=True, p=weights)",
      "idx_resampled = np.random.choice(np.arange(len(weights)), size=self.n_active, replace=np.count_nonzero(weights) < 4 * self.n_active, p=weights)")],
    "a history with at least four times as many weighted particles as active ones",
    "active particles are drawn without replacement, which under-represents heavy particles",
    '''
s = sampler(gauss, n_effective=16, n_active=4)
run(s)
m = 40
w = np.full(m, 0.2 / (m - 1))
w[7] = 0.8
cp = dict(u=np.arange(m)[:, None] * 1.0, x=np.arange(m)[:, None] * 1.0, logdetj=np.zeros(m), logl=np.zeros(m), logp=np.zeros(m), weights=w, blobs=None)
np.random.seed(0)
c = np.mean([np.mean(s._resample(dict(cp))["x"][:, 0] == 7) for _ in range(400)])
done(abs(c - 0.8) < 0.1, "a particle of weight 0.8 gets %.2f of the draws" % c)
''')

bug("C07-absolute-maximum", "C07",
    [("tools.py", "    logw_max = np.max(logw)\n", "    logw_max = np.max(np.abs(logw))\n", 0)],
    "log-weights that are all below about -350",
    "the relative effective sample size is not a number: it is not invariant to scaling the weights",
    '''
from pocomc.tools import compute_ess
a = compute_ess(np.array([0.0, -1.0, -2.0]))
b = compute_ess(np.array([0.0, -1.0, -2.0]) - 800.0)
done(abs(a - b) < 1e-9, "%r becomes %r" % (a, b))
''')

bug("C08-clamped-tail-jacobian", "C08",
    [("scaler.py", "(-u[:, self.mask_both]**2.0 / 2.0)", "np.maximum(-u[:, self.mask_both]**2.0 / 2.0, -12.5)")],
    "a probit-transformed parameter more than five latent standard deviations away",
    "the log-determinant is cut off in the tails",
    '''
from pocomc.scaler import Reparameterize
s = Reparameterize(1, bounds=np.array([[0.0, 1.0]]), scale=False)
j = s.inverse(np.array([[-6.0]]))[1][0]
done(abs(j - norm.logpdf(6.0)) < 1e-6, "log-determinant %g, expected %g" % (j, norm.logpdf(6.0)))
''')

bug("C10-unlink-first", "C10",
    [("sampler.py", "        os.rename(temp_path, path)\n", "        Path(path).unlink(missing_ok=True)\n        os.rename(temp_path, path)\n")],
    "a crash (or an error) between removing the old checkpoint and renaming the new one",
    "neither the old nor the new checkpoint is at the path",
    '''
import os
import tempfile

with tempfile.TemporaryDirectory() as d:
    s = sampler(gauss, output_dir=d)
    run(s)
    path = os.path.join(d, "a.state")
    s.save_state(path)
    real = os.rename

    def fails(*a, **k):
        raise OSError("no space")
    os.rename = os.replace = fails
    try:
        s.save_state(path)
    except OSError:
        pass
    os.rename = real
    ok = os.path.exists(path)
done(ok, "the previous checkpoint is gone after a failed save")
''')

bug("C11-own-particle-numbers", "C11",
    [("sampler.py", "        self.__dict__ = {**self.__dict__, **state}\n", "        self.__dict__ = {**self.__dict__, **state, 'n_effective': self.n_effective, 'n_active': self.n_active}\n")],
    "a dynamic run whose target sample size was adapted before the checkpoint",
    "the resumed run starts again from the initial target instead of the adapted one",
    '''
import os
import tempfile

with tempfile.TemporaryDirectory() as d:
    like = lambda x: -0.5 * float(np.sum((x - 0.3) ** 2)) * 400.0
    s = sampler(like, output_dir=d, n_effective=32, n_active=16, dynamic=True)
    run(s, n_total=64, save_every=1)
    q = sampler(like, output_dir=d, n_effective=32, n_active=16, dynamic=True)
    q.load_state(os.path.join(d, "pmc_final.state"))
    print(s.n_effective, q.n_effective)
done(s.n_effective == q.n_effective and s.n_effective != 32, "target sample size %d restored as %d" % (s.n_effective, q.n_effective))
''')

bug("C12-cached-weights", "C12",
    [("sampler.py", "        logw, _ = self.particles.compute_logw_and_logz(1.0)\n        weights = np.exp(logw)\n\n        if trim",
      "        if getattr(self, '_logw_iter', None) != self.t:\n            self._logw, self._logw_iter = self.particles.compute_logw_and_logz(1.0)[0], self.t\n        logw = self._logw.copy()\n        weights = np.exp(logw)\n\n        if trim")],
    "reading the posterior, loading a state from the same sampler saved before, continuing with other random numbers for as many iterations, and reading again",
    "the second posterior has the weights of the first history",
    '''
import os
import tempfile

with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "a.state")
    s = sampler(gauss)
    run(s)
    s.save_state(path)
    hit = 0
    ok = True
    last = None
    for k in range(6):
        s.load_state(path)
        np.random.seed(k)
        run(s, n_total=40)
        w = s.posterior(trim_importance_weights=False)[1]
        hit += last == s.t
        last = s.t
        want = np.exp(s.particles.compute_logw_and_logz(1.0)[0])
        ok = ok and len(w) == len(want) and np.allclose(w, want)
    print(hit)
done(ok, "posterior weights belong to another history")
''')

bug("C14-unordered", "C14",
    [("sampler.py", "            results = list(self.distribute(self.log_likelihood, x))\n",
      "            results = list(getattr(self.pool, 'imap_unordered', self.distribute)(self.log_likelihood, x))\n")],
    "a process pool with imap_unordered and likelihood evaluations that finish out of order",
    "log-likelihoods are assigned to the wrong points",
    '''
import time
from multiprocess import Pool


def slow(x):
    time.sleep(0.02 if x[0] < 0.5 else 0.0)
    return gauss(x)


if __name__ == "__main__":
    with Pool(4) as p:
        s = sampler(slow, pool=p, n_max_steps=1)
        r = run(s)
    x, l = np.asarray(r["x"]).reshape(-1, 2), np.asarray(r["logl"]).reshape(-1)
    done(np.allclose(l, [gauss(a) for a in x]), "stored log-likelihoods belong to other points")
''')

bug("C15-probe-status", "C15",
    [("parallel.py", "            if tasklist:\n                flag = self.comm.Iprobe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG)\n", "            status = MPI.Status()\n            if tasklist:\n                flag = self.comm.Iprobe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=status)\n"),
     ("parallel.py", "                self.comm.Probe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG)\n\n            status = MPI.Status()\n            result = self.comm.recv(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG,\n                                    status=status)\n",
      "                self.comm.Probe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=status)\n\n            result = self.comm.recv(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG)\n")],
    "a second worker's answer arriving between the probe and the receive, and being matched first",
    "the answer is attributed to another task and worker",
    '''
import types
import pocomc.parallel as par


class Status:
    source = tag = -1


par.MPI = types.SimpleNamespace(ANY_SOURCE=-1, ANY_TAG=-1, Status=Status, COMM_WORLD=None)


class Comm:
    """Two answers are on their way whenever possible; an unspecific receive takes the newest one."""
    size = 3

    def __init__(self):
        self.box = []

    def Get_rank(self):
        return 0

    def Get_size(self):
        return self.size

    def send(self, obj, dest, tag=0):
        if obj is not None:
            self.box.append((dest, tag, obj[0](obj[1])))

    def _find(self, source, tag, newest):
        m = [b for b in self.box if source in (-1, b[0]) and tag in (-1, b[1])]
        return m[-1 if newest else 0] if m else None

    def Iprobe(self, source=-1, tag=-1, status=None):
        b = self._find(source, tag, False)
        if b and status is not None:
            status.source, status.tag = b[:2]
        return b is not None

    Probe = Iprobe

    def recv(self, source=-1, tag=-1, status=None):
        b = self._find(source, tag, True)
        self.box.remove(b)
        if status is not None:
            status.source, status.tag = b[:2]
        return b[2]


def sq(a):
    return a * a


# all workers are given work before the first answer is looked for
class Slow(Comm):
    def Iprobe(self, source=-1, tag=-1, status=None):
        return len(self.box) > 1 and Comm.Iprobe(self, source, tag, status)


p = par.MPIPool(Slow(), use_dill=False)
got = p.map(sq, list(range(6)))
done(list(got) == [a * a for a in range(6)], "results %s" % got)
''')

bug("C16-error-without-empty-samples", "C16",
    [("sampler.py", "        dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])\n",
      "        logw = logw[np.isfinite(logw)]\n        dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(n) for _ in range(np.maximum(n,1000))])\n")],
    "importance samples outside of the support or with zero likelihood",
    "the reported error ignores the samples without contribution and is too small",
    '''
lo = norm.ppf(0.1)
s = sampler(lambda x: 0.0 if x[0] < lo else -np.inf, n_effective=64, n_active=32, prior=pc.Prior([norm(0.0, 1.0), norm(0.0, 1.0)]))
run(s, n_evidence=0, n_total=64)


class Exact:
    """Samples of the prior with their exact density."""

    def sample(self, n):
        x = s.prior.rvs(n)
        u = s.scaler.forward(x)
        x, j = s.scaler.inverse(u)
        return torch.tensor(u), torch.tensor(s.prior.logpdf(x) + j)


s.flow = Exact()
np.random.seed(0)
z, e = [], []
for k in range(40):
    a, b = s._compute_evidence(256)
    z.append(a)
    e.append(b)
print(np.std(z), np.mean(e))
done(np.mean(e) > 0.6 * np.std(z), "spread of the evidence %.3f, reported error %.3f" % (np.std(z), np.mean(e)))
''')

bug("C17-scale-above-one", "C17",
    [("mcmc.py", "np.minimum(2.38 / n_dim**0.5, 0.99)", "2.38 / n_dim**0.5", 1)],
    "t-preconditioned Crank-Nicolson without flow in fewer than six dimensions with many highly accepted steps",
    "the proposal scale grows beyond one, proposals become not-a-number and the population freezes",
    '''
s = sampler(lambda x: 0.0, prior=pc.Prior([norm(0.0, 1.0), norm(0.0, 1.0)]), n_steps=40, n_max_steps=60, n_effective=64, n_active=32)
r = run(s, n_total=256)
eff = np.asarray(r["efficiency"])[4:]
acc = np.asarray(r["accept"])[4:]
print(eff, acc)
done(eff.max() * 2.38 / 2 ** 0.5 < 1.0, "proposal scale up to %g" % (eff.max() * 2.38 / 2 ** 0.5))
''')

bug("C18-shared-component", "C18",
    [("prior.py", "        samples = []\n        for dist in self.dists:\n            samples.append(dist.rvs(size=size))\n        return np.transpose(samples)",
      "        draws = {dist: dist.rvs(size=size) for dist in self.dists}\n        return np.transpose([draws[dist] for dist in self.dists])")],
    "the same distribution object used for several parameters",
    "these parameters get identical draws instead of independent ones",
    '''
d = norm(0.0, 1.0)
x = pc.Prior([d, uniform(0.0, 1.0), d]).rvs(50)
done(x.shape == (50, 3) and not np.allclose(x[:, 0], x[:, 2]), "two parameters always have the same value")
''')

bug("C19-effective-from-default", "C19",
    [("sampler.py", "            self.n_active = int(n_effective/2)\n", "            self.n_active = int(np.maximum(n_effective//2, 32))\n")],
    "n_active=None together with fewer than 64 effective particles",
    "the number of active particles is not half of the effective ones",
    '''
s = sampler(gauss, n_effective=20, n_active=None)
done(s.n_active == 10, "n_active is %s" % s.n_active)
''')

bug("C20-smoothed-weights", "C20",
    [("geometry.py", "            idx_resampled = systematic_resample(len(theta), weights=weights)\n",
      "            weights = weights + 1e-2 * np.mean(weights)\n            idx_resampled = systematic_resample(len(theta), weights=weights)\n")],
    "many zero-weight samples",
    "samples of zero weight influence the Student-t fit",
    '''
from pocomc.geometry import Geometry
rng = np.random.RandomState(0)
th = np.concatenate([rng.randn(40, 2), 1e3 + rng.randn(400, 2)])
w = np.concatenate([np.ones(40), np.zeros(400)]) / 40
g = Geometry()
np.random.seed(1)
g.fit(th, w)
done(g.t_cov.max() < 10.0, "scale matrix %s" % g.t_cov.tolist())
''')

bug("C21-truncated-strings", "C21",
    [("sampler.py", "                if dt.kind in \"US\":\n", "                if dt.kind in \"S\":\n")],
    "string blobs of different lengths",
    "longer strings are cut to the length of the first one",
    '''
def name(x):
    return "a" * (1 + int(abs(x[0]) * 7) % 5)


s = sampler(lambda x: (gauss(x), name(x)))
r = run(s)
x, b = np.asarray(r["x"]).reshape(-1, 2), np.asarray(r["blobs"]).reshape(-1)
done(all(name(a) == c for a, c in zip(x, b)), "stored strings are truncated")
''')

bug("C22-torch-seed-late", "C22",
    [("sampler.py", "            np.random.seed(random_state)\n            torch.manual_seed(random_state)\n", "            np.random.seed(random_state)\n"),
     ("sampler.py", "        self.flow_untrained = True\n\n        # Scaler", "        self.flow_untrained = True\n        if random_state is not None:\n            torch.manual_seed(random_state)\n\n        # Scaler")],
    "torch random numbers consumed before the sampler is constructed",
    "the initial flow parameters do not depend on the seed, so runs with the same seed differ",
    '''
out = []
for k in (0, 1):
    torch.manual_seed(k)
    s = sampler(gauss, precondition=True, flow="maf3", random_state=5)
    out.append(np.asarray(run(s)["x"]))
done(out[0].shape == out[1].shape and np.array_equal(*out), "two runs with the same seed differ")
''')

bug("C23-chunked-sampling", "C23",
    [("flow.py", "        x, log_p = self.flow().rsample_and_log_prob((size,))\n        return x, log_p\n",
      "        parts = [self.flow().rsample_and_log_prob((min(1024, size - i),)) for i in range(0, size, 1024)]\n        x = torch.cat([p[0] for p in parts])\n        log_p = torch.cat([p[1] for p in sorted(parts, key=lambda p: len(p[1]))])\n        return x, log_p\n")],
    "drawing more than 1024 samples, not a multiple of 1024",
    "log-probabilities come in another order than the samples",
    '''
from pocomc.flow import Flow
torch.manual_seed(0)
f = Flow(2, "maf3")
with torch.no_grad():
    x, p = f.sample(1500)
    q = f.log_prob(x)
done(x.shape == (1500, 2) and torch.allclose(p, q, atol=1e-2), "log-probabilities are not those of the samples")
''')

bug("C24-validation-weights", "C24",
    [("flow.py", "                weights_valid = weights[n_train:]\n", "                weights_valid = weights[:len(x_valid)]\n")],
    "weighted training with a validation split",
    "validation samples get the weights of training samples",
    '''
from pocomc.flow import Flow
torch.manual_seed(0)
f = Flow(1, "maf3")
x = torch.linspace(-1.0, 1.0, 8)[:, None]
w = torch.tensor([1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 4.0])
h = f.fit(x, weights=w, validation_split=0.5, epochs=1, learning_rate=0.0, shuffle=False, batch_size=8)
with torch.no_grad():
    want = float(-f.log_prob(x[7:]).sum()) * 1000.0 / 4
done(abs(h["val_loss"][0] - want) < 1e-2 * abs(want), "validation loss %g, expected %g" % (h["val_loss"][0], want))
''')

bug("C25-fixed-threshold", "C25",
    [("sampler.py", "trim_weights(np.arange(len(samples)), weights, ess=ess_trim, bins=bins_trim)", "trim_weights(np.arange(len(samples)), weights, ess=min(ess_trim, 0.99), bins=bins_trim)")],
    "a requested fraction of the effective sample size above 0.99",
    "trimming keeps less of the effective sample size than requested",
    '''
s = sampler(lambda x: -0.5 * float(np.sum((x - 0.3) ** 2)) * 40.0, n_effective=64, n_active=32)
run(s, n_total=256)
w0 = s.posterior(trim_importance_weights=False)[1]
w = s.posterior(ess_trim=0.9999)[1]
f = (1 / np.sum(w ** 2)) / (1 / np.sum((w0 / w0.sum()) ** 2))
done(f >= 0.9999 - 1e-9, "kept %.5f of the effective sample size" % f)
''')
