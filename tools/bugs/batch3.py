import os
import sys
_h = open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), "batch1.py")).read()
exec(_h[:_h.index('\nbug("C01')])

bug("C02-fixed-mean-in-factor", "C02",
    [("mcmc.py", "        diff_prime = theta_prime-mu\n", "        diff_prime = theta_prime - geometry.t_mean\n")],
    "preconditioned Crank-Nicolson with at least two steps (the mean is adapted after the first)",
    "the Student-t density of the proposal is taken about the initial mean, that of the current point about the adapted one",
    '''
from pocomc.mcmc import preconditioned_pcn
from pocomc.scaler import Reparameterize
from pocomc.geometry import Geometry
import zuko
n = 4000
sc = Reparameterize(1, scale=False)


class Identity:
    def forward(self, v):
        return v, torch.zeros(len(v))

    def inverse(self, v):
        return v, torch.zeros(len(v))


g = Geometry()
g.t_mean, g.t_cov, g.t_nu = np.array([2.0]), np.array([[1.0]]), 5.0
np.random.seed(0)
u = np.random.standard_t(5, size=(n, 1))
def lp(x):
    from scipy.stats import t
    return t.logpdf(x[:, 0], 5)


z = np.zeros(n)
m = []
r = preconditioned_pcn(dict(u=u, x=u.copy(), logdetj=z, logl=z, logp=lp(u), beta=1.0, blobs=None),
                       dict(loglike=lambda x: (np.zeros(len(x)), None), logprior=lp, scaler=sc, flow=Identity(), theta_geometry=g),
                       dict(n_max=60, n_steps=1000, progress_bar=None, proposal_scale=0.6))
x = r["x"][:, 0]
print(x.mean(), np.mean(np.abs(x)))
from scipy.stats import t
want = t.expect(abs, (5,))
done(abs(x.mean()) < 0.1 and abs(np.mean(np.abs(x)) - want) < 0.08, "the target distribution is not preserved: mean %.3f, mean size %.3f (expected %.3f)" % (x.mean(), np.mean(np.abs(x)), want))
''')

bug("C04-single-precision-history", "C04",
    [("particles.py", "        logl = self.get(\"logl\")\n        beta", "        logl = self.get(\"logl\").astype(np.float32)\n        beta")],
    "log-likelihoods of large magnitude",
    "importance weights and evidence are computed in single precision",
    '''
s = sampler(lambda x: gauss(x) - 1e6)
run(s)
t = sampler(gauss)
run(t)
d = s.evidence()[0] - t.evidence()[0]
done(abs(d + 1e6) < 1e-4, "a constant of -1e6 shifts the evidence by %.6f" % d)
''')

bug("C06-stratified", "C06",
    [("tools.py", "positions = (np.random.random() + np.arange(size)) / size", "positions = (np.random.random(size) + np.arange(size)) / size")],
    "weights whose product with the size is close to an integer, and unequal offsets in neighbouring strata",
    "each stratum has its own offset, so counts leave the floor/ceiling bounds of systematic resampling",
    '''
from pocomc.tools import systematic_resample
w = np.array([0.35, 0.3, 0.35])
np.random.seed(0)
bad = 0
for _ in range(400):
    c = np.bincount(systematic_resample(4, w), minlength=3)
    bad += np.any(c < np.floor(4 * w)) or np.any(c > np.ceil(4 * w))
done(bad == 0, "%d of 400 draws leave the bounds" % bad)
''')

bug("C07-relative-to-positive", "C07",
    [("tools.py", "    return 1.0 / np.sum(weights * weights) / len(weights)\n", "    return 1.0 / np.sum(weights * weights) / np.count_nonzero(weights)\n")],
    "log-weights of minus infinity",
    "the relative effective sample size ignores samples of zero weight",
    '''
from pocomc.tools import compute_ess
e = compute_ess(np.array([0.0, 0.0, -np.inf, -np.inf]))
done(abs(e - 0.5) < 1e-12, "relative effective sample size %g" % e)
''')

bug("C08-order-of-scaling", "C08",
    [("scaler.py", "            x = self.mu + np.array([np.dot(self.L, ui) for ui in u])", "            x = self.mu + np.dot(u, self.L)")],
    "full (non-diagonal) scaling with correlated parameters",
    "the scaling of the inverse map multiplies from the wrong side",
    '''
from pocomc.scaler import Reparameterize
rng = np.random.RandomState(0)
x = rng.randn(50, 2) @ np.array([[1.0, 0.8], [0.0, 0.5]])
s = Reparameterize(2, diagonal=False)
s.fit(x)
done(np.allclose(s.inverse(s.forward(x))[0], x), "forward and inverse do not match")
''')

bug("C10-copy-over", "C10",
    [("sampler.py", "        os.rename(temp_path, path)\n", "        import shutil\n        shutil.copyfile(temp_path, path)\n        os.remove(temp_path)\n")],
    "a crash or error while the new state is copied over the old one",
    "the checkpoint path holds an incomplete state",
    '''
import os
import shutil
import tempfile

with tempfile.TemporaryDirectory() as d:
    s = sampler(gauss, output_dir=d)
    run(s)
    path = os.path.join(d, "a.state")
    s.save_state(path)

    def torn(src, dst, **k):
        with open(dst, "wb") as f:
            f.write(open(src, "rb").read()[:1000])
        raise OSError("no space")

    def fails(*a, **k):
        raise OSError("no space")
    shutil.copyfile, os.rename, os.replace = torn, fails, fails
    try:
        s.save_state(path)
    except OSError:
        pass
    t = sampler(gauss)
    try:
        t.load_state(path)
        ok = True
    except Exception as e:
        print(e)
        ok = False
done(ok, "the previous checkpoint is destroyed by a failed save")
''')

bug("C11-scale-not-restored", "C11",
    [("sampler.py", "        self.__dict__ = {**self.__dict__, **state}\n", "        self.__dict__ = {**self.__dict__, **state, 'proposal_scale': self.proposal_scale}\n")],
    "a checkpoint written after at least one mutation stage",
    "the resumed run starts with the initial proposal scale",
    '''
import os
import tempfile
with tempfile.TemporaryDirectory() as d:
    s = sampler(gauss, output_dir=d)
    run(s)
    p = os.path.join(d, "a.state")
    s.save_state(p)
    t = sampler(gauss)
    t.load_state(p)
done(t.proposal_scale == s.proposal_scale, "proposal scale %r restored as %r" % (s.proposal_scale, t.proposal_scale))
''')

bug("C12-flat-cache", "C12",
    [("particles.py", "                return np.concatenate(self.past.get(key))\n",
      "                flat = self.__dict__.setdefault(\"flat\", {})\n                if key not in flat or len(flat[key]) < sum(len(p) for p in self.past.get(key)):\n                    flat[key] = np.concatenate(self.past.get(key))\n                return flat[key]\n")],
    "the caller changes an array returned by an untrimmed posterior",
    "returned arrays are the sampler's own, so using them changes what is read later",
    '''
s = sampler(gauss)
run(s)
a = s.posterior(trim_importance_weights=False)
x = a[0].copy()
a[0][:] = 0.0
b = s.posterior(trim_importance_weights=False)
done(np.array_equal(b[0], x), "changing the returned samples changes the history")
''')

bug("C14-skip-duplicates", "C14",
    [("sampler.py", "            results = list(self.distribute(self.log_likelihood, x))\n",
      "            x, first = np.unique(x, axis=0, return_inverse=True)\n            results = list(self.distribute(self.log_likelihood, x))\n            results = [results[i] for i in first.ravel()] if len(x) > 1 else results\n")],
    "pool execution with requests that contain equal points (and nothing else)",
    "fewer results than points when all points of a request are equal",
    '''
class P:
    def map(self, f, x):
        return [f(a) for a in x]


s = sampler(gauss, pool=P())
x = np.array([[0.1, 0.2]] * 4)
l = s._log_like(x)[0]
n = []


def count(x):
    n.append(1)
    return gauss(x)


t = sampler(count, pool=P())
t._log_like(np.array([[0.1, 0.2]] * 4))
done(len(l) == 4 and len(n) == 4, "%d results for four points, %d evaluations" % (len(l), len(n)))
''')

bug("C16-truncated-weights", "C16",
    [("sampler.py", "        # compute log evidence\n", "        logw = np.minimum(logw, np.logaddexp.reduce(logw) - 0.5 * np.log(len(logw)))\n\n        # compute log evidence\n")],
    "an importance sample that carries more than 1/sqrt(n) of the total weight",
    "dominant importance weights are truncated, the evidence is biased low",
    '''
s = sampler(lambda x: 40.0 * gauss(x), n_effective=32, n_active=16, precondition=True, flow="maf3")
run(s, n_evidence=16)
class Fixed:
    def sample(self, n):
        u = torch.linspace(-1.0, 1.0, 2 * n, dtype=torch.float64).reshape(n, 2)
        return u, torch.zeros(n, dtype=torch.float64)


s.flow = Fixed()
z = s._compute_evidence(32)[0]
u = np.linspace(-1.0, 1.0, 64).reshape(32, 2).astype(np.float64)
x, j = s.scaler.inverse(u)
lw = np.array([40.0 * gauss(a) for a in x]) + s.prior.logpdf(x) + j
want = np.logaddexp.reduce(lw) - np.log(32)
done(abs(z - want) < 1e-6, "evidence %g, expected %g" % (z, want))
''')

bug("C17-last-not-best", "C17",
    [("mcmc.py", "            cnt += 1\n", "            cnt += 1\n            logp2_val = logp2_val_new\n", 3)],
    "random-walk Metropolis without flow and a mean log-density that goes up and down",
    "a step that only improves on the previous one, not on the best, restarts the count, so mutation takes longer than documented",
    '''
from pocomc.mcmc import rwm
from pocomc.scaler import Reparameterize
from pocomc.geometry import Geometry
g = Geometry()
g.normal_mean, g.normal_cov = np.zeros(1), np.eye(1)
g.t_mean, g.t_cov, g.t_nu = np.zeros(1), np.eye(1), 1e6
n = [0]


def like(x):
    n[0] += 1
    return np.full(len(x), [-1.0, -0.5][n[0] % 2] if n[0] > 1 else -1.0), None


z = np.zeros(4)
steps = []
real = np.random.rand
np.random.rand = lambda *a: np.zeros(a)
np.random.seed(0)
r = rwm(dict(u=np.zeros((4, 1)), x=np.zeros((4, 1)), logdetj=z, logl=z, logp=z, beta=1.0, blobs=None),
        dict(loglike=like, logprior=lambda x: np.zeros(len(x)), scaler=Reparameterize(1, scale=False), u_geometry=g),
        dict(n_max=200, n_steps=5, progress_bar=None, proposal_scale=2.38))
print(r["steps"])
done(r["steps"] < 20, "%d steps without improvement on the best" % r["steps"])
''')

bug("C18-common-seed", "C18",
    [("prior.py", "        for dist in self.dists:\n            samples.append(dist.rvs(size=size))\n", "        seed = np.random.randint(2**31)\n        for dist in self.dists:\n            samples.append(dist.rvs(size=size, random_state=seed))\n")],
    "any prior with two parameters",
    "all components are drawn from the same random numbers and are perfectly dependent",
    '''
np.random.seed(0)
x = pc.Prior([norm(0.0, 1.0), norm(5.0, 2.0)]).rvs(200)
c = np.corrcoef(x.T)[0, 1]
done(abs(c) < 0.4, "correlation of independent parameters is %.3f" % c)
''')

bug("C19-always-shuffles", "C19",
    [("sampler.py", "                          shuffle=self.train_config[\"shuffle\"],\n", "                          shuffle=True,\n")],
    "train_config with shuffle=False",
    "the training option is ignored",
    '''
seen = []
s = sampler(gauss, precondition=True, flow="maf3", train_config=dict(epochs=1, shuffle=False, patience=7, noise=0.1))
real = s.flow.fit
s.flow.fit = lambda *a, **k: (seen.append(k), real(*a, **k))[1]
run(s)
done(seen and all(k["shuffle"] is False and k["patience"] == 7 and k["noise"] == 0.1 for k in seen), "training was called with other options")
''')

bug("C20-jitter", "C20",
    [("student.py", "    Sigma = np.cov(data)*(n-1)/n + (1/n)*np.diag(np.var(data, axis=1))\n", "    Sigma = np.cov(data)*(n-1)/n + (1/n)*np.diag(np.var(data, axis=1)) + 1e-6*np.eye(dim)\n")],
    "parameters with a scale of about 1e-3 or less",
    "the scale matrix does not scale with the data",
    '''
from pocomc.student import fit_mvstud
x = np.random.RandomState(0).randn(100, 2)
a = fit_mvstud(x)[1]
b = fit_mvstud(x * 1e-4)[1] * 1e8
done(np.allclose(a, b, rtol=1e-3), "scale matrix %s becomes %s" % (a.tolist(), b.tolist()))
''')

bug("C21-first-blob-shape", "C21",
    [("sampler.py", "                axes = np.arange(len(shape))[np.array(shape) == 1] + 1\n", "                axes = np.arange(len(shape))[np.array(shape) <= 2] + 1\n                axes = axes[[blob.shape[a] == 1 or np.array_equal(*np.moveaxis(blob, a, 0)) for a in axes]] if len(axes) else axes\n                blob = blob if not len(axes) else np.take(blob, [0], axis=axes[0])\n                axes = axes[:1]\n")],
    "two blobs per point that are equal at all points of one request",
    "equal blobs are merged, the number of blobs per point changes during the run",
    '''
s = sampler(lambda x: (gauss(x), float(x[0] > 0.5), float(x[0] > 0.5)), n_active=4, n_effective=8)
try:
    r = run(s)
    b = np.asarray(r["blobs"])
    ok = b.shape == np.asarray(r["x"]).shape[:2] + (2,)
except Exception as e:
    print(e)
    ok = False
done(ok, "blobs lost their shape")
''')

bug("C22-random-temp-name", "C22",
    [("sampler.py", "        temp_path = Path(f'{path}.temp')\n", "        temp_path = Path(f'{path}.{np.random.randint(10**6)}.temp')\n")],
    "a run that saves checkpoints",
    "saving consumes random numbers of the run, results depend on the saving frequency",
    '''
import tempfile
out = []
with tempfile.TemporaryDirectory() as d:
    for e in (None, 1):
        s = sampler(gauss, output_dir=d)
        out.append(np.asarray(run(s, save_every=e)["x"]))
done(out[0].shape == out[1].shape and np.array_equal(*out), "results depend on saving")
''')

bug("C23-clamped-density", "C23",
    [("flow.py", "        return self.flow().log_prob(x)\n", "        return self.flow().log_prob(x).clamp(min=-100.0)\n")],
    "points far from the bulk of the flow",
    "the log-probability is not the base density plus the log-determinant",
    '''
from pocomc.flow import Flow
torch.manual_seed(0)
f = Flow(2, "maf3")
with torch.no_grad():
    x = torch.tensor([[20.0, -20.0], [0.1, 0.2]])
    z, j = f.forward(x)
    want = -0.5 * (z ** 2).sum(-1) - np.log(2 * np.pi) + j
    got = f.log_prob(x)
done(torch.allclose(got, want, rtol=1e-3), "log-probability %s, expected %s" % (got.tolist(), want.tolist()))
''')

bug("C24-nan-is-best", "C24",
    [("flow.py", "            if history[monitor][-1] < best_loss:\n", "            if not history[monitor][-1] >= best_loss:\n")],
    "a loss that becomes not-a-number",
    "an undefined loss counts as the best one, so the parameters restored are those that gave it",
    '''
from pocomc.flow import Flow
import zuko


torch.manual_seed(0)
f = Flow(1, "maf3")
x = torch.linspace(-1.0, 1.0, 16)[:, None]
real = type(f.flow()).log_prob
n = [0]
D = type(f.flow())


def lp(self, v):
    n[0] += 1
    r = real(self, v)
    return r * float("nan") if n[0] in (2, 3, 4, 5, 6, 7, 8, 9) else r


D.log_prob = lp
h = f.fit(x, epochs=9, patience=2, batch_size=16, validation_split=0.0, learning_rate=1e-3)
D.log_prob = real
with torch.no_grad():
    ok = bool(torch.isfinite(f.log_prob(x)).all())
print(h["loss"])
done(ok and len(h["loss"]) < 9, "parameters of an epoch with undefined loss are restored")
''')

bug("C25-bins-ignored", "C25",
    [("sampler.py", "trim_weights(np.arange(len(samples)), weights, ess=ess_trim, bins=bins_trim)", "trim_weights(np.arange(len(samples)), weights, ess=ess_trim, bins=1_000)")],
    "bins_trim other than 1000",
    "the number of bins for trimming is ignored",
    '''
s = sampler(lambda x: -0.5 * float(np.sum((x - 0.3) ** 2)) * 10.0, n_effective=64, n_active=32)
run(s, n_total=128)
from pocomc.tools import trim_weights
w = s.posterior(trim_importance_weights=False)[1]
n = len(trim_weights(np.arange(len(w)), w.copy(), ess=0.5, bins=3)[1])
m = len(s.posterior(ess_trim=0.5, bins_trim=3)[1])
done(n == m, "%d samples kept, %d with three bins" % (m, n))
''')

bug("C26-warm-up-done", "C26",
    [("sampler.py", "            for i in range(self.t, self.n_prior//self.n_active):\n", "            self.warmup = False\n            for i in range(self.t, self.n_prior//self.n_active):\n")],
    "a likelihood that raises during the warm-up, and a second call of run",
    "the remaining prior batches are skipped when the run is continued",
    '''
n = [0]


def like(x):
    n[0] += 1
    if n[0] == 12:
        raise KeyboardInterrupt
    return gauss(x)


s = sampler(like)
try:
    run(s)
except KeyboardInterrupt:
    pass
r = run(s)
k = int(np.sum(np.asarray(r["beta"]) == 0.0))
x = np.asarray(r["x"])[:s.n_prior // s.n_active].reshape(-1, 2)
done(np.array_equal(x, s.prior_samples), "only %d prior batches in the history" % k)
''')

bug("C26-errors-are-zero", "C26",
    [("tools.py", "        return self.f(x, *self.args, **self.kwargs)\n",
      "        try:\n            return self.f(x, *self.args, **self.kwargs)\n        except ArithmeticError:\n            return -np.inf\n")],
    "a likelihood that raises an arithmetic error",
    "errors of the user's function are hidden as zero likelihood",
    '''
n = [0]


def like(x):
    n[0] += 1
    if n[0] == 50:
        raise ZeroDivisionError("mine")
    return gauss(x)


s = sampler(like)
try:
    run(s)
    ok = False
except ZeroDivisionError:
    ok = True
done(ok, "the error of the likelihood is not reported")
''')

bug("C26-count-first", "C26",
    [("sampler.py", "        current_particles[\"iter\"] = self.t\n        self.t += 1\n", "        current_particles[\"iter\"] = self.t\n        self.particles.past[\"iter\"].append(self.t)\n        self.t += 1\n"),
     ("particles.py", "            if key in self.past.keys():\n                value", "            if key in self.past.keys() and not (key == \"iter\" and data[key] in self.past[key]):\n                value")],
    "a likelihood that raises in a mutation stage",
    "the label of an iteration is stored before the iteration is complete, so the history left behind is ragged",
    '''
n = [0]


def like(x):
    n[0] += 1
    if n[0] == 50:
        raise KeyboardInterrupt
    return gauss(x)


s = sampler(like)
try:
    run(s)
except KeyboardInterrupt:
    pass
a, b = len(s.particles.get("iter")), len(s.particles.get("x"))
r = run(s)
print(a, b, np.asarray(r["iter"]))
done(a == b and len(r["iter"]) == len(r["x"]), "%d labels for %d iterations" % (a, b))
''')
