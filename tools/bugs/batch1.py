PRE = '''
import sys
import numpy as np
import torch
import pocomc as pc
from scipy.stats import norm, uniform


def sampler(loglike, prior=None, **kw):
    prior = prior or pc.Prior([uniform(-1.0, 3.0), norm(0.3, 1.5)])
    a = dict(n_effective=16, n_active=8, n_steps=1, n_max_steps=4, random_state=3, precondition=False, train_config=dict(epochs=1))
    a.update(kw)
    return pc.Sampler(prior, loglike, **a)


def run(s, **kw):
    a = dict(n_total=16, n_evidence=0, progress=False)
    a.update(kw)
    s.run(**a)
    return s.results


def gauss(x):
    return -0.5 * float(np.sum((x - 0.3) ** 2)) * 4.0


def cut(x):
    return -np.inf if x[0] > 0.6 else gauss(x)


def done(ok, what):
    print("ok" if ok else "BROKEN: " + what)
    sys.exit(0 if ok else 1)

'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, also=()):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo, also=list(also)))


bug("C01-replaced-draw-keeps-jacobian", "C01",
    [("sampler.py", "                    logdetj[infinite_idx] = logdetj[idx]\n", "                    logdetj = logdetj\n")],
    "a warm-up batch in which some prior draws have zero likelihood",
    "a replaced prior draw keeps the log-Jacobian of the point it replaced, so a stored row mixes two points",
    '''
s = sampler(cut)
r = run(s)
x, u, j = (np.asarray(r[k]) for k in ("x", "u", "logdetj"))
want = np.array([s.scaler.inverse(a)[1] for a in u])
done(np.allclose(j, want), "stored log-Jacobian differs from that of the stored point")
''')

bug("C02-stale-flow-jacobian", "C02",
    [("mcmc.py", "        logdetj_flow[mask] = logdetj_flow_prime[mask]\n", "        logdetj_flow = np.where(mask & (u_rand < 0.5), logdetj_flow_prime, logdetj_flow)\n", 1)],
    "preconditioned random-walk Metropolis, a proposal accepted on a uniform number above one half, and a later step that starts from it",
    "an accepted particle keeps the flow volume factor of its old position, later acceptance ratios are wrong",
    '''
import zuko
from pocomc.mcmc import preconditioned_rwm
from pocomc.flow import Flow
from pocomc.scaler import Reparameterize
from pocomc.geometry import Geometry

torch.manual_seed(0)
flow = Flow(2, "nsf3")
for p in flow.flow.parameters():
    p.data.add_(0.05 * torch.sin(torch.arange(p.numel(), dtype=torch.float32)).reshape(p.shape))
sc = Reparameterize(2)
rng = np.random.RandomState(1)
sc.fit(rng.randn(50, 2))
g = Geometry()
g.normal_mean, g.normal_cov = np.zeros(2), np.eye(2)
n = 6
u0 = rng.randn(n, 2)
x0, j0 = sc.inverse(u0)
like = lambda x: (np.zeros(len(x)), None)
prior = lambda x: -0.5 * np.sum(x ** 2, axis=1)
seen = []
rand = np.random.rand
calls = [0]


def scripted(m):
    calls[0] += 1
    return np.full(m, 0.75 if calls[0] == 1 else 0.999999)


from pocomc.tools import flow_numpy_wrapper
np.random.seed(2)
np.random.rand = scripted
res = preconditioned_rwm(dict(u=u0, x=x0, logdetj=j0, logl=np.zeros(n), logp=prior(x0), beta=0.5, blobs=None),
                         dict(loglike=like, logprior=prior, scaler=sc, flow=flow, theta_geometry=g, u_geometry=g),
                         dict(n_max=2, n_steps=9, progress_bar=None, proposal_scale=0.2))
np.random.rand = rand
# recompute the acceptance probabilities of the second step
np.random.seed(2)
w = flow_numpy_wrapper(flow)
th, jf = w.forward(u0)
u, x, j, lp = u0.copy(), x0.copy(), j0.copy(), prior(x0)
sig = 0.2
for step, t in enumerate((0.75, 0.999999)):
    tp = np.array([th[k] + sig * np.random.randn(2) for k in range(n)])
    up, jfp = w.inverse(tp)
    xp, jp = sc.inverse(up)
    lpp = prior(xp)
    a = np.minimum(1, np.exp(lpp - lp + jp - j + jfp - jf))
    m = t < a
    th[m], u[m], x[m], j[m], lp[m], jf[m] = tp[m], up[m], xp[m], jp[m], lpp[m], jfp[m]
    sig = abs(sig + 1 / (step + 2) * (a.mean() - 0.234))
done(np.isclose(res["accept"], a.mean(), atol=1e-3), "mean acceptance probability %g, expected %g" % (res["accept"], a.mean()))
''')

bug("C03-replacement-from-all", "C03",
    [("sampler.py", "idx = np.random.choice(finite_idx, size=len(infinite_idx), replace=True)",
      "idx = np.random.choice(finite_idx if len(infinite_idx) < 2 else all_idx, size=len(infinite_idx), replace=True)")],
    "a warm-up batch with two or more zero-likelihood draws",
    "zero-likelihood points are replaced by points that may themselves have zero likelihood and stay in the history",
    '''
bad = 0
for seed in range(6):
    try:
        r = run(sampler(cut, random_state=seed))
        bad += int((~np.isfinite(np.asarray(r["logl"]))).sum())
    except Exception as e:
        print(type(e).__name__, e)
        bad += 1
done(bad == 0, "stored log-likelihoods are not finite")
''')

bug("C04-global-maximum", "C04",
    [("particles.py", "B = np.logaddexp.reduce(b, axis=0) - np.log(len(beta))",
      "B = np.log(np.sum(np.exp(b - np.max(b[-1])), axis=0)) + np.max(b[-1]) - np.log(len(beta))")],
    "a history whose log-likelihoods spread over more than about 700 units",
    "the mixture density underflows (or overflows) for some particles: infinite weights, wrong evidence",
    '''
from pocomc.particles import Particles
p = Particles(2, 1)
for b, z, l in ((0.0, 0.0, [-3000.0, -1.0]), (1.0, -5.0, [900.0, -4.0])):
    p.update(dict(logl=np.array(l), beta=b, logz=z))
logw, logz = p.compute_logw_and_logz(1.0)
A = np.array([-3000.0, -1.0, 900.0, -4.0])
B = np.logaddexp(0.0, A + 5.0) - np.log(2)
lw = A - B
want = np.logaddexp.reduce(lw) - np.log(4)
done(np.isfinite(logz) and abs(logz - want) < 1e-9 and np.allclose(np.exp(logw), np.exp(lw - np.logaddexp.reduce(lw))), "logz %r, expected %r" % (logz, want))
''')

bug("C05-bisection-gives-up", "C05",
    [("sampler.py", "if np.abs(ess_est - self.n_effective) < 0.01 * self.n_effective or beta == 1.0:",
      "if np.abs(ess_est - self.n_effective) < 0.01 * self.n_effective or beta_max - beta_min < 1e-4:")],
    "a likelihood so sharp that the next inverse temperature must be found to better than 1e-4",
    "the temperature chosen does not hit the target sample size, particles collapse",
    '''
def sharp(x):
    return -5e6 * float(np.sum((x - 0.3) ** 2))


s = sampler(sharp, dynamic=False, n_effective=64, n_active=32)
chosen = []
real = s._reweight


def record(p):
    before = s.particles.get("beta", index=-1)
    p = real(p)
    chosen.append((float(before), float(p["beta"]), float(p["ess"])))
    return p


s._reweight = record
try:
    run(s)
except Exception as e:
    print(type(e).__name__, e)
bad = [c for c in chosen if c[0] < c[1] < 1 and abs(c[2] - 64) > 0.65]
done(not bad, "sample size at the chosen temperature misses the target: %s" % bad[:2])
''')

bug("C06-tolerant-normalisation", "C06",
    [("tools.py", "if abs(np.sum(weights) - 1.) > SQRTEPS:", "if not np.isclose(np.sum(weights), 1., rtol=0.0, atol=SQRTEPS**0.25):")],
    "weights whose sum is off one by less than one percent",
    "weights are not renormalised, so the last index is over- or under-selected",
    '''
from pocomc.tools import systematic_resample
w = np.full(200, 1.0 / 200) * 0.991
np.random.seed(0)
c = np.bincount(systematic_resample(2000, w), minlength=200)
done(c.min() >= 9 and c.max() <= 11, "counts range from %d to %d, expected 10" % (c.min(), c.max()))
''')

bug("C07-unique-ignores-zeros", "C07",
    [("tools.py", "        k = len(weights)\n", "        k = np.count_nonzero(weights)\n")],
    "a weight vector with zero entries and no explicit number of draws",
    "the unique sample size uses the wrong number of draws",
    '''
from pocomc.tools import unique_sample_size
w = np.array([0.5, 0.3, 0.2, 0.0, 0.0])
want = np.sum(1 - (1 - w) ** 5)
done(abs(unique_sample_size(w.copy()) - want) < 1e-9, "unique sample size")
''')

bug("C08-full-scaling-determinant", "C08",
    [("scaler.py", "self.log_det_L = np.linalg.slogdet(self.L)[1]", "self.log_det_L = 0.5 * np.sum(np.log(np.diag(self.cov)))")],
    "full (non-diagonal) scaling of correlated parameters",
    "the log-determinant of the inverse map ignores correlations",
    '''
from pocomc.scaler import Reparameterize
rng = np.random.RandomState(0)
z = rng.randn(300, 2)
x = z @ np.array([[1.0, 0.9], [0.0, 0.3]])
s = Reparameterize(2, bounds=np.array([[-np.inf, np.inf]] * 2), diagonal=False)
s.fit(x)
u = s.forward(x)
_, j = s.inverse(u[:1])
J = np.array([(s.inverse(u[:1] + e)[0] - s.inverse(u[:1] - e)[0])[0] / 2e-5 for e in 1e-5 * np.eye(2)])
done(abs(j[0] - np.log(abs(np.linalg.det(J)))) < 1e-5, "log-determinant %g, numerical %g" % (j[0], np.log(abs(np.linalg.det(J)))))
''')

bug("C09-both-kinds", "C09",
    [("scaler.py", "return self._apply_reflective_boundary_conditions_x(self._apply_periodic_boundary_conditions_x(x))",
      "return np.where(np.isin(np.arange(x.shape[1]), self.periodic[:1]), self._apply_periodic_boundary_conditions_x(x), self._apply_reflective_boundary_conditions_x(x))")],
    "at least two periodic parameters together with a reflective one",
    "only the first periodic parameter is wrapped when reflective parameters exist as well",
    '''
from pocomc.scaler import Reparameterize
s = Reparameterize(3, bounds=np.array([[0.0, 1.0]] * 3), periodic=[0, 1], reflective=[2])
y = s.apply_boundary_conditions_x(np.array([[1.25, -0.25, 1.25]]))
done(np.allclose(y, [[0.25, 0.75, 0.75]]), "got %s" % y)
''')

bug("C10-rename-before-sync", "C10",
    [("sampler.py", "            f.flush()\n            os.fsync(f.fileno())\n\n        os.rename(temp_path, path)", "            os.rename(temp_path, path)\n            f.flush()\n            os.fsync(f.fileno())")],
    "a crash (or write error) after the rename and before the buffered data reach the disk",
    "the checkpoint path holds an incomplete state while the previous one is gone",
    '''
import os
import tempfile
import dill

with tempfile.TemporaryDirectory() as d:
    s = sampler(gauss, output_dir=d)
    run(s)
    path = os.path.join(d, "a.state")
    s.save_state(path)
    n0 = os.path.getsize(path)
    real, sync = os.rename, os.fsync
    order = []

    def rename(a, b):
        order.append("rename")
        real(a, b)

    def fsync(fd):
        order.append("sync")
        sync(fd)
    os.rename, os.fsync = rename, fsync
    s.save_state(path)
    os.rename, os.fsync = real, sync
done(order[0] == "sync" and order[-1] == "rename", "an unsynced file is moved over the checkpoint: %s" % order)
''')

bug("C11-no-prior-samples", "C11",
    [("sampler.py", "            del state['pbar']  # Cannot be pickled\n",
      "            del state['pbar']  # Cannot be pickled\n            if not self.warmup:\n                state['prior_samples'] = None  # not needed after the warm-up\n"),
     ("sampler.py", "        self.n_total = int(n_total)\n        self.n_evidence = int(n_evidence)\n", "        self.n_total, self.n_evidence = int(n_total), int(n_evidence)\n")],
    "resuming a checkpoint written after the warm-up",
    "the resumed sampler draws the prior again and refits the parameter transform, so stored latent coordinates and proposals belong to another transform",
    '''
import os
import tempfile

with tempfile.TemporaryDirectory() as d:
    s = sampler(gauss, output_dir=d, n_effective=32)
    run(s, n_total=64, save_every=1)
    f = [n for n in os.listdir(d) if "final" not in n]
    t = max(int(n.split("_")[1].split(".")[0]) for n in f)
    q = sampler(gauss, output_dir=d, n_effective=32, random_state=9)
    run(q, n_total=64, resume_state_path=os.path.join(d, "pmc_%d.state" % t))
    u = np.asarray(q.results["u"])
    x = np.asarray(q.results["x"])
    done(np.allclose(q.scaler.inverse(u[0])[0], x[0], atol=1e-6), "stored latent coordinates do not map to the stored points after resuming")
''')

bug("C12-stale-error", "C12",
    [("sampler.py", "            _, self.logz = self.particles.compute_logw_and_logz(1.0)\n            self.logz_err = None\n",
      "            _, self.logz = self.particles.compute_logw_and_logz(1.0)\n")],
    "a preconditioned run with evidence samples, continued without",
    "the evidence read after the continuation carries the error of the earlier estimate",
    '''
s = sampler(gauss, precondition=True, flow="maf3")
run(s, n_evidence=32)
assert s.evidence()[1] is not None
run(s, n_total=64, n_evidence=0)
done(s.evidence()[1] is None, "the SMC evidence is reported with an error of %r" % s.evidence()[1])
''', also=["C16"])

bug("C13-counts-all-walkers", "C13",
    [("mcmc.py", "        n_calls += np.sum(finite_mask)\n", "        n_calls += np.sum(finite_mask_logdetj_prime & finite_mask_x_prime)\n", 3)],
    "random-walk Metropolis without preconditioning and a prior whose support is smaller than its bounds",
    "proposals of zero prior density are counted as likelihood calls",
    '''
class P:
    dim = 2
    bounds = np.array([[-1.0, 2.0], [-1.0, 2.0]])

    def logpdf(self, x):
        return np.where(x.sum(1) < 1.0, 0.0, -np.inf)

    def rvs(self, size=1):
        x = np.random.uniform(-1, 2, (size * 20, 2))
        return x[x.sum(1) < 1.0][:size]


n = [0]


def like(x):
    n[0] += 1
    return gauss(x)


s = sampler(like, prior=P(), sample="rwm")
run(s)
done(n[0] == s.calls, "%d evaluations, %d reported" % (n[0], s.calls))
''')

bug("C14-vectorised-arguments", "C14",
    [("sampler.py", "            return self.log_likelihood(x), None\n", "            return self.log_likelihood.f(x, *self.log_likelihood.args), None\n")],
    "a vectorised likelihood with keyword arguments",
    "keyword arguments do not reach the likelihood in vectorised mode",
    '''
def like(x, a=0.0, scale=1.0):
    return -0.5 * scale * np.sum((np.atleast_2d(x) - a) ** 2, axis=1)


def one(x, a=0.0, scale=1.0):
    return float(like(x, a, scale)[0])


out = []
for f, v in ((like, True), (one, False)):
    r = run(sampler(f, vectorize=v, likelihood_args=[0.2], likelihood_kwargs=dict(scale=5.0)))
    out.append(np.asarray(r["logl"]))
done(out[0].shape == out[1].shape and np.allclose(*out), "vectorised and serial runs differ")
''')

bug("C15-none-results", "C15",
    [("parallel.py", "        while pending:\n", "        while any(r is None for r in resultlist):\n")],
    "a mapped function that returns None for some task",
    "the master waits for results that have all arrived: map never returns",
    '''
import queue
import threading
import types
import pocomc.parallel as par


class Status:
    source = tag = None


class Comm:
    """Two ranks in one process: the worker answers at once."""
    size = 2

    def __init__(self):
        self.out = queue.Queue()

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 2

    def send(self, obj, dest, tag):
        if obj is not None:
            f, a = obj
            self.out.put((f(a), tag))

    def Iprobe(self, source, tag):
        return not self.out.empty()

    def Probe(self, source, tag):
        if self.out.empty():
            raise RuntimeError("the master waits although no message is under way")

    def recv(self, source, tag, status):
        r, t = self.out.get_nowait()
        status.source, status.tag = 1, t
        return r


par.MPI = types.SimpleNamespace(Status=Status, ANY_SOURCE=-1, ANY_TAG=-1)
pool = par.MPIPool(comm=Comm())
try:
    r = pool.map(lambda a: None if a == 1 else a, [0, 1, 2])
except RuntimeError as e:
    done(False, str(e))
done(r == [0, None, 2], "results %s" % r)
''')

bug("C16-only-contributing-samples", "C16",
    [("sampler.py", "        logz = np.logaddexp.reduce(logw) - np.log(len(logw))\n", "        logz = np.logaddexp.reduce(logw) - np.log(np.sum(~np.isneginf(logw)))\n")],
    "importance samples with zero likelihood or outside of the prior support",
    "samples that contribute zero are not counted: the evidence is too large",
    '''
def like(x):
    return -np.inf if x[0] > 0.45 else gauss(x)


s = sampler(like, precondition=True, flow="maf3")
run(s)
torch.manual_seed(5)
np.random.seed(5)
logz, _ = s._compute_evidence(300)
torch.manual_seed(5)
with torch.no_grad():
    th, q = s.flow.sample(300)
th, q = th.numpy(), q.numpy()
x, j = s.scaler.inverse(th)
lp = s.log_prior(x)
lw = np.array([like(a) + b + c - d if np.isfinite(b) else -np.inf for a, b, c, d in zip(x, lp, j, q)])
want = np.logaddexp.reduce(lw) - np.log(300)
done(np.isneginf(lw).any() and abs(logz - want) < 1e-6, "evidence %g, expected %g" % (logz, want))
''')

bug("C17-no-limit-while-improving", "C17",
    [("mcmc.py", "        if i >= n_max:\n            break\n", "        if i >= n_max and cnt > 0:\n            break\n", 2)],
    "a mutation stage (t-preconditioned Crank-Nicolson without flow) whose last allowed step improved the mean log-density",
    "the maximum number of steps is exceeded",
    '''
prior = pc.Prior([norm(0.0, 1.0), norm(0.0, 1.0)])
s = sampler(lambda x: -0.5 * float(np.sum((x - 25.0) ** 2)), prior=prior, n_max_steps=2, n_active=32, n_effective=64)
r = run(s)
done(np.asarray(r["steps"]).max() <= 2, "%d steps, at most 2 are allowed" % np.asarray(r["steps"]).max())
''')

bug("C18-log-of-density", "C18",
    [("prior.py", "logp += dist.logpdf(x[:,i])", "logp += np.log(np.maximum(dist.pdf(x[:,i]), 0.0))")],
    "a point so far in a tail that the density underflows",
    "the log-density is minus infinity inside the support",
    '''
p = pc.Prior([norm(0.0, 1.0), uniform(0.0, 1.0)])
v = p.logpdf(np.array([[45.0, 0.5]]))[0]
done(abs(v - norm.logpdf(45.0)) < 1e-6, "log-density %r" % v)
''')

bug("C19-metric-substring", "C19",
    [("sampler.py", "if metric not in ['ess', 'uss']:", "if str(metric) not in 'ess/uss':")],
    "a metric name that is a part of the valid names, such as the empty string",
    "an invalid metric is accepted and fails only after the warm-up evaluations",
    '''
n = [0]


def like(x):
    n[0] += 1
    return gauss(x)


bad = []
for m in ("", "ss", "es", "s/u"):
    try:
        run(sampler(like, metric=m))
        bad.append(m)
    except ValueError:
        if n[0]:
            bad.append(m)
    except Exception as e:
        bad.append((m, type(e).__name__))
done(not bad, "invalid metrics are accepted: %s" % bad)
''')

bug("C20-biased-weighted-covariance", "C20",
    [("geometry.py", "np.cov(theta.T, aweights=weights)", "np.cov(theta.T, aweights=weights, ddof=0)")],
    "a weighted fit (small effective sample size makes it large)",
    "the weighted covariance is biased low and does not agree with the unweighted one for equal weights",
    '''
from pocomc.geometry import Geometry
t = np.array([[0.0, 0.0], [1.0, 0.2], [0.3, 2.0], [2.0, 1.5], [1.1, 0.4]])
a, b = Geometry(), Geometry()
a.fit(t)
b.fit(t, weights=np.ones(5) / 5)
done(np.allclose(a.normal_cov, b.normal_cov), "equal weights change the covariance")
''')

bug("C21-blob-of-replaced-draw", "C21",
    [("sampler.py", "                        blobs[infinite_idx] = blobs[idx]\n", "                        blobs[infinite_idx] = blobs[finite_idx[0]]\n")],
    "blobs, and a warm-up batch with zero-likelihood draws",
    "replaced draws get the blob of another particle",
    '''
def like(x):
    return cut(x), float(x[0])


r = run(sampler(like, blobs_dtype=float))
b = np.asarray(r["blobs"], float).reshape(np.asarray(r["logl"]).shape)
done(np.allclose(b, np.asarray(r["x"])[..., 0]), "a stored blob belongs to another position")
''')

bug("C22-seed-zero", "C22",
    [("sampler.py", "        if random_state is not None:\n            np.random.seed(random_state)", "        if random_state:\n            np.random.seed(random_state)")],
    "random_state=0",
    "seed zero is treated as no seed: runs are not reproducible",
    '''
out = []
for k in range(2):
    np.random.seed(100 + k)
    torch.manual_seed(100 + k)
    out.append(np.asarray(run(sampler(gauss, random_state=0))["x"]))
done(out[0].shape == out[1].shape and np.array_equal(*out), "two runs with random_state=0 differ")
''')

bug("C23-limited-volume", "C23",
    [("tools.py", "        logdetj = - torch_to_numpy(logdetj)\n", "        logdetj = - np.clip(torch_to_numpy(logdetj), -7.0, 7.0)\n")],
    "a flow whose volume factor exceeds exp(7) somewhere, e.g. after training on narrow posteriors",
    "the forward and backward volume factors used by the samplers are no longer opposite",
    '''
from pocomc.flow import Flow
from pocomc.tools import flow_numpy_wrapper
torch.manual_seed(0)
f = Flow(3, "maf3")
for p in f.flow.parameters():
    p.data.add_(0.4 * torch.sin(torch.arange(p.numel(), dtype=torch.float32)).reshape(p.shape))
w = flow_numpy_wrapper(f)
g = np.linspace(-2, 2, 9)
x = np.array(np.meshgrid(g, g, g)).reshape(3, -1).T
y, j = w.forward(x)
x2, j2 = w.inverse(y)
k = np.abs(x - x2).max(axis=1) < 1e-3
print(k.sum(), np.abs(j2[k]).max())
done(np.allclose(j[k], j2[k], atol=0.05), "volume factors differ by %g" % np.abs(j - j2)[k].max())
''')

bug("C24-shallow-best-model", "C24",
    [("flow.py", "                best_epoch = epoch\n                best_model = copy.deepcopy(self.flow.state_dict())", "                best_epoch = epoch\n                best_model = copy.copy(self.flow.state_dict())")],
    "an early stop",
    "the stored parameters alias the live ones, so nothing is restored",
    '''
from pocomc.flow import Flow
torch.manual_seed(0)
f = Flow(2, "maf3")
x = torch.randn(40, 2)
h = f.fit(x, validation_split=0.5, epochs=200, patience=2, learning_rate=0.1, batch_size=100, shuffle=False, annealing=False)
with torch.no_grad():
    v = float(-f.log_prob(x[20:]).sum()) / 20
done(len(h["loss"]) < 200 and abs(v - min(h["val_loss"])) < 1e-3, "validation loss %g after the early stop, best was %g" % (v, min(h["val_loss"])))
''')

bug("C25-untrimmed-log-weights", "C25",
    [("sampler.py", "            logw = logw[idx]\n", "            logw = logw[:len(idx)]\n")],
    "trimming that removes samples together with return_logw",
    "log-weights do not belong to the returned samples",
    '''
s = sampler(lambda x: 30 * gauss(x))
run(s)
x, lw, ll, lp = s.posterior(return_logw=True, ess_trim=0.9)
full, flw, fll, flp = s.posterior(return_logw=True, trim_importance_weights=False)
look = {a.tobytes(): b for a, b in zip(full, flw)}
done(len(x) < len(full) and len(lw) == len(x) and np.allclose([look[a.tobytes()] for a in x], lw), "log-weights are not those of the samples")
''')
