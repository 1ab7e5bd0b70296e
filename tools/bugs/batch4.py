import os
import sys
_h = open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), "batch1.py")).read()
exec(_h[:_h.index('\nbug("C01')])

UN = '''
def scaled(c, pre=PRE_):
    pr = pc.Prior([norm(0.3 * c, 1.5 * c), norm(0.0, 1.0 * c)] if not BOX else [uniform(-1.0 * c, 3.0 * c), norm(0.0, 1.0 * c)])
    s = sampler(lambda x: gauss(np.asarray(x) / c), pr, precondition=pre)
    return s, run(s)


c = UNIT
a, b = scaled(1.0)[1], scaled(c)[1]
ok = len(a["beta"]) == len(b["beta"]) and np.allclose(a["beta"], b["beta"], rtol=1e-2) and np.allclose(a["x"], np.asarray(b["x"]) / c, rtol=1e-2, atol=1e-2)
done(ok, "in units %g times smaller the run differs: %d and %d iterations" % (1 / c, len(a["beta"]), len(b["beta"])))
'''
bug("C27-spread-floor", "C27",
    [("scaler.py", "self.sigma = np.std(u, axis=0)", "self.sigma = np.maximum(np.std(u, axis=0), 1e-6)")],
    "an unbounded parameter whose prior is much narrower than 1e-6 in the units the user chose",
    "the rescaling of the parameters has an absolute floor",
    UN.replace("BOX", "False").replace("UNIT", "2.0 ** -30").replace("PRE_", "True"))
bug("C27-far-bounds-are-none", "C27",
    [("scaler.py", "        self.low = bounds.T[0]\n        self.high = bounds.T[1]\n",
      "        self.low = np.where(bounds.T[0] < -1e10, -np.inf, bounds.T[0])\n        self.high = np.where(bounds.T[1] > 1e10, np.inf, bounds.T[1])\n")],
    "a bounded parameter measured in units in which its bounds are beyond 1e10",
    "distant bounds are treated as infinite, so the parameter is not mapped to an unbounded one",
    UN.replace("BOX", "True").replace("UNIT", "2.0 ** 40").replace("PRE_", "False"))
bug("C27-closed-shape-width", "C27",
    [("scaler.py", "J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) + (-u[", "J = np.log(self.high[self.mask_both] - self.low[self.mask_both] + 1e-12) + (-u[")],
    "a bounded parameter whose range is below 1e-12 in the units the user chose",
    "an absolute guard against the logarithm of zero in the width of the range changes the Jacobian of narrow parameters",
    '''
from pocomc.scaler import Reparameterize
c = 2.0 ** -40
j = []
for k in (1.0, c):
    s = Reparameterize(1, np.array([[0.0, 3.0 * k]]), scale=False)
    j.append(s.inverse(np.array([[0.2]]))[1][0] - np.log(k))
done(abs(j[0] - j[1]) < 1e-9, "log-Jacobian %r and %r" % tuple(j))
''')

SPY = '''
import pocomc.flow
fits = []
_fit = pocomc.flow.Flow.fit


def fit(self, x, weights=None, **k):
    fits.append((len(S.particles.get("iter")), np.array(x), None if weights is None else np.array(weights)))
    return _fit(self, x, weights=weights, **k)


pocomc.flow.Flow.fit = fit
'''
bug("C28-unweighted-at-one", "C28",
    [("sampler.py", "                          weights=numpy_to_torch(w),\n", "                          weights=None if current_particles.get(\"beta\") == 1.0 else numpy_to_torch(w),\n")],
    "preconditioning, iterations at inverse temperature one",
    "in the last phase the flow is trained on the whole history without weights, that is on a mixture of all temperatures",
    SPY + '''
S = sampler(gauss, precondition=True)
r = run(S, n_total=64)
last = fits[-1]
w = last[2]
done(w is not None and np.ptp(w) > 1e-6, "the last training has no weights")
''')
bug("C28-stale-image", "C28",
    [("sampler.py", "            theta = flow_numpy_wrapper(self.flow).forward(u)[0]\n            self.theta_geometry.fit(theta, weights=w)\n", "            self.theta_geometry.fit(theta, weights=w)\n"),
     ("sampler.py", "            self.flow.fit(numpy_to_torch(u),\n", "            theta = flow_numpy_wrapper(self.flow).forward(u)[0]\n            self.flow.fit(numpy_to_torch(u),\n")],
    "preconditioning, iterations in which the flow is trained",
    "the proposal is fitted to the image of the ensemble under the flow before its training",
    SPY + '''
from pocomc.tools import flow_numpy_wrapper
S = sampler(gauss, precondition=True, train_frequency=1, train_config=dict(epochs=20, learning_rate=0.05))
r = run(S)
t, x, w = fits[-1]
th = flow_numpy_wrapper(S.flow).forward(np.array(x, float))[0]
m = np.average(th, axis=0, weights=w)
print(m, S.theta_geometry.normal_mean)
done(np.allclose(m, S.theta_geometry.normal_mean, atol=1e-3), "the geometry has mean %s, the image of the ensemble %s" % (S.theta_geometry.normal_mean, m))
''')
bug("C28-coarse-trim", "C28",
    [("sampler.py", "weights, ess=0.99, bins=1000)", "weights, ess=0.99, bins=4)")],
    "any run; the trimming of the ensemble in each iteration",
    "the ensemble is trimmed on a grid of four percentiles, so most of its negligible particles stay",
    SPY + '''
from pocomc.tools import trim_weights
S = sampler(lambda x: 30 * gauss(x), precondition=True, train_frequency=1)
r = run(S, n_total=64)
t, x, w = fits[-1]
lw = S.particles.compute_logw_and_logz(1.0)[0][:t * S.n_active]
logl, beta, logz = [np.asarray(r[k])[:t] for k in ("logl", "beta", "logz")]
b = np.log(np.mean(np.exp(logl.reshape(-1)[:, None] * beta - logz), axis=1))
p = np.exp(logl.reshape(-1) * r["beta"][t] - b)
p /= p.sum()
keep, _ = trim_weights(np.arange(len(p)), p, ess=0.99, bins=1000)
print(len(x), len(keep), len(p))
done(abs(len(x) - len(keep)) <= 2, "trained on %d points, the trimmed ensemble has %d" % (len(x), len(keep)))
''')
bug("C28-frozen-at-one", "C28",
    [("sampler.py", "            self.u_geometry.fit(u, weights=w)\n", "            if current_particles.get(\"beta\") < 1.0 or self.u_geometry.t_mean is None:\n                self.u_geometry.fit(u, weights=w)\n")],
    "no preconditioning, iterations at inverse temperature one",
    "the proposal is no longer adapted once the temperature is one, it stays that of an earlier temperature",
    '''
S = sampler(lambda x: 30 * gauss(x))
seen = {}


def like(x):
    t = len(S.particles.get("iter"))
    g = S.u_geometry.normal_mean
    if t not in seen and g is not None:
        seen[t] = np.array(g)
    return 30 * gauss(x)


S = sampler(like)
r = run(S, n_total=120)
at = [t for t in seen if r["beta"][t] == 1.0]
print(at, [seen[t] for t in at])
done(len(at) > 1 and all(not np.array_equal(seen[a], seen[b]) for a, b in zip(at, at[1:])), "the proposal is not adapted at inverse temperature one")
''')

bug("C09-position-not-index", "C09",
    [("scaler.py", "            for i in self.reflective:\n", "            for i in range(len(self.reflective)):\n")],
    "reflective boundary conditions on parameters other than the first ones",
    "the position in the list is used instead of the index of the parameter",
    '''
from pocomc.scaler import Reparameterize
s = Reparameterize(2, np.array([[0.0, 1.0], [0.0, 1.0]]), reflective=[1])
y = s.apply_boundary_conditions_x(np.array([[0.4, 1.25]]))
done(np.allclose(y, [[0.4, 0.75]]), "mapped to %s" % y)
''')
bug("C13-zero-likelihood-is-free", "C13",
    [("mcmc.py", "        n_calls += np.sum(finite_mask)\n", "        n_calls += np.sum(np.isfinite(logl_prime))\n", 2)],
    "no preconditioning and Crank-Nicolson, proposals with zero likelihood inside the support of the prior",
    "evaluations that return minus infinity are not counted",
    '''
n = [0]


def like(x):
    n[0] += 1
    return -np.inf if 0.2 < x[0] < 0.45 else gauss(x)


s = sampler(like, n_active=16, n_effective=32)
r = run(s, n_total=64)
print(n[0], r["calls"][-1])
done(n[0] == r["calls"][-1], "%d calls, %d counted" % (n[0], r["calls"][-1]))
''')
bug("C03-undefined-prior", "C03",
    [("mcmc.py", "        finite_mask_logp = np.isfinite(logp_prime)\n", "        finite_mask_logp = ~np.isneginf(logp_prime)\n", 3)],
    "no preconditioning and random-walk Metropolis, a user-defined prior that is undefined (NaN) somewhere inside its bounds",
    "the likelihood is evaluated where the prior is undefined",
    '''
class P:
    dim = 2
    bounds = np.array([[-1.0, 2.0], [-1.0, 2.0]])

    def logpdf(self, x):
        return np.where(np.asarray(x)[:, 0] > 1.0, np.nan, -np.log(6.0))

    def rvs(self, size=1):
        return np.random.uniform([-1.0, -1.0], [1.0, 2.0], size=(size, 2))


bad = [0]


def like(x):
    bad[0] += x[0] > 1.0
    return gauss(x)


s = sampler(like, P(), sample="rwm", n_active=16, n_effective=32)
run(s)
done(bad[0] == 0, "%d evaluations where the prior is undefined" % bad[0])
''')
bug("C14-positional-or-keyword", "C14",
    [("tools.py", "        return self.f(x, *self.args, **self.kwargs)\n", "        if len(self.args):\n            return self.f(x, *self.args)\n        return self.f(x, **self.kwargs)\n")],
    "both likelihood_args and likelihood_kwargs",
    "keyword arguments are dropped when there are positional ones",
    '''
def like(x, a, b=0.0):
    return gauss(x) + a + b


s = sampler(like, likelihood_args=[1.0], likelihood_kwargs=dict(b=2.0))
r = run(s)
x = np.asarray(r["x"]).reshape(-1, 2)
done(np.allclose(np.asarray(r["logl"]).ravel(), [gauss(v) + 3.0 for v in x]), "the keyword argument is not used")
''')
bug("C15-last-task-waits", "C15",
    [("parallel.py", "                taskid, task = tasklist.pop()\n", "                taskid, task = tasklist.pop(0)\n"),
     ("parallel.py", "            resultlist[taskid] = result\n", "            resultlist[len(resultlist) - len(tasklist) - len(self.workers) + len(workerset) - 1] = result\n")],
    "at least two workers and an order of completion different from the order of the tasks",
    "results are stored in order of completion",
    '''
class Comm:
    size = 3

    def __init__(self):
        self.q = []

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 3

    def send(self, task, dest=0, tag=0):
        if task is not None:
            self.q.append((tag, dest, task))

    def Iprobe(self, source=None, tag=None):
        return len(self.q) == 2

    def Probe(self, source=None, tag=None):
        return True

    def recv(self, source=None, tag=None, status=None):
        t, d, (f, a) = self.q.pop()
        status.tag, status.source = t, d
        return f(a)


class M:
    class Status:
        pass
    ANY_SOURCE = ANY_TAG = -1


import pocomc.parallel as pp
pp.MPI = M
p = pp.MPIPool(Comm())
out = p.map(lambda v: v * v, list(range(7)))
done(out == [v * v for v in range(7)], "results %s" % out)
''')
