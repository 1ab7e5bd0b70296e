"""C16: importance-sampling evidence is exact for every support pattern."""
import itertools

import numpy as np

from . import ref
from .env import LOG2PI, Like, Log, ToyPrior, known_forward, make_sampler, quiet

PROPERTY = "C16"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of support patterns (inside / outside the prior / zero / undefined likelihood for every importance sample) on the real evidence stage, against a float64 reference with a flow of known density"
LEVEL_NOTE = ("All 4^n patterns for up to 4 (thorough: 5) importance samples in every execution mode, plus complete runs; the flow density, Jacobian, prior and likelihood are recomputed "
              "independently at the drawn points. Tolerance 2e-3 for the single-precision flow, plus the rounding sensitivity of points next to a bound.")
RULE = "a case is one (configuration, number of samples, group of patterns) or one complete run; states are distinct (pattern, outcome)"
ASSUMPTIONS = ["the likelihood is finite, zero (minus infinity) or undefined (NaN); user functions are pure otherwise"]
CPU_LIMIT = 900
IN, OUT, ZERO, NAN = range(4)


class PatPrior(ToyPrior):
    pat = None
    rows = None

    def logpdf(self, x):
        lp = ToyPrior.logpdf(self, x)
        if self.pat is not None and len(x) == len(self.pat):
            self.rows = np.array(x, copy=True)
            lp = np.where(np.array(self.pat) == OUT, -np.inf, lp)
        return lp


class PatLike(Like):
    prior = None
    seen = None

    def pure1(self, x):
        v = Like.pure1(self, x)
        p = self.prior
        if p is not None and p.pat is not None and p.rows is not None:
            k = np.flatnonzero((p.rows == np.asarray(x)).all(axis=1))
            if self.seen is not None:
                self.seen.append(int(k[0]) if len(k) else -1)
            if len(k):
                if p.pat[k[0]] == ZERO:
                    return -np.inf
                if p.pat[k[0]] == NAN:
                    return np.nan
        return v


BASE = dict(kinds="UN", precondition=True, n_active=5, n_effective=10, n_total=8, n_max_steps=2, seed=3)
CFGS = [BASE, dict(BASE, vec=True, kinds="BE", seed=4), dict(BASE, blob="pair", seed=5), dict(BASE, kinds="U", transform="logit", sample="rwm", seed=6),
        dict(BASE, kinds="RNU", seed=7, pool=True), dict(BASE, blob="str", seed=8), dict(BASE, offset=-900.0, seed=9)]


def cases(tier):
    for seed in range(2 if tier == "quick" else 8):
        for hole, region, kinds in itertools.product((None, "corner"), (None, "ninf", "nan", "both"), ("UN", "EB")):
            for n in (1, 7, 64) + ((5000,) if seed == 0 else ()):
                yield dict(kind="full", cfg=dict(BASE, kinds=kinds, hole=hole, region=region, seed=20 + seed, sharp=1.0), n=n)
    for c in range(len(CFGS)):
        for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
            pats = list(itertools.product(range(4), repeat=n))
            if tier == "quick" and n == 4 and c > 2:
                pats = pats[::3]
            g = max(1, len(pats) // 32)
            for k in range(g):
                yield dict(kind="pat", cfg=c, pats=pats[k::g])
    n = 240
    for c in (0, 1, 2, 3):
        for k in range(0, n + 1, 20) if tier == "quick" else range(0, n + 1, 4):
            yield dict(kind="err", cfg=c, n=n, k=k)
    for pre, nev, sample, dyn, region in itertools.product((False, True), (0, 3), ("tpcn", "rwm"), (True, False), (None, "ninf")):
        yield dict(kind="smc", cfg=dict(BASE, precondition=pre, sample=sample, dynamic=dyn, region=region, seed=11), nev=nev)


def build(cfg, log=None, **over):
    import pocomc
    made = {}

    def cls(p, l, **kw):
        pp = PatPrior(p.kinds, p.hole, log)
        ll = PatLike(l.dim, l.region, l.vec, l.blob, l.sharp, log, l.offset)
        ll.prior = pp
        made["p"], made["l"] = pp, ll
        if cfg.get("pool"):
            from .c14 import OrderPool
            kw["pool"] = OrderPool((1, 0, 3, 2))
        return pocomc.Sampler(pp, ll, **kw)
    with quiet():
        s, _, _ = make_sampler(cfg, cls=cls, **over)
    return s, made["p"], made["l"]


def logq_of(s, x):
    """Density of the flow at the points (in the latent coordinates of the scaler), and the scaler's log-Jacobian there."""
    u = s.scaler.forward(np.array(x), check_input=False)
    th, ld = known_forward(s.flow.flow, u)
    return -0.5 * np.sum(th ** 2, axis=1) - 0.5 * th.shape[1] * LOG2PI + ld, s.scaler.inverse(u)[1]


def expected(s, rows, lp, ll):
    lq, ldj = logq_of(s, rows)
    w = []
    for i in range(len(rows)):
        if not np.isfinite(lp[i]) or not np.isfinite(ll[i]):
            w.append(-np.inf)
        else:
            w.append(ll[i] + lp[i] + ldj[i] - lq[i])
    w = np.array(w)
    return ref.lse(w) - np.log(len(w)), w


def conditioning(s, rows, lp, ll):
    """How much the result moves when the recorded points are rounded differently (points next to a bound are ill-conditioned)."""
    b = np.asarray(s.prior.bounds, float)
    vals = []
    for sgn in (-8.0, 8.0):
        r = rows * (1 + sgn * 2.3e-16)
        r = np.clip(r, np.where(np.isfinite(b[:, 0]), b[:, 0], -np.inf), np.where(np.isfinite(b[:, 1]), b[:, 1], np.inf))
        vals.append(expected(s, r, lp, ll)[0])
    want = expected(s, rows, lp, ll)[0]
    d = [abs(v - want) for v in vals if np.isfinite(v) and np.isfinite(want)]
    return max(d) if d else 0.0


def check_value(rec, got, want, slack=0.0, **detail):
    if np.isneginf(want):
        if not np.isneginf(got):
            rec.fail("no sample contributes, but the log-evidence is %r" % (got,), **detail)
            return False
        return True
    if not np.isfinite(got) or abs(got - want) > 2e-3 + 3e-5 * abs(want) + slack:
        rec.fail("log-evidence is %r, the log-mean of the importance weights is %r" % (float(got), float(want)), **detail)
        return False
    return True


def check_err(rec, err, w, **detail):
    """bootstrap standard deviation of the log-mean"""
    if len(w) < 30 or not np.isfinite(w).any():
        if err is None:
            rec.fail("no error estimate is given", **detail)
            return False
        return True
    p = np.exp(w - np.max(w))
    approx = np.std(p) / np.mean(p) / np.sqrt(len(p))
    if err is None or not np.isfinite(err) or err < 0:
        rec.fail("error of the log-evidence is %r" % (err,), **detail)
        return False
    if approx < 0.5 and not (0.4 * approx - 1e-6 <= err <= 2.5 * approx + 1e-6):
        rec.fail("error of the log-evidence is %r, its standard deviation is about %r" % (float(err), float(approx)), **detail)
        return False
    return True


def bootstrap_error(w):
    """Standard deviation of the log-mean of the weights under resampling of all samples, the empty ones included."""
    g = np.random.RandomState(5)
    p = np.exp(w - np.max(w))
    n = len(p)
    return float(np.std(np.log(p[g.randint(n, size=(4000, n))].mean(axis=1))))


def run_case(case, rec):
    globals()["k_" + case["kind"]](case, rec)


def k_pat(case, rec):
    cfg = CFGS[case["cfg"]]
    s, prior, like = build(cfg)
    with quiet():
        s.run(n_total=cfg["n_total"], n_evidence=0, progress=False)
    T = len(s.results["iter"])
    for pat in case["pats"]:
        prior.pat, prior.rows = list(pat), None
        like.seen = []
        before = int(s.calls)
        with quiet():
            s.run(n_total=cfg["n_total"], n_evidence=len(pat), progress=False)
        rec.trace()
        rec.step(len(pat))
        logz, err = s.evidence()
        rows, seen = prior.rows, sorted(like.seen)
        if rows is None:
            return rec.fail("the prior was not evaluated at the %d importance samples" % len(pat))
        prior.pat = None
        if len(s.results["iter"]) != T:
            return rec.fail("harness: the run was continued")
        lp = np.where(np.array(pat) == OUT, -np.inf, prior.pure_logpdf(rows))
        ll = like.pure(rows)
        ll[np.array(pat) == ZERO] = -np.inf
        ll[np.array(pat) == NAN] = np.nan
        inside = [i for i in range(len(pat)) if np.isfinite(lp[i])]
        if seen != inside:
            return rec.fail("the likelihood was evaluated at samples %s, the samples inside the support are %s" % (seen, inside), pattern=pat)
        if int(s.calls) != before + len(inside):
            return rec.fail("the call counter grew by %d for %d evaluations" % (int(s.calls) - before, len(inside)), pattern=pat)
        want, w = expected(s, rows, lp, ll)
        if not check_value(rec, logz, want, conditioning(s, rows, lp, ll), pattern=pat, config=case["cfg"]):
            return
        if not check_err(rec, err, w, pattern=pat):
            return
        rec.state(case["cfg"], pat, bool(np.isfinite(logz)))
    rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, patterns=[list(p) for p in case["pats"][:4]])


def k_err(case, rec):
    """Many samples of which exactly k contribute: the reported error is that of the mean over all of them."""
    cfg, n, k = CFGS[case["cfg"]], case["n"], case["k"]
    s, prior, like = build(cfg)
    with quiet():
        s.run(n_total=cfg["n_total"], n_evidence=0, progress=False)
    for empty in ((OUT,), (ZERO,), (NAN,), (OUT, ZERO, NAN)):
        pat = [IN] * k + [empty[i % len(empty)] for i in range(n - k)]
        prior.pat, prior.rows = list(pat), None
        with quiet():
            s.run(n_total=cfg["n_total"], n_evidence=n, progress=False)
        rec.trace()
        rec.step(n)
        logz, err = s.evidence()
        rows = prior.rows
        prior.pat = None
        if rows is None:
            return rec.fail("the prior was not evaluated at the %d importance samples" % n)
        p = np.array(pat)
        lp = np.where(p == OUT, -np.inf, prior.pure_logpdf(rows))
        ll = np.where(p == ZERO, -np.inf, np.where(p == NAN, np.nan, like.pure(rows)))
        want, w = expected(s, rows, lp, ll)
        if not check_value(rec, logz, want, conditioning(s, rows, lp, ll), contributing=k, config=case["cfg"]):
            return
        if err is None:
            return rec.fail("no error estimate is given", contributing=k)
        if np.isfinite(w).any():
            e = bootstrap_error(w)
            if e < 0.35 and not (0.75 * e - 1e-6 <= err <= 1.35 * e + 1e-6):
                return rec.fail("error of the log-evidence is %r, the standard deviation of the mean over all samples is %r" % (float(err), e),
                                samples=n, contributing=k)
        rec.state(case["cfg"], k, empty, bool(np.isfinite(logz)))
    rec.sample = dict(config={a: b for a, b in cfg.items() if b is not None}, samples=n, contributing=k)


def k_full(case, rec):
    cfg = case["cfg"]
    from .c03 import batches_ok
    if cfg.get("region") and not batches_ok(cfg):
        rec.state("skipped")
        return
    log = Log()
    s, prior, like = build(cfg, log)
    with quiet():
        s.run(n_total=cfg["n_total"], n_evidence=case["n"], progress=False)
    rec.trace()
    rec.step(case["n"])
    rows = [r for r in log.prior_calls if len(r) == case["n"]]
    if case["n"] == cfg["n_active"] or not rows:
        rows = [log.prior_calls[-1]]
    rows = np.array(rows[-1])
    want, w = expected(s, rows, prior.pure_logpdf(rows), like.pure(rows))
    logz, err = s.evidence()
    if not check_value(rec, logz, want, conditioning(s, rows, prior.pure_logpdf(rows), like.pure(rows)), config={k: v for k, v in cfg.items() if v is not None}, n=case["n"]):
        return
    if not check_err(rec, err, w, n=case["n"]):
        return
    if s.results["logz"] is not None and len(s.results["logz"]) != len(s.results["iter"]):
        return rec.fail("history of the evidence has another length than the run")
    rec.state(logz, case["n"])
    rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, n=case["n"], logz=float(logz))


def k_smc(case, rec):
    cfg = case["cfg"]
    log = Log()
    s, prior, like = build(cfg, log)
    with quiet():
        s.run(n_total=cfg["n_total"], n_evidence=0, progress=False)
    n0 = len(log.like_rows)
    r = s.results
    _, z = ref.balance(np.asarray(r["logl"]), np.asarray(r["beta"]), np.asarray(r["logz"]), 1.0)
    for again in range(3):
        logz, err = s.evidence()
        rec.trace()
        rec.step(1)
        smc = case["nev"] == 0 or not cfg["precondition"] or again == 0
        if smc:
            if err is not None:
                return rec.fail("an error is given for the SMC estimate", err=err)
            if abs(logz - z) > 1e-8 * (1 + abs(z)):
                return rec.fail("the evidence is %r, the SMC estimate is %r" % (logz, z), n_evidence=case["nev"], precondition=cfg["precondition"])
            if len(log.like_rows) != n0:
                return rec.fail("the SMC estimate evaluates the likelihood")
        elif err is None:
            return rec.fail("importance sampling gives no error")
        rec.state(logz, err is None)
        with quiet():
            s.run(n_total=cfg["n_total"], n_evidence=case["nev"] if again != 1 else case["nev"], progress=False)
    with quiet():
        s.run(n_total=cfg["n_total"], n_evidence=0, progress=False)
    if s.evidence()[1] is not None or abs(s.evidence()[0] - z) > 1e-8 * (1 + abs(z)):
        return rec.fail("without importance samples the evidence is not the SMC estimate", got=s.evidence(), smc=z)
    rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, n_evidence=case["nev"])
