"""C19: invalid options are rejected, valid ones honoured, defaults derived consistently."""
import inspect
import itertools
import os
import warnings
from pathlib import Path

import numpy as np
import torch
import zuko
from scipy.special import logit
from scipy.stats import norm

from .c14 import OrderPool
from .env import BLOB_DTYPE, KnownFlow, Like, Log, ToyPrior, quiet, scratch
from .full import degenerate
from .rng import RngTap

PROPERTY = "C19"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the option space (all values of every discrete option, all pairs of invalid options, the full product of valid ones) on the real constructor and on complete runs, with monitors on the environment"
LEVEL_NOTE = ("Full product transform x metric x sample x resample x precondition x dynamic x execution mode x dimension (1-3), all particle-number, prior-draw and output combinations "
              "of a lattice, every flow name, and every single and pair of invalid values. Particle numbers are small.")
RULE = "a case is one group of option combinations; states are distinct (options, derived numbers, history shape) outcomes"
ASSUMPTIONS = ["gamma/chi-square numbers are drawn through numpy.random only by the Student-t proposal", "flow names follow the documented list"]

BAD = {"transform": ("Probit", "LOGIT", "", "probit ", "identity", None, 3, ["probit"], "pro"),
       "metric": ("ESS", "Uss", "", "vess", None, 1, "es", ["ess"]),
       "sample": ("pcn", "TPCN", "mcmc", "", None, 0, "tpc", ["rwm"]),
       "resample": ("multinomial", "Syst", "", None, 2, "strat", "m", ["mult"]),
       "flow": ("nsf", "maf", "maf13", "NSF3", "nsf4", "", None, 7, "linear", "spline", "nsf36", "maf1", "nsf03")}
SPEC = (dict(n_active=None, n_effective=None), dict(vectorize=True, blobs_dtype=[("a", float)]), dict(vectorize=True, blobs_dtype="float"))

NUMBERS = [dict(n_effective=8, n_active=4), dict(n_effective=None, n_active=4), dict(n_effective=8, n_active=None), dict(n_effective=9, n_active=None),
           dict(n_effective=6, n_active=3), dict(n_effective=12, n_active=4), dict(n_effective=6, n_active=6), dict(n_effective=13, n_active=4),
           dict(n_effective=None, n_active=5), dict(n_effective=14, n_active=None), dict(n_ess=10, n_active=None), dict(n_ess=10, n_active=4),
           dict(n_ess=12, n_effective=None, n_active=None), dict(n_effective=8.0, n_active=4.0), dict(n_effective=24, n_active=4)]


def bad_values(key):
    for k in range(len(BAD[key])):
        yield {key: k}


def cases(tier):
    keys = sorted(BAD)
    for key in keys:
        for k in range(len(BAD[key])):
            yield dict(kind="bad", bad={key: k})
    for k in range(len(SPEC)):
        yield dict(kind="bad", bad={}, spec=k)
    for a, b in itertools.combinations(keys, 2):
        yield dict(kind="pairs", a=a, b=b)
    for tr, met, smp, res, pre, dyn in itertools.product(("probit", "logit"), ("ess", "uss"), ("tpcn", "rwm"), ("mult", "syst"), (False, True), (True, False)):
        for dim in (1, 2, 3):
            yield dict(kind="product", transform=tr, metric=met, sample=smp, resample=res, precondition=pre, dynamic=dyn, dim=dim)
    for k in range(len(NUMBERS)):
        for pre in (False, True):
            yield dict(kind="numbers", k=k, precondition=pre)
    for lab in (None, "abc", "run.1", "x_y", "x_2"):
        for out in ("str", "path", "nested", "default"):
            yield dict(kind="output", label=lab, out=out)
    for name in ("maf3", "maf6", "maf12", "nsf3", "nsf6", "nsf12", "user", "zuko", "default"):
        for dim in (1, 2, 3):
            yield dict(kind="flow", name=name, dim=dim)
    for k in range(10):
        yield dict(kind="train", k=k)
    for f in (None, 1, 2, 3, 5):
        for num in ((8, 4), (16, 4), (24, 4)):
            yield dict(kind="freq", f=f, n_effective=num[0], n_active=num[1])
    for th in (None, 1, 2, 3):
        yield dict(kind="threads", th=th)
    for dim in (1, 2, 3, 4, 5, 6):
        yield dict(kind="steps", dim=dim)


def run_case(case, rec):
    cwd = os.getcwd()
    with scratch() as d:
        os.chdir(d)
        try:
            globals()["k_" + case["kind"]](case, rec, d)
        finally:
            os.chdir(cwd)


def build(dim=2, log=None, cls=None, prior_log=None, kinds=None, blob=None, sharp=3.0, region=None, **kw):
    import pocomc
    kinds = kinds or "UNE"[:dim]
    prior = ToyPrior(kinds, None, log)
    if log is not None:
        log.draws = []
        real = prior.rvs

        def rvs(size=1, *a, **k):
            log.draws.append(size)
            return real(size, *a, **k)
        prior.rvs = rvs
    like = Like(len(kinds), region, bool(kw.get("vectorize")), blob, sharp, log)
    base = dict(n_effective=8, n_active=4, n_steps=1, n_max_steps=3, random_state=0, train_config=dict(epochs=1))
    base.update(kw)
    if base.get("n_ess") is not None and "n_effective" not in kw:
        base.pop("n_effective")
    if "flow" not in base:
        base["flow"] = KnownFlow(len(kinds))
    if base["flow"] == "DEFAULT":
        base.pop("flow")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return pocomc.Sampler(prior, like, **base)


def go(s, **kw):
    k = dict(n_total=8, n_evidence=0, progress=False)
    k.update(kw)
    s.run(**k)
    return s.results


# ------------------------------------------------------------------------------------------ invalid
def must_reject(rec, what, **kw):
    log = Log()
    rec.trace()
    rec.step()
    rec.state("bad", what)
    try:
        s = build(log=log, **kw)
        go(s, n_evidence=8)
    except ValueError:
        if log.like_calls or log.like_rows:
            rec.fail("%s is rejected only after %d likelihood evaluations" % (what, log.like_calls))
        return
    except Exception as e:  # noqa: BLE001
        rec.fail("%s is rejected with %s instead of ValueError: %s" % (what, type(e).__name__, e))
        return
    rec.fail("%s is accepted and the sampler runs" % what)


def k_bad(case, rec, d):
    kw = {k: BAD[k][v] for k, v in case["bad"].items()}
    if "spec" in case:
        kw.update(SPEC[case["spec"]])
    for pre, vec, pool in itertools.product((True, False), (False, True), (None, 1)):
        if "vectorize" in kw and not vec:
            continue
        a = dict(precondition=pre, vectorize=vec, pool=pool)
        a.update(kw)
        must_reject(rec, "%r (precondition=%r, vectorize=%r)" % (kw, pre, vec), **a)
    if "flow" in kw:
        must_reject(rec, "a flow that is no zuko flow", flow=torch.nn.Linear(2, 2))
    # the invalid value also counts when every other option is valid but different
    good = dict(transform="logit", metric="uss", sample="rwm", resample="syst", flow="nsf3")
    for key in good:
        a = dict(good)
        a.update(kw)
        must_reject(rec, repr(a), **a)
        break


def k_pairs(case, rec, d):
    a, b = case["a"], case["b"]
    for va, vb in itertools.product(BAD[a], BAD[b]):
        must_reject(rec, "%s=%r with %s=%r" % (a, va, b, vb), **{a: va, b: vb})


# ------------------------------------------------------------------------------------------ valid
def shape_ok(rec, s, res, n_active, dim, **info):
    T = len(res["beta"])
    x, u = np.asarray(res["x"]), np.asarray(res["u"])
    if x.shape != (T, n_active, dim) or u.shape != (T, n_active, dim):
        rec.fail("the history has shape %s, expected %s" % (x.shape, (T, n_active, dim)), **info)
        return False
    for k in ("logl", "logp", "logdetj"):
        if np.asarray(res[k]).shape != (T, n_active):
            rec.fail("%s has shape %s, expected %s" % (k, np.asarray(res[k]).shape, (T, n_active)), **info)
            return False
    return True


def k_product(case, rec, d):
    opt = {k: case[k] for k in ("transform", "metric", "sample", "resample", "precondition", "dynamic")}
    dim = case["dim"]
    for mode in ("serial", "vec", "pool", "pool1", "ndim", "blob"):
        kw = dict(opt)
        blob = None
        if mode == "vec":
            kw["vectorize"] = True
        elif mode == "pool":
            kw["pool"] = OrderPool((2, 0, 3, 1))
        elif mode == "pool1":
            kw["pool"] = 1
        elif mode == "ndim":
            kw["n_dim"] = dim
        elif mode == "blob":
            blob = "struct"
            kw["blobs_dtype"] = BLOB_DTYPE["struct"]
        log = Log()
        tap = RngTap()
        kinds = {1: "U", 2: "UN", 3: "UNE"}[dim]
        with quiet(), tap:
            s = build(log=log, kinds=kinds, blob=blob, sharp=1.0, **kw)
            before = {k: v.clone() for k, v in s.flow.flow.state_dict().items()}
            if log.like_calls:
                return rec.fail("construction evaluates the likelihood", options=kw_repr(kw))
            try:
                res = go(s)
            except Exception as e:  # noqa: BLE001
                if degenerate(e):
                    rec.state("degenerate")
                    continue
                raise
        rec.trace()
        rec.step(len(tap.points))
        info = dict(options=kw_repr(kw), mode=mode)
        if not shape_ok(rec, s, res, 4, dim, **info):
            return
        # transform: the latent coordinate of the bounded parameter is affine in its probit (logit)
        p = (np.asarray(res["x"])[..., 0].ravel() + 1.0) / 3.0
        u = np.asarray(res["u"])[..., 0].ravel()
        z = {"probit": norm.ppf(p), "logit": logit(p)}
        ok = (p > 1e-9) & (p < 1 - 1e-9)
        err = {}
        for k, v in z.items():
            A = np.c_[v[ok], np.ones(ok.sum())]
            c, *_ = np.linalg.lstsq(A, u[ok], rcond=None)
            err[k] = np.abs(A @ c - u[ok]).max()
        if not err[opt["transform"]] < 1e-6:
            return rec.fail("the latent coordinates do not follow the %s transform (residuals %s)" % (opt["transform"], err), **info)
        # proposal: gamma numbers are consumed by the Student-t proposal only
        smc = int((np.asarray(res["iter"]) >= 0).sum()) > s.n_prior // 4 if hasattr(s, "n_prior") else True
        ng = sum(1 for q in tap.points if q[0] == "gamma")
        if opt["sample"] == "rwm" and ng or (opt["sample"] == "tpcn" and smc and not ng and len(res["beta"]) > 4):
            return rec.fail("sample=%r draws %d sets of gamma numbers" % (opt["sample"], ng), **info)
        after = s.flow.flow.state_dict()
        trained = any(not torch.equal(before[k], after[k]) for k in before)
        if trained != (opt["precondition"] and len(res["beta"]) > 4):
            return rec.fail("precondition=%r but the flow is %strained" % (opt["precondition"], "" if trained else "not "), **info)
        if mode == "pool" and not kw["pool"].calls:
            return rec.fail("the pool is not used", **info)
        if mode == "vec" and log.like_calls >= len(log.like_rows):
            return rec.fail("the vectorised likelihood is called point by point", **info)
        rec.state(opt, dim, mode, res["x"])
    rec.sample = dict(options=opt, dim=dim, iterations=len(res["beta"]))


def kw_repr(kw):
    return {k: (v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)) for k, v in kw.items()}


def k_numbers(case, rec, d):
    num = NUMBERS[case["k"]]
    eff = num.get("n_ess", num.get("n_effective"))
    act = num.get("n_active")
    want_act = int(act) if act is not None else int(eff) // 2
    want_eff = int(eff) if eff is not None else 2 * int(act)
    for n_prior in (None, 1, want_act - 1, want_act, want_act + 1, 2 * want_act, 3 * want_act - 1, 5 * want_act, 7 * want_act + 2):
        kw = dict(num)
        if n_prior is not None:
            kw["n_prior"] = n_prior
        log = Log()
        with quiet():
            s = build(log=log, sharp=1.0, precondition=case["precondition"], dynamic=False, **kw)
            try:
                res = go(s, n_total=want_eff)
            except Exception as e:  # noqa: BLE001
                if degenerate(e):
                    rec.state("degenerate")
                    continue
                raise
        rec.trace()
        rec.step(len(res["beta"]))
        info = dict(options=kw_repr(kw))
        if not shape_ok(rec, s, res, want_act, 2, **info):
            return
        if s.n_active != want_act or s.n_effective != want_eff:
            return rec.fail("derived particle numbers are active=%r effective=%r, expected %r and %r" % (s.n_active, s.n_effective, want_act, want_eff), **info)
        draws = max(n_prior, want_act) if n_prior is not None else 2 * max(want_eff // want_act, 1) * want_act
        got = int(sum(log.draws))
        batches = draws // want_act
        if got not in (draws, draws - 1 if draws % want_act else draws):
            return rec.fail("%d points are drawn from the prior, expected %d" % (got, draws), **info)
        # the first SMC iteration is the first one whose target is not met at beta = 0
        b = warmup_batches(res, s)
        if b != batches:
            return rec.fail("the warm-up has %d batches, expected %d" % (b, batches), **info)
        # the warm-up reports the target sample size
        if not np.all(np.asarray(res["ess"])[:batches] == want_eff):
            return rec.fail("the recorded target sample size is %s, expected %d" % (np.asarray(res["ess"])[:batches], want_eff), **info)
        rec.state(num, n_prior, res["x"])


def warmup_batches(res, s):
    """Number of leading iterations whose particles are the prior draws."""
    pr = np.asarray(s.prior_samples)
    x = np.asarray(res["x"])
    n = x.shape[1]
    b = 0
    while (b + 1) * n <= len(pr) and b < len(x) and np.array_equal(x[b], pr[b * n:(b + 1) * n]) and res["beta"][b] == 0:
        b += 1
    if b * n + n <= len(pr):
        return b
    # nothing but the prior draws may come out of the warm-up
    return b


def k_output(case, rec, d):
    lab, out = case["label"], case["out"]
    for every, pre in itertools.product((None, 1, 2, 3, 100), (False, True)):
        with scratch() as tmp:
            os.chdir(tmp)
            rel = {"str": "o1", "path": "o2", "nested": os.path.join("a", "b", "c"), "default": "states"}[out]
            arg = {"str": rel, "path": Path(tmp) / rel, "nested": rel, "default": None}[out]
            with quiet():
                s = build(sharp=1.0, precondition=pre, output_dir=arg, output_label=lab)
                go(s, save_every=every)
            T = len(s.results["beta"])
            files = sorted(os.path.relpath(os.path.join(a, f), tmp) for a, _, fs in os.walk(tmp) for f in fs)
            want = []
            if every is not None:
                want = ["%s_%d.state" % (lab or "pmc", t) for t in range(every, T, every)] + ["%s_final.state" % (lab or "pmc")]
            want = sorted(os.path.join(rel, w) for w in want)
            rec.trace()
            rec.step(T)
            rec.state(lab, out, every, pre, tuple(files))
            if files != want:
                return rec.fail("save_every=%r, label %r, directory %r: files %s, expected %s" % (every, lab, rel, files, want))
            # every file is a state that can be loaded and shows that iteration
            for w in want:
                with quiet():
                    q = build(sharp=1.0, precondition=pre, output_dir=arg, output_label=lab)
                    q.load_state(Path(tmp) / w)
                t = w.rsplit("_", 1)[1][:-len(".state")]
                if t != "final" and len(q.particles.get("beta")) != int(t):
                    return rec.fail("%s holds %d iterations" % (w, len(q.particles.get("beta"))))
            os.chdir(d)


def k_flow(case, rec, d):
    name, dim = case["name"], case["dim"]
    want = {"maf3": ("MAF", 3), "maf6": ("MAF", 6), "maf12": ("MAF", 12), "nsf3": ("NSF", 3), "nsf6": ("NSF", 6), "nsf12": ("NSF", 12), "default": ("NSF", 6)}
    f = name
    if name == "user":
        f = KnownFlow(dim)
    elif name == "zuko":
        f = zuko.flows.NICE(dim, transforms=2) if dim > 1 else zuko.flows.MAF(dim, transforms=2)
    elif name == "default":
        f = "DEFAULT"
    kinds = "UNE"[:dim]
    with quiet():
        s = build(kinds=kinds, flow=f, sharp=1.0, precondition=True)
        if name in want:
            cls, n = want[name]
            got = sum(1 for m in s.flow.flow.modules() if type(m).__name__ in ("ElementWiseTransform", "MaskedAutoregressiveTransform"))
            if type(s.flow.flow).__name__ != cls and not isinstance(s.flow.flow, getattr(zuko.flows, cls)):
                return rec.fail("flow=%r builds a %s" % (name, type(s.flow.flow).__name__))
            if got != n:
                return rec.fail("flow=%r has %d transformations" % (name, got))
        elif s.flow.flow is not f:
            return rec.fail("the given flow object is not the one that is used")
        before = {k: v.clone() for k, v in s.flow.flow.state_dict().items()}
        res = go(s, n_evidence=16)
    after = s.flow.flow.state_dict()
    rec.trace()
    rec.step(len(res["beta"]))
    rec.state(name, dim, res["x"])
    if not shape_ok(rec, s, res, 4, dim, flow=name):
        return
    if not any(not torch.equal(before[k], after[k]) for k in before):
        return rec.fail("the flow %r is not trained" % name)


TRAIN = [dict(), dict(validation_split=0.25), dict(epochs=2), dict(patience=3), dict(learning_rate=0.02), dict(annealing=True), dict(gaussian_scale=2.0, laplace_scale=0.5),
         dict(noise=0.1), dict(shuffle=False), dict(clip_grad_norm=0.3, batch_size=3)]
DEFAULTS = dict(validation_split=0.5, epochs=5000, patience=None, learning_rate=1e-3, annealing=False, gaussian_scale=None, laplace_scale=None, noise=None, shuffle=True, clip_grad_norm=1.0)


def fit_spy():
    """Record the arguments of every training."""
    import pocomc.flow
    F = pocomc.flow.Flow
    orig = F.fit
    sig = inspect.signature(orig)
    seen = []

    def fit(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        seen.append(dict(b.arguments))
        return orig(self, *a, **k)
    F.fit = fit

    def undo():
        F.fit = orig
    return seen, undo


def k_train(case, rec, d):
    extra = TRAIN[case["k"]]
    cfg = dict(extra)
    cfg.setdefault("epochs", 1)
    given = dict(cfg)
    seen, undo = fit_spy()
    try:
        with quiet():
            s = build(sharp=1.0, precondition=True, train_config=given)
            go(s)
    finally:
        undo()
    rec.trace()
    rec.step(len(seen))
    rec.state("train", case["k"], len(seen))
    if given != cfg:
        return rec.fail("the given train_config is modified", before=cfg, after=given)
    if not seen:
        return rec.fail("the flow is never trained")
    want = dict(DEFAULTS)
    want["patience"] = 2
    want.update(cfg)
    for a in seen:
        for k, v in want.items():
            if k == "batch_size":
                v = min(v, len(a["x"]) // 2)
            if not (a[k] is v or a[k] == v):
                return rec.fail("training uses %s=%r, expected %r" % (k, a[k], v), train_config=cfg)
        if len(a["x"]) != len(a["weights"]):
            return rec.fail("training gets %d samples and %d weights" % (len(a["x"]), len(a["weights"])))


def k_freq(case, rec, d):
    f = case["f"]
    import pocomc.flow
    F = pocomc.flow.Flow
    orig = F.fit
    at = []
    kw = {} if f is None else dict(train_frequency=f)
    with quiet():
        s = build(sharp=60.0, precondition=True, n_effective=case["n_effective"], n_active=case["n_active"], dynamic=False, **kw)

        def fit(self, *a, **k):
            at.append(len(s.particles.get("beta")))     # index of the iteration under way
            return orig(self, *a, **k)
        F.fit = fit
        try:
            res = go(s, n_total=case["n_effective"])
        finally:
            F.fit = orig
    rec.trace()
    beta = np.asarray(res["beta"])
    T = len(beta)
    warm = warmup_batches(res, s)
    want_f = f if f is not None else max(case["n_effective"] // (2 * case["n_active"]), 1)
    rec.step(T)
    rec.state("freq", f, case["n_effective"], tuple(at))
    info = dict(train_frequency=f, trained_at=at, beta=beta)
    if T - warm < 2 * want_f:
        return
    if not at or at[0] != warm:
        return rec.fail("the flow is not trained before it is first used (iteration %d)" % warm, **info)
    if len(set(at)) != len(at):
        return rec.fail("the flow is trained twice in one iteration", **info)
    for a, b in zip(at, at[1:]):
        if b - a > want_f:
            return rec.fail("%d iterations between trainings, frequency is %d" % (b - a, want_f), **info)
    if T - 1 - at[-1] >= want_f:
        return rec.fail("no training in the last %d iterations" % (T - 1 - at[-1]), **info)
    inner = [a for a in at[1:] if beta[a] < 1]
    for a, b in zip(inner, inner[1:]):
        if b - a != want_f:
            return rec.fail("%d iterations between trainings, frequency is %d" % (b - a, want_f), **info)
    for t in range(warm, T):
        if beta[t] == 1 and t not in at:
            return rec.fail("the flow is not trained at inverse temperature one", **info)


def k_threads(case, rec, d):
    old = torch.get_num_threads()
    try:
        torch.set_num_threads(4)
        s = build(pytorch_threads=case["th"])
        got = torch.get_num_threads()
        rec.trace()
        rec.step()
        rec.state("threads", case["th"])
        if got != (case["th"] or 4):
            rec.fail("pytorch_threads=%r leaves torch with %d threads" % (case["th"], got))
        del s
    finally:
        torch.set_num_threads(old)


def k_steps(case, rec, d):
    """Defaults of the numbers of steps: the run works and stays within the documented maximum."""
    dim = case["dim"]
    kinds = "UNERBU"[:dim]
    for smp, pre in itertools.product(("tpcn", "rwm"), (False, True)):
        for n_steps, n_max in ((None, None), (1, None), (None, 4), (2, 4), (0, 3)):
            with quiet():
                s = build(kinds=kinds, sharp=0.3, sample=smp, precondition=pre, n_steps=n_steps, n_max_steps=n_max, n_effective=16, n_active=8)
                try:
                    res = go(s)
                except Exception as e:  # noqa: BLE001
                    if degenerate(e):
                        rec.state("degenerate")
                        continue
                    raise
            rec.trace()
            rec.step(len(res["beta"]))
            rec.state(dim, smp, pre, n_steps, n_max, res["x"])
            top = n_max if n_max is not None else 10 * max(n_steps if n_steps is not None else dim, 1)
            st = np.asarray(res["steps"])
            if st.min() < 1 or st.max() > max(top, 1):
                return rec.fail("between %d and %d mutation steps, at most %d are allowed" % (st.min(), st.max(), top), n_steps=n_steps, n_max_steps=n_max)
            if not shape_ok(rec, s, res, 8, dim):
                return
