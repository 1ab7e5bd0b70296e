"""C17: mutation effort is bounded and the proposal scale stays usable."""
import itertools

import numpy as np

from . import full
from .c02 import oracle_logratio
from .kern import KERNELS, Bench, Script, starts
from .rng import HI

PROPERTY = "C17"
LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of all accept/reject histories of the four real kernels with scripted random numbers, every prefix executed separately, "
             "plus deviation-bounded exploration of complete runs")
LEVEL_NOTE = ("All 2^(walkers x steps) acceptance histories for 2 walkers and up to 4 steps (thorough: 5) and 1 walker up to 7 (thorough: 9), per kernel, dimension 1-3, plateau length, "
              "step limit, initial scale and proposal pattern; long histories (60 steps) of constant acceptance or rejection. Complete runs: every single extreme random answer.")
RULE = "a case is one (kernel, dimension, plateau length, step limit, scale, proposal pattern) with all acceptance histories, or one run configuration; states are (history, steps, scale)"
ASSUMPTIONS = ["uniform, normal and gamma numbers are drawn through numpy.random module functions", "user functions are pure"]
CPU_LIMIT = 300
CHUNK = 2

ZP = {"small": [[0.3, -0.2, 0.1], [-0.25, 0.15, 0.2], [0.1, 0.2, -0.3]],
      "large": [[1.9, -1.6, 1.1], [-2.2, 1.3, 0.9], [1.2, 1.7, -2.3]],
      "zero": [[0.0, 0.0, 0.0]]}
KINDS = {1: ("U", "N"), 2: ("UN", "EB"), 3: ("UEN",)}


def cases(tier):
    q = tier == "quick"
    for kernel in KERNELS:
        for d in (1, 2, 3):
            for kinds in KINDS[d][:1] if q else KINDS[d]:
                for n_steps, sigma, zp in itertools.product((0, 1, 2, 5), (0.05, 0.6, 2.0), ("small", "large")):
                    yield dict(kind="hist", kernel=kernel, kinds=kinds, n=1, n_steps=n_steps, sigma=sigma, zp=zp, depth=5 if q else 8)
                    if d == 2 or not q:
                        yield dict(kind="hist", kernel=kernel, kinds=kinds, n=2, n_steps=n_steps, sigma=sigma, zp=zp, depth=3 if q else 4)
                for sigma, zp, beta in itertools.product((1e-6, 0.05, 0.6, 2.0, 30.0), ZP, (0.0, 1.0)):
                    yield dict(kind="long", kernel=kernel, kinds=kinds, sigma=sigma, zp=zp, beta=beta)
                for sigma, dead in itertools.product((1e-6, 0.05, 0.6, 2.0, 30.0), ("zero", "nan", "prior", "one nan")):
                    yield dict(kind="long", kernel=kernel, kinds=kinds, sigma=sigma, zp="small", beta=0.5, dead=dead)
    for pre, sample, kinds, nmax, nsteps in itertools.product((False, True), ("tpcn", "rwm"), ("N", "UN", "UEN"), (0, 1, 3), (0, 1, 4)):
        yield dict(kind="run", cfg=dict(precondition=pre, sample=sample, kinds=kinds, n_max_steps=nmax, n_steps=nsteps, seed=3, n_active=6, n_effective=12, n_total=14), bound=0)
    for pre, sample in itertools.product((False, True), ("tpcn", "rwm")):
        cfg = dict(precondition=pre, sample=sample, kinds="UN", n_max_steps=1, n_steps=1, seed=5, sharp=8.0, n_active=5, n_effective=10, n_total=10)
        for c in full.sharded(cfg, tier, nsh=4, only=["unif", "norm"]):
            yield dict(c, kind="run")
    for seed in range(2, 6 if q else 30):
        for pre, sample in itertools.product((False, True), ("tpcn", "rwm")):
            yield dict(kind="run", cfg=dict(precondition=pre, sample=sample, kinds="UN", n_max_steps=1, n_steps=1, seed=seed, sharp=40.0, n_active=6, n_effective=12, n_total=40), bound=0)


def run_case(case, rec):
    globals()["k_" + case["kind"]](case, rec)


def scale_ok(b, rec, scale, **info):
    scale = float(scale)
    if not np.isfinite(scale) or scale <= 0 or (b.t and scale >= 1):
        rec.fail("proposal scale is %r" % scale, **info)
        return False
    return True


def moved_right(old, new, acc, cap, refl, slack=1e-9):
    """The scale follows the acceptance probability: up above 23.4 percent, down below (or reflected at zero), up to its cap."""
    old = min(old, cap)
    if acc > 0.234 + 1e-6:
        return new >= old - slack
    if acc < 0.234 - 1e-6:
        return new <= old + slack or new <= refl + slack
    return True


def mk(case, n, beta=0.7, **kw):
    return Bench(case["kernel"], case["kinds"], starts(case["kinds"], max(n, 3))[:n], beta=beta, sigma=case["sigma"], sharp=0.8, **kw)


def k_hist(case, rec):
    n, depth = case["n"], case["depth"]
    b = mk(case, n)
    opt = 2.38 / b.dim ** 0.5
    cap = min(opt, 0.99) if b.t else np.inf
    zs = [ZP[case["zp"]][k % 3] for k in range(depth)]
    gs = [1.6 + 0.5 * k for k in range(depth)]
    memo = {}

    def go(hist, nmax, n_steps):
        key = (hist[:max(nmax, 1)], nmax, n_steps)
        if key not in memo:
            sc = Script(n, b.dim, zs, gs, [[0.0 if bit == "A" else HI for bit in step] for step in hist])
            memo[key] = b.run(sc, n_max=nmax, n_steps=n_steps)
            rec.trace()
            rec.step(int(memo[key]["steps"]) * n)
        return memo[key]
    alphabet = ["".join(p) for p in itertools.product("AR", repeat=n)]

    def dens(st):
        return np.mean(st["logl"] + st["logp"]), np.mean(st["logl"] + st["logp"] + st["logdetj"])
    start = dens(dict(logl=b.logl0, logp=b.logp0, logdetj=b.ldj0))
    for hist in itertools.product(alphabet, repeat=depth):
        info = dict(kernel=b.kernel, history=hist, n_steps=case["n_steps"], sigma=case["sigma"], proposals=case["zp"], kinds=case["kinds"])
        # states after every step, from runs that are cut there (a huge plateau length never stops them)
        states = [go(hist, k, 10 ** 9) for k in range(1, depth + 1)]
        for k, st in enumerate(states):
            if int(st["steps"]) != k + 1:
                return rec.fail("%d steps reported for a run limited to %d" % (st["steps"], k + 1), **info)
            if not scale_ok(b, rec, st["proposal_scale"], step=k + 1, **info):
                return
            if not 0 <= float(st["accept"]) <= 1:
                return rec.fail("acceptance %r is not in [0, 1]" % st["accept"], **info)
            old = min(case["sigma"], 0.99) if b.t and k == 0 else (case["sigma"] if k == 0 else states[k - 1]["proposal_scale"])
            if not moved_right(float(old), float(st["proposal_scale"]), float(st["accept"]), cap, 0.234):
                return rec.fail("the scale moved from %r to %r at an acceptance of %r" % (float(old), float(st["proposal_scale"]), float(st["accept"])), step=k + 1, **info)
        if depth and len(b.log.batches) and hist == tuple([alphabet[0]] * depth):
            go1 = b.run(Script(n, b.dim, zs, gs, [[HI] * n]), n_max=1)
            if len(b.log.batches) == 1 and len(b.log.batches[0]) == n:
                a = np.mean(np.exp(np.minimum(oracle_logratio(b, b.x0, b.log.batches[0], b.mean), 0)))
                if abs(a - float(go1["accept"])) > 2e-3:
                    return rec.fail("acceptance %r reported, the mean acceptance probability is %r" % (float(go1["accept"]), a), **info)
        for nmax in (0, 1, 2, depth - 1, depth):
            out = go(hist, nmax, case["n_steps"])
            st = int(out["steps"])
            if not 1 <= st <= max(1, nmax):
                return rec.fail("%d steps were made with a limit of %d" % (st, nmax), **info)
            ref = states[st - 1]
            if not np.array_equal(out["x"], ref["x"]) or out["proposal_scale"] != ref["proposal_scale"]:
                return rec.fail("the number of steps reported is not the number of steps made", steps=st, limit=nmax, **info)
            if not scale_ok(b, rec, out["proposal_scale"], **info):
                return
            rec.state(hist[:st], st, float(out["proposal_scale"]))
            # plateau rule, judged only while both definitions of the mean log-density agree
            best = list(start)
            cnt = 0
            for k in range(st):
                v = dens(states[k])
                imp = [v[j] > best[j] for j in (0, 1)]
                if imp[0] != imp[1] or min(abs(v[j] - best[j]) for j in (0, 1)) < 1e-9 and imp[0]:
                    break
                if imp[0]:
                    best, cnt = list(v), 0
                    if k == st - 1 and st < nmax:
                        return rec.fail("stopped right after a step that improved the mean log-density", steps=st, limit=nmax, **info)
                else:
                    cnt += 1
                    ratio2 = (opt / float(states[k]["proposal_scale"])) ** 2
                    if k < st - 1 and cnt >= case["n_steps"] * ratio2 * (1 + 1e-9) + 1e-9:
                        return rec.fail("went on after %d steps without improvement (plateau length %d)" % (cnt, case["n_steps"]), steps=st, **info)
                    if k == st - 1 and st < nmax and cnt < case["n_steps"] * (min(1.0, ratio2) if b.kernel == "preconditioned_rwm" else ratio2) * (1 - 1e-9):
                        return rec.fail("stopped after only %d steps without improvement (plateau length %d)" % (cnt, case["n_steps"]), steps=st, **info)
    rec.sample = dict(case)


def k_long(case, rec):
    N = 60
    n = 2
    b = mk(case, n, beta=case["beta"])
    dead = case.get("dead")
    if dead:        # nothing but the starting points has a density: every proposal must be rejected
        pure1, lp = b.like.pure1, b.prior.logpdf

        def at_start(x, who=slice(None)):
            return bool((b.x0[who] == np.asarray(x)).all(axis=1).any())
        if dead == "prior":
            b.prior.logpdf = lambda x: np.where([at_start(r) for r in x], lp(x), -np.inf)
        elif dead == "one nan":     # only proposals of the upper half are undefined
            b.like.pure1 = lambda x: np.nan if x[0] > np.mean(b.x0[:, 0]) and not at_start(x) else pure1(x)
        else:
            b.like.pure1 = lambda x: pure1(x) if at_start(x) else (-np.inf if dead == "zero" else np.nan)
    zs = [ZP[case["zp"]][k % len(ZP[case["zp"]])] for k in range(N)]
    for pat in ("A", "R", "AR", "RRRRA"):
        us = [[0.0 if pat[k % len(pat)] == "A" else HI] * n for k in range(N)]
        out = b.run(Script(n, b.dim, zs, [1.5 + 0.01 * k for k in range(N)], us), n_max=N, n_steps=10 ** 9)
        rec.trace()
        rec.step(N)
        info = dict(pattern=pat, **{k: v for k, v in case.items() if k != "kernel"})
        if not scale_ok(b, rec, out["proposal_scale"], **info):
            return
        if int(out["steps"]) != N:
            return rec.fail("%d steps reported for %d" % (out["steps"], N), **info)
        if not 0 <= float(out["accept"]) <= 1:
            return rec.fail("acceptance %r" % out["accept"], **info)
        if dead and dead != "one nan" and (float(out["accept"]) != 0 or not np.array_equal(out["x"], b.x0)):
            return rec.fail("a proposal without density was accepted", accept=float(out["accept"]), **info)
        rec.state(case["kernel"], pat, float(out["proposal_scale"]))


def check(d, rec, devs):
    r, cfg = d.res, d.cfg
    dim = len(cfg["kinds"])
    opt = 2.38 / dim ** 0.5
    beta = np.asarray(r["beta"], float)
    from .c05 import warm_batches
    warm = warm_batches(dict(cfg, n_prior=cfg.get("n_prior")))
    st, eff, acc = np.asarray(r["steps"]), np.asarray(r["efficiency"], float), np.asarray(r["accept"], float)
    lim = max(1, cfg["n_max_steps"])
    if (st < 1).any() or (st > lim).any():
        return rec.fail("number of steps outside of [1, %d]" % lim, steps=st)
    if not np.isfinite(eff).all() or (eff <= 0).any():
        return rec.fail("efficiency is not a positive number", efficiency=eff)
    if (acc < 0).any() or (acc > 1).any() or not np.isfinite(acc).all():
        return rec.fail("acceptance outside of [0, 1]", accept=acc)
    t = cfg["sample"] == "tpcn"
    if t and (eff[warm:] * opt >= 1).any():
        return rec.fail("proposal scale of tpCN reaches 1", efficiency=eff)
    sc = float(d.s.proposal_scale)
    if abs(sc / opt - eff[-1]) > 1e-9 * (1 + eff[-1]):
        return rec.fail("efficiency %r is not the proposal scale %r relative to its optimal value %r" % (eff[-1], sc, opt))
    cap = (min(opt, 0.99) if t else np.inf) / opt
    prev = min(1.0, 0.99 / opt) if t else 1.0
    for k in range(warm, len(eff)):
        if st[k] == 1:
            # one step: the scale moved from the one of the previous iteration in the direction given by the acceptance
            if not moved_right(prev, eff[k], acc[k], cap, 0.234 / opt):
                return rec.fail("the scale is not carried to the next iteration: %r -> %r (relative) at an acceptance of %r" % (prev, eff[k], acc[k]), iteration=k,
                                efficiency=eff, accept=acc)
            if abs(eff[k] - min(prev, cap)) * opt > 1.0:
                return rec.fail("the scale jumped from %r to %r in one step" % (prev, eff[k]), iteration=k)
        prev = eff[k]
    rec.state(st, np.round(eff, 9))
    rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, steps=st, efficiency=eff)


def k_run(case, rec):
    full.explore_case(case["cfg"], rec, check, bound=case["bound"], shard=case.get("shard", (0, 1)), kinds=case.get("only"))
