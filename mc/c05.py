"""C05: the temperature ladder is monotone, hits its target and ends exactly when done."""
import itertools

import numpy as np

from . import full, ref
from .env import quiet

PROPERTY = "C05"
LEVEL = "model_checking"
TECHNIQUE = "complete runs over a product of likelihood scales, metrics and particle counts plus deviation-bounded exploration; every iteration checked against a reference model of the ladder"
LEVEL_NOTE = ("A reference model (target size, metric, stopping rule) is stepped along every iteration of every explored run; exhaustive over the configuration product and over "
              "every single extreme random answer for selected configurations. CPU-time limit turns non-termination into a violation.")
RULE = "a case is one configuration (likelihood scale, metric, dynamic, particle counts, requested total, prior draws); states are distinct ladders"
ASSUMPTIONS = ["user functions are pure", "runs whose ensemble becomes degenerate (LinAlgError) are not counted"]
CPU_LIMIT = 120


def cases(tier):
    for metric, dyn in itertools.product(("ess", "uss"), (True, False)):
        cfg = dict(kinds="N", sharp=4.0, metric=metric, dynamic=dyn, n_active=4, n_effective=8, n_total=10, seed=2, n_max_steps=1)
        yield from full.sharded(cfg, tier, nsh=2, only=["unif", "pick"])
    seeds = (1, 2) if tier == "quick" else range(1, 9)
    for metric, dyn, sharp, (na, ne), nt in itertools.product(("ess", "uss"), (True, False), (0.0, 0.01, 1.0, 30.0, 3000.0, 3e6),
                                                              ((2, 2), (3, 6), (4, 4), (5, 7), (8, 8), (6, 24), (3, 31)), (1, 12, 40)):
        for seed in seeds:
            if (seed + na + nt) % 2 and tier == "quick":
                continue
            yield dict(cfg=dict(kinds="N", sharp=sharp, metric=metric, dynamic=dyn, n_active=na, n_effective=ne, n_total=nt, seed=seed, n_max_steps=2,
                                sample="tpcn" if nt != 12 else "rwm"), bound=0)
    for pre, dyn, metric, npr in itertools.product((False, True), (True, False), ("ess", "uss"), (None, 1, 7, 23, 60)):
        c = dict(kinds="UN", precondition=pre, metric=metric, dynamic=dyn, n_active=6, n_effective=12, n_total=20, seed=3, sharp=8.0)
        if npr is not None:
            c["n_prior"] = npr
        yield dict(cfg=c, bound=0)
        yield dict(cfg=dict(c, more=45), bound=0)
    # ladders that come to rest just below the posterior
    for metric, dyn, (na, ne, npr, d), seed in itertools.product(("ess", "uss"), (True, False), ((16, 24, 512, 6), (32, 40, 1024, 8)),
                                                                range(1, 2 if tier == "quick" else 7)):
        yield dict(cfg=dict(kinds="N" * d, metric=metric, dynamic=dyn, n_active=na, n_effective=ne, n_prior=npr, n_total=1, seed=seed, n_max_steps=1), bound=0,
                   near=[0.985, 0.992, 0.9935, 0.995, 0.9965, 0.998, 0.9988, 0.9994])


def warm_batches(cfg):
    na, ne = cfg["n_active"], cfg["n_effective"]
    if cfg.get("n_prior") is None:
        return 2 * max(ne // na, 1)
    return max(int(max(cfg["n_prior"] / na, 1) * na) // na, 1)


def check(d, rec, devs, stops=None):
    r, cfg = d.res, d.cfg
    na, ne, metric = cfg["n_active"], cfg["n_effective"], cfg["metric"]
    beta = np.asarray(r["beta"], float)
    logl, logz, ess = np.asarray(r["logl"], float), np.asarray(r["logz"], float), np.asarray(r["ess"], float)
    T = len(beta)
    warm = warm_batches(cfg)
    if T <= warm or np.any(beta[:warm] != 0.0):
        return rec.fail("the run does not start with %d prior batches at inverse temperature 0" % warm, beta=beta)
    if np.any(np.diff(beta) < 0) or beta.max() > 1.0 or not np.isfinite(beta).all():
        return rec.fail("inverse temperatures decrease or leave [0, 1]", beta=beta)
    stops = stops or [(cfg.get("n_total", 8), T)]
    ratio = ref.uss([1.0] * ne, na) / na
    targets = {ne}
    for t in range(warm, T):
        def m(b, k=t):
            return ref.metric(ref.balance(logl[:k], beta[:k], logz[:k], b)[0], metric)
        mp, m1 = m(beta[t - 1]), m(1.0)
        mc = mp if beta[t] == beta[t - 1] else (m1 if beta[t] == 1.0 else m(beta[t]))
        if abs(ess[t] - mc) > 1e-6 * (1 + mc):
            return rec.fail("recorded sample size is not the metric at the chosen temperature", iteration=t, got=ess[t], expected=mc)
        ok = set()
        why = []
        for n in targets:
            e = 1e-7 * (1 + n)
            keep, jump = mp <= n + e, m1 >= n - e
            must_keep, must_jump = mp <= n - e, m1 >= n + e and not mp <= n + e
            if keep and beta[t] == beta[t - 1]:
                ok.add(n)
            elif not must_keep and jump and beta[t] == 1.0:
                ok.add(n)
            elif not must_keep and not must_jump and beta[t] >= beta[t - 1] and (abs(mc - n) <= 0.01 * n + e):
                ok.add(n)
            else:
                why.append((n, mp, m1, mc))
        if not ok:
            return rec.fail("temperature of iteration %d does not follow the target sample size" % t, beta=[beta[t - 1], beta[t]],
                            target_metric_prev_one_chosen=why)
        if cfg.get("dynamic", True):
            lw = ref.balance(logl[:t], beta[:t], logz[:t], beta[t])[0]
            nu = ref.uss(np.exp(lw - lw.max()), na)
            new = set()
            for n in ok:
                opts = []
                lo, hi = na * 0.95 * ratio, na * min(1.05 * ratio, 1.0)
                if nu < lo * (1 + 1e-9):
                    opts.append(na / nu * n)
                if nu > hi * (1 - 1e-9) and not nu < lo * (1 - 1e-9):
                    opts.append(nu / na * n)
                if lo * (1 - 1e-9) <= nu <= hi * (1 + 1e-9):
                    opts.append(n)
                for o in opts:
                    new |= {int(o - 1e-7), int(o + 1e-7), int(o)}
            targets = new
        else:
            targets = ok
        rec.step()
    # stopping rule
    done = warm
    for n_total, end in stops:
        if end > T:
            return rec.fail("history is shorter than after an earlier run")
        for k in range(done, end + 1):
            lw = ref.balance(logl[:k], beta[:k], logz[:k], 1.0)[0]
            v = ref.metric(lw, metric)
            edge = abs(v - n_total) < 1e-7 * (1 + n_total)
            fin = (1.0 - beta[k - 1] < 1e-4) and v >= n_total
            if k < end and fin and not edge:
                return rec.fail("run went on although the posterior was reached with the requested sample size", iteration=k, size=v, n_total=n_total)
            if k == end and not fin and not edge:
                return rec.fail("run stopped before the posterior was reached with the requested sample size", iteration=k, size=v, n_total=n_total,
                                beta=beta[k - 1])
        done = end
    rec.state(np.round(beta, 9))
    rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, beta=list(beta))


def run_case(case, rec):
    cfg = case["cfg"]
    try:
        if case.get("near"):
            base = 20.0
            b = np.asarray(full.execute(dict(cfg, sharp=base)).res["beta"], float)
            first = b[b > 0][0]
            for target in case["near"]:
                # scaling the log-likelihood scales the first temperature above the prior
                full.explore_case(dict(cfg, sharp=base * first / target), rec, check, bound=0)
                if rec.failed:
                    return
            return
        if cfg.get("more"):
            d = full.execute(cfg)
            stops = [(cfg["n_total"], d.T)]
            for nt in (cfg["more"], 5):
                with quiet():
                    d.s.run(n_total=nt, n_evidence=0, progress=False)
                stops.append((nt, len(d.s.results["iter"])))
            d.res = d.s.results
            d.T = len(d.res["iter"])
            rec.trace()
            check(d, rec, {}, stops)
            return
        full.explore_case(cfg, rec, check, bound=case["bound"], shard=case.get("shard", (0, 1)), kinds=case.get("only"))
    except (np.linalg.LinAlgError, ValueError) as e:
        if not full.degenerate(e):
            raise
        rec.state("degenerate ensemble")
