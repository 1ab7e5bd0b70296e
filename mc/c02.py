"""C02: the mutation kernels accept with the exact tempered-posterior Metropolis probability."""
import numpy as np

from .kern import KERNELS, Bench, Script, starts
from .rng import HI

PROPERTY = "C02"
LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of kernel executions with every random answer scripted; each accept decision is bracketed from both sides "
             "by a uniform number just below and just above the oracle's probability")
LEVEL_NOTE = ("Exhaustive over a lattice of bound types, transforms, temperatures, degrees of freedom, proposal directions and all accept/reject "
              "histories of up to three steps for the four kernels; flow replaced by a user flow with a closed-form map. Values outside of the lattice are not covered.")
RULE = ("a case is (kernel, bound types, transform, temperature, degrees of freedom, walker rotation); inside it all steps 1..3, all 8 accept/reject prefixes "
        "(one per walker) and all proposal directions are executed twice with the deciding uniform number just below and just above the oracle value")
ASSUMPTIONS = ["uniform, normal and gamma numbers are drawn through numpy.random module functions", "single-precision flow arithmetic is exact to 1e-3 in the ratio"]
CHUNK = 4

ZS = ([0.8, -0.5, 0.4], [-1.3, 0.7, 0.9], [2.2, 1.6, -1.1])


def cases(tier):
    kindss = ("U", "N", "E", "R", "UN", "EB", "RU", "UEN") if tier == "quick" else ("U", "N", "E", "R", "B", "UN", "EB", "RU", "NN", "BR", "UEN", "RBU", "NER")
    betas = (0.0, 0.37, 1.0) if tier == "quick" else (0.0, 1e-3, 0.1, 0.37, 0.8, 1.0)
    nus = (1.7, 8.0) if tier == "quick" else (1.0, 1.7, 8.0, 60.0, 1e6)
    for kernel in KERNELS:
        for kinds in kindss:
            for tr in ("probit", "logit"):
                for beta in betas:
                    for nu in (nus if kernel.endswith("pcn") else (4.0,)):
                        for rot in (0, 3) if tier == "quick" else range(8):
                            yield dict(kernel=kernel, kinds=kinds, transform=tr, beta=beta, nu=nu, rot=rot, kind="accept")
                for sigma in (0.3, 0.97, 1.4):
                    yield dict(kernel=kernel, kinds=kinds, transform=tr, sigma=sigma, kind="proposal")
                for region in (None, "ninf", "nan"):
                    for hole in (None, "corner"):
                        for blob in (None, "pair"):
                            yield dict(kernel=kernel, kinds=kinds, transform=tr, region=region, hole=hole, blob=blob, kind="support")


def logt(b, th, mu):
    diff = th - mu
    delta = np.einsum("ij,ij->i", diff, np.linalg.solve(b.cov, diff.T).T)
    return -(b.dim + b.nu) / 2 * np.log1p(delta / b.nu)


def oracle_logratio(b, x, xp, mu):
    r = b.logtarget(xp) - b.logtarget(x)
    if b.t:
        r = r + logt(b, b.theta_of_x(x), mu) - logt(b, b.theta_of_x(xp), mu)
    return r


def clear_of_bounds(b, x):
    """positions closer to a bound do not determine the latent coordinate to the accuracy needed"""
    lo, hi = b.prior.bounds.T
    span = np.where(np.isfinite(hi - lo), hi - lo, 1.0)
    return (((x - lo) > 1e-5 * span) & ((hi - x) > 1e-5 * span)).all(axis=1)


def run_case(case, rec):
    if case["kind"] == "accept":
        accept(case, rec)
    elif case["kind"] == "proposal":
        proposal(case, rec)
    else:
        support(case, rec)


def mkbench(case, n=8, **kw):
    x0 = np.roll(starts(case["kinds"], n), case.get("rot", 0), axis=0)
    return Bench(case["kernel"], case["kinds"], x0, transform=case["transform"], beta=case.get("beta", 0.6), nu=case.get("nu", 4.0),
                 sigma=case.get("sigma", 0.6), sharp=0.8, **kw)


def accept(case, rec):
    b = mkbench(case)
    n, d = b.n, b.dim
    delta = 2e-3 if b.pre else 1e-6
    for s in (1, 2, 3):
        for zi, z0 in enumerate(ZS):
            pre_z = [ZS[(zi + 1 + k) % 3] for k in range(s - 1)]
            pre_g = [1.7 + 0.6 * k for k in range(s - 1)]
            # walker w accepts at prefix step k iff bit k of w is 0 (as far as the probability allows)
            pre_u = [[0.0 if not (w >> k) & 1 else HI for w in range(n)] for k in range(s - 1)]

            def go(z, final_u):
                sc = Script(n, d, pre_z + [z], pre_g + [2.1], pre_u + [final_u])
                out = b.run(sc, n_max=s)
                if len(b.log.batches) != s or any(len(r) != n for r in b.log.batches):
                    return out, None
                rec.step(s * n)
                rec.trace()
                return out, b.log.batches[-1]
            out0, xp = go(z0, [0.0] * n)
            if xp is None:
                rec.state("proposal out of support")
                continue
            # current points before the final step: run only the prefix
            if s == 1:
                cur = dict(x=b.x0, logl=b.logl0, logp=b.logp0, u=b.u0, logdetj=b.ldj0)
                mu = b.mean
            else:
                sc = Script(n, d, pre_z, pre_g, pre_u)
                cur = b.run(sc, n_max=s - 1)
                mu = None
            if b.t and mu is None:
                # noise-free proposals are an affine contraction towards the centre: infer it
                _, xc = go([0.0] * d, [0.0] * n)
                if xc is None:
                    continue
                good = clear_of_bounds(b, xc) & clear_of_bounds(b, cur["x"])
                if good.sum() < 3:
                    continue
                th, thc = b.theta_of_x(cur["x"][good]), b.theta_of_x(xc[good])
                m0, m1 = th.mean(0), thc.mean(0)
                den = np.sum((th - m0) ** 2)
                c = np.sum((th - m0) * (thc - m1)) / den
                resid = np.abs((thc - m1) - c * (th - m0)).max()
                if resid > (1e-3 if b.pre else 1e-7) * (1 + np.abs(th).max()):
                    return rec.fail("noise-free proposals are not a common contraction towards one centre", step=s, residual=resid)
                if abs(c) >= 0.995:
                    continue
                mu = (m1 - c * m0) / (1 - c)
            if not b.t and s > 1:
                _, xc = go([0.0] * d, [0.0] * n)
                if xc is not None:
                    good = clear_of_bounds(b, xc) & clear_of_bounds(b, cur["x"])
                    if good.any():
                        th, thc = b.theta_of_x(cur["x"][good]), b.theta_of_x(xc[good])
                        if np.abs(th - thc).max() > (1e-3 if b.pre else 1e-7) * (1 + np.abs(th).max()):
                            return rec.fail("the step does not start from the current positions", step=s, current=cur["x"], centre=xc)
            lr = oracle_logratio(b, cur["x"], xp, mu)
            alpha = np.exp(np.minimum(lr, 0.0))
            below = np.where(lr > delta, HI, alpha * (1 - delta))
            above = np.where(lr > -2 * delta, 0.0, alpha * (1 + delta))
            clear = clear_of_bounds(b, xp) & clear_of_bounds(b, cur["x"])
            for u, side in ((below, "below"), (above, "above")):
                out, xq = go(z0, list(u))
                if xq is None or not np.array_equal(xq, xp):
                    return rec.fail("proposals depend on the acceptance numbers of the same step", step=s)
                for w in np.flatnonzero(clear):
                    if side == "above" and lr[w] > -2 * delta:
                        continue
                    if side == "below" and -745 < lr[w] < -650:
                        continue        # the probability underflows
                    should = side == "below" and lr[w] >= -650
                    did = np.array_equal(out["x"][w], xp[w])
                    kept = np.array_equal(out["x"][w], cur["x"][w])
                    rec.state("%s s%d %s %s %s" % (case["kernel"], s, side, did, "%.3f" % lr[w]))
                    info = dict(step=s, walker=w, prefix_pattern=w, alpha=alpha[w], u=u[w], x=cur["x"][w], proposal=xp[w], got=out["x"][w])
                    if should and not did:
                        return rec.fail("proposal rejected although the uniform number is below the Metropolis probability", **info)
                    if not should and not kept:
                        return rec.fail("proposal accepted although the uniform number is above the Metropolis probability", **info)
                    if did:
                        e = (b.like.pure(xp[w])[0], b.prior.pure_logpdf(xp[w:w + 1])[0])
                    else:
                        e = (cur["logl"][w], cur["logp"][w])
                    if out["logl"][w] != e[0] or abs(out["logp"][w] - e[1]) > 1e-12:
                        return rec.fail("log-likelihood or log-prior do not follow the accepted/kept position", **info)
                    if not did and (not np.array_equal(out["u"][w], cur["u"][w]) or out["logdetj"][w] != cur["logdetj"][w]):
                        return rec.fail("a rejected particle changed its latent coordinate or Jacobian", **info)
                    if did:
                        xx, ld = b.scaler.inverse(out["u"][w:w + 1])
                        if np.abs(xx - xp[w]).max() > 1e-5 * (1 + np.abs(xp[w]).max()) or abs(ld[0] - out["logdetj"][w]) > 1e-4:
                            return rec.fail("an accepted particle has the latent coordinate or Jacobian of another point", **info)
    rec.sample = dict(case)


def proposal(case, rec):
    """Law of the proposal as a function of the random answers."""
    b = mkbench(case)
    n, d = b.n, b.dim
    g = 2.3
    if b.t:
        sig = min(b.sigma, 0.99)
    else:
        sig = b.sigma
    tol = 3e-4 if b.pre else 1e-6
    th = b.theta_of_x(b.x0)

    def theta(z):
        sc = Script(n, d, [z], [g], [[HI] * n])
        b.run(sc, n_max=1)
        if len(b.log.batches) != 1 or len(b.log.batches[0]) != n:
            return None, sc
        rec.trace()
        rec.step(n)
        return b.theta_of_x(b.log.batches[0]), sc
    zero = [0.0] * d
    c0, sc = theta(zero)
    if c0 is None:
        return
    expect = b.mean + np.sqrt(1 - sig ** 2) * (th - b.mean) if b.t else th
    scale = 1 + np.abs(th).max()
    if np.abs(c0 - expect).max() > tol * scale:
        return rec.fail("centre of the proposal is wrong", got=c0, expected=expect)
    if b.t and sc.ng == 0:
        return
    if b.t:
        sh = np.concatenate(sc.shapes)
        if np.abs(sh - (d + b.nu) / 2).max() > 1e-9:
            return rec.fail("shape of the gamma mixing variable is not (d + nu)/2", got=sh)
        diff = th - b.mean
        delta = np.einsum("ij,ij->i", diff, np.linalg.solve(b.cov, diff.T).T)
        fac = sig * np.sqrt((b.nu + delta) / (2 * g))
    else:
        fac = np.full(n, sig)
    h = 0.25
    cols = np.zeros((n, d, d))
    for i in range(d):
        for sgn in (1, -1):
            z = list(zero)
            z[i] = sgn * h
            c, _ = theta(z)
            if c is None:
                return
            step = (c - c0) / (sgn * h) / fac[:, None]
            if sgn == 1:
                cols[:, :, i] = step
            elif np.abs(step - cols[:, :, i]).max() > 20 * tol * scale / h / fac.min():
                return rec.fail("proposal is not symmetric in the normal variable")
            rec.state("%s %s %d %d" % (case["kernel"], case["kinds"], i, sgn))
    for k in range(n):
        C = cols[k] @ cols[k].T
        if np.abs(C - b.cov).max() > 40 * tol * scale / h / fac[k]:
            return rec.fail("spread of the proposal does not follow the fitted covariance and mixing scale", walker=k, got=C, expected=b.cov)
    rec.sample = dict(case)


def support(case, rec):
    """Nothing outside of the support is accepted, whatever the uniform number; far proposals are handled."""
    b = mkbench(case, hole=case["hole"], region=case["region"], blob=case["blob"])
    ok = np.isfinite(b.logl0) & np.isfinite(b.logp0)
    x0 = b.x0[ok]
    if not len(x0):
        return
    b = Bench(case["kernel"], case["kinds"], x0, transform=case["transform"], beta=0.6, sigma=0.6, sharp=0.8, hole=case["hole"],
              region=case["region"], blob=case["blob"])
    n, d = b.n, b.dim
    for mag in (0.6, 2.0, 6.0, 12.0, 60.0, 400.0):
        for s0 in (1, -1):
            for s1 in (1, -1):
                z = [mag * s0, 0.7 * mag * s1, -0.4 * mag][:d]
                for g in (2.0, 1e-3):
                    for u in (0.0, HI):
                        sc = Script(n, d, [z, [-0.5 * v for v in z]], [g, 1.5], [[u] * n, [0.0] * n])
                        out = b.run(sc, n_max=2)
                        rec.trace()
                        rec.step(2 * n)
                        rec.state(out["x"], out["logl"])
                        rows = np.concatenate(b.log.batches) if b.log.batches else np.zeros((0, d))
                        if len(rows) and not (np.isfinite(rows).all() and np.isfinite(b.prior.pure_logpdf(rows)).all()):
                            return rec.fail("likelihood evaluated outside of the prior support", rows=rows)
                        if len(rows) != out["calls"]:
                            return rec.fail("reported calls differ from evaluated points", calls=out["calls"], points=len(rows))
                        if not (np.isfinite(out["logl"]).all() and np.isfinite(out["logp"]).all()):
                            return rec.fail("a point without finite likelihood and prior was accepted", z=z, g=g, u=u, logl=out["logl"], logp=out["logp"])
                        if not np.array_equal(out["logl"], b.like.pure(out["x"])) or not np.allclose(out["logp"], b.prior.pure_logpdf(out["x"]), rtol=1e-12):
                            return rec.fail("stored values are not those of the stored position", z=z)
                        if case["blob"]:
                            for k in range(n):
                                if not np.array_equal(np.asarray(out["blobs"][k]).reshape(-1), np.array(b.like.blob_of(out["x"][k]))):
                                    return rec.fail("blob does not follow the accepted/kept position", walker=k, z=z, u=u)
    rec.sample = dict(case)
