"""C24: flow training honours its contract for every loss history."""
import itertools

import numpy as np
import torch
import zuko

from .env import KnownFlow, LazySinh, quiet
from .full import degenerate

PROPERTY = "C24"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of loss histories (a user flow answers every evaluation from a script; all sequences over an alphabet with ties, NaN and infinity), of all shufflings and of all data-set splits, against a reference automaton of the training loop"
LEVEL_NOTE = ("All loss sequences over {1, 2, 3, NaN or inf} up to length 6 (thorough: 8) x patience 1-5 x with/without validation; all permutations of 3-5 samples in every shuffling of the loaders; all "
              "split fractions on a grid; all weight patterns; noise on a lattice of point sets; regularisation on all flow types. Optimiser arithmetic itself is not modelled.")
RULE = "a case is one group of loss sequences, permutations or data sets; states are distinct (history, stop epoch, parameters) outcomes; transitions are training epochs"
ASSUMPTIONS = ["permutations come from torch.randperm and normal numbers from torch.randn_like/torch.randn (otherwise these sub-checks fall back to weaker relations)"]
CHUNK = 1

NAN = float("nan")
INF = float("inf")


class ScriptDist:
    def __init__(self, flow):
        self.flow = flow

    def log_prob(self, x):
        f = self.flow
        k = int(round(float(f.steps)))
        call = dict(x=x.detach().numpy().copy(), k=k, p=float(f.p.detach()), grad=None)
        v = f.answer(call)
        call["value"] = np.asarray(v, float)
        f.calls.append(call)
        out = torch.tensor(v, dtype=torch.float32) + (f.p - f.p.detach())      # value from the script, gradient one per row
        if out.requires_grad:
            def hook(g):
                call["grad"] = g.detach().numpy().copy()
                f.steps += 1
            out.register_hook(hook)
        return out


class ScriptFlow(zuko.flows.Flow):
    """A flow whose log-probability follows a script (indexed by the number of gradients taken so far)."""

    def __init__(self, dim, answer):
        base = zuko.lazy.UnconditionalDistribution(zuko.distributions.DiagNormal, torch.zeros(dim), torch.ones(dim), buffer=True)
        super().__init__(LazySinh(dim), base)
        for q in self.parameters():
            q.requires_grad_(False)
        self.p = torch.nn.Parameter(torch.zeros(()))
        self.calls = []
        self.steps = 0
        self.answer = answer

    def forward(self, c=None):
        return ScriptDist(self)


def cases(tier):
    L = 6 if tier == "quick" else 8
    for val, special in itertools.product((False, True), ("nan", "inf")):
        for first in itertools.product(range(4), repeat=2):
            yield dict(kind="loss", val=val, special=special, first=first, L=L if special == "nan" else L - 1)
    for n in (3, 4) if tier == "quick" else (3, 4, 5):
        for val, wt in itertools.product((0.0, 0.5), (False, True)):
            for b in (1, 2, 10):
                yield dict(kind="perm", n=n, split=val, weights=wt, batch=b)
    for n in (4, 5, 8, 10, 20):
        yield dict(kind="split", n=n)
    for d in (1, 2, 3):
        for k in range(6):
            yield dict(kind="noise", d=d, k=k)
    for name in ("maf3", "maf6", "nsf3", "nsf6", "user", "known") + (() if tier == "quick" else ("maf12", "nsf12")):
        for d in (1, 2, 3):
            yield dict(kind="reg", flow=name, d=d)
    for val, sh, an, ver in itertools.product((0.0, 0.5), (True, False), (True, False), (0, 1, 2)):
        yield dict(kind="real", split=val, shuffle=sh, annealing=an, verbose=ver)
    for pre in itertools.product(("tpcn", "rwm"), ("mult", "syst"), (1, 2)):
        yield dict(kind="run", sample=pre[0], resample=pre[1], seed=pre[2])


def run_case(case, rec):
    globals()["k_" + case["kind"]](case, rec)


def make(dim, answer):
    import pocomc.flow
    return pocomc.flow.Flow(dim, ScriptFlow(dim, answer))


def data(n, dim=2):
    """Every row identifies its index: first coordinate i, second i squared."""
    i = np.arange(n, dtype=float)
    return torch.tensor(np.stack([i, i * i * 0.5][:dim], 1), dtype=torch.float32)


# ------------------------------------------------------------------------------------------ loss histories
def automaton(m, patience, epochs):
    """(number of epochs, index of the best epoch, stopped early)"""
    best, at = INF, 0
    for e in range(epochs):
        if m[e] < best:
            best, at = m[e], e
        if e - at >= int(1.5 * patience):
            return e + 1, at, True, best < INF
    return epochs, at, False, best < INF


def k_loss(case, rec):
    sp = NAN if case["special"] == "nan" else INF
    alpha = (1.0, 2.0, 3.0, sp)
    L = case["L"]
    x = data(4)
    for tail in itertools.product(range(4), repeat=L - 2):
        seq = [alpha[k] for k in tuple(case["first"]) + tail]
        for patience in (1, 2, 3):
            # a stop before the end makes longer sequences repeat: only epochs = L, and shorter limits for the last step
            if not one_loss(case, rec, x, seq, patience, L):
                return
    for epochs in (1, 2, 3):
        for tail in itertools.product(range(4), repeat=max(0, epochs - 2)):
            seq = [alpha[k] for k in tuple(case["first"]) + tail][:epochs]
            for patience in (1, 2, 4):
                if not one_loss(case, rec, x, seq, patience, epochs):
                    return
    rec.sample = dict(sequence=[str(v) for v in seq], patience=patience)


def one_loss(case, rec, x, seq, patience, epochs):
    val = case["val"]

    def answer(call):
        # k gradients so far: training of epoch k, or validation after epoch k - 1
        k = call["k"]
        if not val:
            v = -seq[min(k, len(seq) - 1)]
        else:
            v = -seq[min(max(k - 1, 0), len(seq) - 1)]
        return [v] * len(call["x"])
    f = make(2, answer)
    kw = dict(validation_split=0.5 if val else 0.0, epochs=epochs, batch_size=100, patience=patience, learning_rate=0.1, annealing=False, shuffle=False, clip_grad_norm=1.0)
    h = f.fit(x, **kw)
    E, at, early, any_best = automaton(seq, patience, epochs)
    rec.trace()
    info = dict(losses=[str(v) for v in seq], patience=patience, epochs=epochs, validation=val)
    mon = h["val_loss"] if val else h["loss"]
    steps = f.flow.steps
    rec.step(steps)
    rec.state(val, patience, tuple(map(str, mon)))
    if len(h["loss"]) != E or len(mon) != E:
        rec.fail("%d loss entries (%d monitored), expected %d epochs" % (len(h["loss"]), len(mon), E), **info)
        return False
    if steps != E:
        rec.fail("%d epochs of training, expected %d" % (steps, E), **info)
        return False
    for a, b in zip(mon, seq):
        if not (a == b or (a != a and b != b)):
            rec.fail("the recorded losses are %s" % mon, **info)
            return False
    # parameters at the end of each epoch: the value seen by the first evaluation after it
    p_end = float(f.flow.p.detach())
    after = {}
    for c in f.flow.calls:
        after.setdefault(c["k"], c["p"])
    seen = {}       # number of gradients -> parameter (evaluations made after the optimiser step of that gradient)
    for c in f.flow.calls:
        seen[c["k"]] = c["p"]
    if early:
        want = seen.get(at + 1) if any_best else seen.get(0, 0.0)
        if at + 1 == E:
            want = p_end
        if not any_best:
            return True         # nothing ever improved: there is no best epoch to restore
        if want is None or abs(p_end - want) > 1e-7:
            rec.fail("training stopped early but the parameter is %g, the best epoch (%d) had %s" % (p_end, at, want), by_epoch=seen, **info)
            return False
    else:
        ok = [v for k, v in seen.items() if any_best and k == at + 1]
        best_is_last = at + 1 == E
        first_new = all(abs(p_end - v) > 1e-9 for v in seen.values()) if not val else abs(p_end - seen.get(E, NAN)) < 1e-9
        if not (first_new or best_is_last or any(abs(p_end - v) < 1e-9 for v in ok)):
            rec.fail("after all epochs the parameter is %g, neither that of the last epoch nor that of the best" % p_end, by_epoch=seen, **info)
            return False
    return True


# ------------------------------------------------------------------------------------------ shuffling
class Perms:
    """torch.randperm answers from a list of permutations (by size), cyclically."""

    def __init__(self, plan):
        self.plan = plan
        self.used = 0
        self.n = {}

    def __enter__(self):
        self.orig = torch.randperm

        def randperm(n, *a, **k):
            self.used += 1
            i = self.n.get(n, 0)
            self.n[n] = i + 1
            opts = self.plan.get(n)
            if not opts:
                return self.orig(n)
            return torch.tensor(opts[i % len(opts)], dtype=torch.int64)
        torch.randperm = randperm
        return self

    def __exit__(self, *a):
        torch.randperm = self.orig
        return False


def row_ids(x):
    return [int(round(v)) for v in np.asarray(x)[:, 0]]


def epoch_log(calls):
    """Split the calls into epochs: [(training calls, validation calls)]"""
    out = []
    state = None
    for c in calls:
        tr = c["grad"] is not None
        if tr and state != "train":
            out.append(([], []))
        state = "train" if tr else "valid"
        if not out:
            out.append(([], []))
        out[-1][0 if tr else 1].append(c)
    return out


def answer_rows(call):
    return [-(1.0 + 0.25 * i + 0.01 * call["k"]) for i in row_ids(call["x"])]


def check_epochs(rec, f, h, n, split, batch, w, epochs, info, ordered=None):
    calls = f.flow.calls
    if split > 0:
        ep = epoch_log(calls)
    else:
        tr = [c for c in calls]
        per = -(-n // batch)
        ep = [(tr[k:k + per], []) for k in range(0, len(tr), per)]
    if len(ep) != epochs or len(h["loss"]) != epochs:
        rec.fail("%d epochs, %d loss entries, expected %d" % (len(ep), len(h["loss"]), epochs), **info)
        return None
    sets = []
    for e, (tr, va) in enumerate(ep):
        ids = [i for c in tr for i in row_ids(c["x"])]
        vids = [i for c in va for i in row_ids(c["x"])]
        if any(c["grad"] is None for c in tr):
            rec.fail("a training batch is not used for a gradient", epoch=e, **info)
            return None
        if sorted(ids + vids) != list(range(n)):
            rec.fail("training %s and validation %s do not partition the data" % (sorted(ids), sorted(vids)), epoch=e, **info)
            return None
        sets.append((frozenset(ids), frozenset(vids)))
        for part, total in ((tr, len(ids)), (va, len(vids))):
            sizes = [len(c["x"]) for c in part]
            if total and (max(sizes) > batch or len(sizes) != -(-total // batch)):
                rec.fail("batches of sizes %s, batch size is %d" % (sizes, batch), epoch=e, **info)
                return None
        # every sample keeps its own weight: gradient of the loss by the row's log-probability
        for c in tr:
            r = row_ids(c["x"])
            g = c["grad"]
            want = np.ones(len(r)) if w is None else np.array([w[i] for i in r], float)
            if want.sum() > 0 and not np.allclose(g / g.sum(), want / want.sum(), rtol=1e-4, atol=1e-7):
                rec.fail("samples %s are trained with relative weights %s, theirs are %s" % (r, g / g.sum(), want / want.sum()), epoch=e, **info)
                return None
        for part, key in ((tr, "loss"), (va, "val_loss")):
            if not part:
                continue
            tot = 0.0
            for c in part:
                r = row_ids(c["x"])
                nl = -c["value"]
                if w is None:
                    tot += nl.sum()
                else:
                    ww = np.array([w[i] for i in r], float)
                    tot += 1000.0 * (nl * ww).sum() / ww.sum()
            tot /= sum(len(c["x"]) for c in part)
            if not np.isclose(h[key][e], tot, rtol=1e-4):
                rec.fail("%s of epoch %d is %g, the samples' own losses and weights give %g" % (key, e, h[key][e], tot), **info)
                return None
    if len(set(sets)) != 1:
        rec.fail("samples move between the training and the validation set", **info)
        return None
    return sets[0]


def k_perm(case, rec):
    n, split, batch = case["n"], case["split"], case["batch"]
    w = [1.0, 5.0, 0.5, 20.0, 3.0][:n] if case["weights"] else None
    x = data(n)
    for perm in itertools.permutations(range(n)):
        for j in range(3):
            plan = {n: [list(perm)] + [list(q) for q in itertools.islice(itertools.permutations(range(n)), j, None, 5)][:3]}
            for m in range(1, n):
                ps = list(itertools.permutations(range(m)))
                plan[m] = [list(ps[(j + k) % len(ps)]) for k in range(3)]
            f = make(2, answer_rows)
            wt = None if w is None else torch.tensor(w, dtype=torch.float32)
            keep, wkeep = x.clone(), None if wt is None else wt.clone()
            with Perms(plan) as P:
                h = f.fit(x, weights=wt, validation_split=split, epochs=2, batch_size=batch, patience=9, learning_rate=0.01, annealing=bool(j), shuffle=True)
            rec.trace()
            rec.step(2)
            info = dict(n=n, split=split, batch=batch, weights=w, permutation=perm)
            if not torch.equal(x, keep) or (wt is not None and not torch.equal(wt, wkeep)):
                return rec.fail("the input data are modified", **info)
            s = check_epochs(rec, f, h, n, split, batch, w, 2, info)
            if s is None:
                return
            rec.state(n, split, batch, tuple(sorted(s[0])), [row_ids(c["x"]) for c in f.flow.calls])
    rec.sample = dict(n=n, split=split, batch=batch, randperm_calls=P.used)


def k_split(case, rec):
    n = case["n"]
    x = data(n)
    for split in [0.0] + [k / 20 for k in range(1, 20)]:
        for shuffle, wt in itertools.product((False, True), (False, True)):
            nv = split * n
            if split and (nv < 1 or n - nv < 1):
                continue        # one of the two sets would be empty
            w = torch.tensor(1.0 + np.arange(n) % 4, dtype=torch.float32) if wt else None
            f = make(2, answer_rows)
            h = f.fit(x, weights=w, validation_split=split, epochs=2, batch_size=3, patience=9, learning_rate=0.01, shuffle=shuffle)
            rec.trace()
            rec.step(2)
            info = dict(n=n, split=split, shuffle=shuffle, weights=wt)
            s = check_epochs(rec, f, h, n, split, 3, None if w is None else list(w.numpy()), 2, info)
            if s is None:
                return
            if abs(len(s[1]) - split * n) >= 1 + 1e-9:
                return rec.fail("%d of %d samples are used for validation, the requested fraction is %g" % (len(s[1]), n, split), **info)
            if not shuffle:
                order = [i for c in epoch_log(f.flow.calls)[0][0] for i in row_ids(c["x"])] if split else [i for c in f.flow.calls[:-(-n // 3)] for i in row_ids(c["x"])]
                if order != sorted(order):
                    return rec.fail("shuffle=False but samples are visited in order %s" % order, **info)
            rec.state(n, split, shuffle, wt, len(s[0]))


# ------------------------------------------------------------------------------------------ noise
POINTS = {1: [[0, 1, 3, 7], [0, 0, 2, 5, 5, 9], [0, 10, 10.5, 30], [1, 1, 1, 4], [0, 1, 2, 3, 4, 5, 6, 7], [0, 100]],
          2: [[(0, 0), (1, 0), (0, 2), (5, 5)], [(0, 0), (0, 0), (3, 4), (6, 8)], [(0, 0), (10, 0), (10, 1)], [(0, 0), (1, 1)], [(i, (i * i) % 7) for i in range(9)], [(-3, 2), (8, 8), (8, 9), (-3, -3)]],
          3: [[(0, 0, 0), (1, 2, 2), (9, 9, 9)], [(0, 0, 0), (1, 0, 0), (0, 3, 0), (0, 0, 7)], [(0, 0, 0), (0, 0, 0), (2, 3, 6)], [(i, 2 * i % 5, i * i % 4) for i in range(7)],
              [(1, 1, 1), (1, 1, 3), (5, 1, 1)], [(0, 0, 0), (100, 0, 0), (0, 1, 0)]]}


class Ones:
    """Normal numbers from torch are all one."""

    def __enter__(self):
        self.used = 0
        self.orig = (torch.randn_like, torch.randn, torch.normal)

        def like(t, *a, **k):
            self.used += 1
            return torch.ones_like(t)

        def randn(*size, **k):
            self.used += 1
            k.pop("generator", None)
            return torch.ones(*size, **k)
        torch.randn_like, torch.randn = like, randn
        return self

    def __exit__(self, *a):
        torch.randn_like, torch.randn = self.orig[:2]
        return False


def k_noise(case, rec):
    pts = np.array(POINTS[case["d"]][case["k"]], float)
    if pts.ndim == 1:
        pts = pts[:, None]
    n, d = pts.shape
    D = np.sqrt(((pts[:, None] - pts[None]) ** 2).sum(-1))
    D[D == 0] = np.inf
    nn = D.min(1).mean()
    for noise, split, shuffle, scale in itertools.product((0.5, 0.1, 2.0, None), (0.0, 0.5), (False, True), (1.0, 8.0)):
        x = torch.tensor(pts * scale, dtype=torch.float32)
        keep = x.clone()
        f = make(d, lambda call: [-1.0] * len(call["x"]))
        with Ones() as one:
            f.fit(x, validation_split=split, epochs=2, batch_size=2 if n > 3 else 10, patience=5, noise=noise, shuffle=shuffle, learning_rate=0.01)
        rec.trace()
        rec.step(2)
        info = dict(points=pts, noise=noise, scale=scale, split=split, shuffle=shuffle)
        if not torch.equal(x, keep):
            return rec.fail("the input data are modified", **info)
        got = np.concatenate([c["x"] for c in f.flow.calls if c["grad"] is not None])
        shift = 0.0 if noise is None else noise * nn * scale
        rec.state(pts, noise, scale, split)
        if noise is not None and not one.used:
            # the noise does not come from randn: it must at least move the samples
            if np.allclose(np.sort(got, 0)[:len(keep)], np.sort(keep.numpy(), 0)[:len(got)]):
                return rec.fail("no noise is added", **info)
            continue
        back = got - shift
        dist = np.abs(back[:, None, :] - keep.numpy()[None]).max(-1).min(1)
        if dist.max() > 1e-3 * (1 + scale * np.abs(pts).max()) * max(1.0, noise or 0):
            return rec.fail("noise of %s times the mean nearest-neighbour distance %g: samples are moved to %s" % (noise, nn * scale, got[:4].tolist()), **info)


# ------------------------------------------------------------------------------------------ regularisation
def weights_of(flow):
    a = g = 0.0
    for m in flow.modules():
        if hasattr(m, "hyper"):
            for name, p in m.hyper.named_parameters():
                if name.endswith("weight"):
                    q = p.detach().double()
                    a += float(q.abs().sum())
                    g += float(q.square().sum())
    return a, g


def k_reg(case, rec):
    import pocomc.flow
    name, d = case["flow"], case["d"]

    def fresh():
        torch.manual_seed(4)
        if name == "user":
            return pocomc.flow.Flow(d, zuko.flows.MAF(d, transforms=2, hidden_features=(8,)))
        if name == "known":
            return pocomc.flow.Flow(d, KnownFlow(d))
        return pocomc.flow.Flow(d, name)
    i = np.arange(12)
    x = torch.tensor(np.stack([np.sin(1.1 * i + j) for j in range(d)], 1), dtype=torch.float32)
    w = torch.tensor(1.0 + i % 3, dtype=torch.float32)
    for wt, split in itertools.product((None, w), (0.0, 0.5)):
        kw = dict(weights=wt, validation_split=split, epochs=1, batch_size=100, shuffle=False, learning_rate=1e-9)
        f = fresh()
        a, g = weights_of(f.flow)
        h0 = f.fit(x, **kw)
        for lap, gau in itertools.product((None, 0.5, 2.0, 50.0), (None, 0.5, 3.0)):
            f = fresh()
            h = f.fit(x, laplace_scale=lap, gaussian_scale=gau, **kw)
            pen = (a / lap if lap else 0.0) + (g / (2 * gau * gau) if gau else 0.0)
            rec.trace()
            rec.step()
            for key in ("loss", "val_loss") if split else ("loss",):
                m = len(x) * (0.5 if split else 1.0)
                got = (h[key][0] - h0[key][0]) * m
                base = abs(h0[key][0]) * m
                if abs(got - pen) > 1e-3 * pen + 1e-5 * (base + pen) + 1e-4:
                    return rec.fail("laplace_scale=%s gaussian_scale=%s change the %s by %g, the penalty of the weights is %g" % (lap, gau, key, got, pen), flow=name, dim=d)
            rec.state(name, d, lap, gau, round(pen, 6))
    # the penalty acts on the parameters
    if a > 0:
        res = {}
        for lap in (None, 0.01):
            f = fresh()
            f.fit(x, laplace_scale=lap, epochs=5, batch_size=100, shuffle=False, learning_rate=1e-2, annealing=False, patience=50)
            res[lap] = weights_of(f.flow)[0]
        if not res[0.01] < res[None]:
            return rec.fail("a strong penalty does not shrink the weights (%g with, %g without)" % (res[0.01], res[None]), flow=name, dim=d)


# ------------------------------------------------------------------------------------------ real flows
def k_real(case, rec):
    """Real flows: one entry per epoch, parameters of the best epoch after an early stop, inputs untouched."""
    import pocomc.flow
    for name, seed, lr, patience in itertools.product(("maf3", "nsf3", "known"), (0, 1), (1e-3, 0.5), (1, 2)):
        torch.manual_seed(seed)
        f = pocomc.flow.Flow(2, KnownFlow(2) if name == "known" else name)
        i = np.arange(16)
        x = torch.tensor(np.stack([np.sin(1.7 * i), np.cos(2.9 * i) * 2], 1), dtype=torch.float64)
        w = torch.tensor(1.0 + i % 4, dtype=torch.float32)
        keep, wk = x.clone(), w.clone()
        with quiet():
            h = f.fit(x, weights=w, validation_split=case["split"], epochs=12, batch_size=5, patience=patience, learning_rate=lr, annealing=case["annealing"], shuffle=case["shuffle"],
                      verbose=case["verbose"])
        rec.trace()
        rec.step(len(h["loss"]))
        info = dict(flow=name, seed=seed, lr=lr, patience=patience, **case)
        if not torch.equal(x, keep) or not torch.equal(w, wk):
            return rec.fail("the input data are modified", **info)
        mon = h["val_loss"] if case["split"] else h["loss"]
        E, at, early, anyb = automaton(list(mon) + [NAN] * 12, patience, 12)
        rec.state(name, seed, lr, patience, case["split"], len(mon))
        if len(h["loss"]) != E or len(mon) != E:
            return rec.fail("%d epochs, expected %d for losses %s" % (len(h["loss"]), E, mon), **info)
        if early and anyb and case["split"] and not case["shuffle"]:
            with torch.no_grad():
                xv, wv = x[8:].float(), w[8:]
                lp = -f.log_prob(xv) * 1000.0
                tot = sum(float((lp[k:k + 5] * wv[k:k + 5]).sum() / wv[k:k + 5].sum()) for k in (0, 5)) / 8
            if abs(tot - mon[at]) > 1e-3 * (1 + abs(mon[at])):
                return rec.fail("after an early stop the parameters have validation loss %g, the best epoch had %g" % (tot, mon[at]), losses=mon, **info)


# ------------------------------------------------------------------------------------------ training inside a run
def k_run(case, rec):
    from .c19 import build, go
    from .ref import balance
    import pocomc.flow
    F = pocomc.flow.Flow
    orig = F.fit
    seen = []
    with quiet():
        s = build(sharp=6.0, precondition=True, sample=case["sample"], resample=case["resample"], random_state=case["seed"], n_effective=16, n_active=8)

        def fit(self, x, weights=None, **k):
            seen.append((len(s.particles.get("beta")), x.detach().numpy().copy(), None if weights is None else weights.detach().numpy().copy()))
            return orig(self, x, weights=weights, **k)
        F.fit = fit
        try:
            res = go(s, n_total=16)
        except Exception as e:  # noqa: BLE001
            if degenerate(e):
                return rec.state("degenerate")
            raise
        finally:
            F.fit = orig
    rec.trace()
    if not seen:
        return rec.fail("the flow is never trained")
    for t, x, w in seen:
        rec.step()
        u = np.asarray(res["u"])[:t].reshape(-1, 2)
        logw, _ = balance(np.asarray(res["logl"])[:t], np.asarray(res["beta"])[:t], np.asarray(res["logz"])[:t], float(res["beta"][t]))
        iw = np.exp(logw - logw.max())
        key = {}
        for r, v in zip(u.astype(np.float32), iw):
            key.setdefault(r.tobytes(), []).append(float(v))
        if w is None:
            return rec.fail("the flow is trained without the importance weights")
        want = []
        for r in x:
            k = np.asarray(r, np.float32).tobytes()
            if k not in key:
                return rec.fail("the flow is trained on a point that is not in the history", point=r)
            want.append(key[k][0])
        want = np.array(want)
        if not np.allclose(w / w.sum(), want / want.sum(), rtol=1e-3, atol=1e-6):
            return rec.fail("iteration %d: training samples do not carry their own importance weights" % t)
        rec.state(t, x, w)
