"""C21: blobs returned by the likelihood are stored and returned faithfully."""
import itertools

import numpy as np

from . import full
from .env import Like, Log, make_sampler, quiet, scratch

PROPERTY = "C21"
LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of complete runs for every kind of blob: all option combinations, every single extreme random answer, all support patterns of the mutation batches; oracle recomputes the blob at every stored position"
LEVEL_NOTE = ("28 kinds of blobs (numbers, often equal values, infinities and NaN, None, several values, arrays, matrices, strings, bytes, dictionaries, structured, declared and inferred types) x 4 kernels x zero-likelihood regions x prior holes "
              "x execution mode, including saving, resuming at every checkpoint and posterior(); deviation-bounded exploration for selected configurations.")
RULE = "a case is one configuration (kind, kernel, region, hole, pool) run to the end, or explored from the default random stream; states are distinct histories"
ASSUMPTIONS = ["user functions are pure", "the blob has the same type and shape at every point (see known_findings.json for blobs that are integers at some points and floats at others)"]
CPU_LIMIT = 600

KINDS = {   # kind -> (blobs_dtype, function of the point giving the tuple after the log-likelihood)
    "float": (None, lambda x: (float(2 * x[0] + x[-1]),)),
    "int": (None, lambda x: (int(np.floor(7 * x[0])),)),
    "bool": (None, lambda x: (bool(x[0] > 0.4),)),
    "complex": (None, lambda x: (complex(x[0], x[-1]),)),
    "pair": (None, lambda x: (float(3 * x[0]), float(x[-1] - 7))),
    "mix": (None, lambda x: (float(3 * x[0]), int(np.floor(5 * x[-1])), True)),
    "vec": (None, lambda x: (np.array([x[0] + 1, 2 * x[-1], 3 * x[0]]),)),
    "vec1": (None, lambda x: (np.array([x[0] - 1]),)),
    "mat": (None, lambda x: (np.array([[x[0], 1.0], [x[-1], 2 * x[0]]]),)),
    "str": (None, lambda x: ("p%s" % ("q" * int(1 + abs(int(9 * x[0])))) + repr(float(x[0])),)),
    "strs": (None, lambda x: ("a" + repr(float(x[0])), "b" + "z" * int(abs(int(20 * x[-1])) % 9))),
    "strnum": (None, lambda x: ("a" + repr(float(x[0])), float(x[-1]))),
    "bytes": (None, lambda x: (repr(float(x[0])).encode(),)),
    "dict": (None, lambda x: ({"v": float(x[0])},)),
    "struct": ([("a", float), ("n", int)], lambda x: (float(x[0] + 0.5), int(np.floor(4 * x[-1])))),
    "struct1": ([("a", float)], lambda x: (float(x[0] + 0.5),)),
    "structvec": ([("v", float, (3,)), ("name", "U40")], lambda x: (np.array([x[0], x[-1], 1.0]), repr(float(x[0])))),
    "f32": (np.float32, lambda x: (float(x[0] + 0.3),)),
    "twin": (None, lambda x: (float(x[0] > 0.5), float(x[0] > 0.5))),
    "zero": (None, lambda x: (0.0,)),
    "special": (None, lambda x: (np.inf if x[0] > 0.5 else -0.0, np.nan if x[-1] > 0.3 else float(x[-1]))),
    "flatvec": (None, lambda x: (np.array([1.0, 1.0, 1.0]) * float(x[0] > 0.5),)),
    "big": (None, lambda x: (np.arange(40.0).reshape(4, 2, 5) * float(x[0]) + 1e6 * float(x[-1]),)),
    "huge": (None, lambda x: (float(x[0]) * 1e300, float(x[-1]) * 1e-300)),
    "longint": (None, lambda x: (int(2 ** 53 + 1 + int(1000 * abs(x[0]))),)),
    "text0": (None, lambda x: ("" if x[0] > 0.5 else "no",)),
    "none": (None, lambda x: (None,)),
    "object": (object, lambda x: ("s" + repr(float(x[0])), float(x[-1]))),
}


class BlobLike(Like):
    kind = None
    aslist = False

    def blob_of(self, x):
        return KINDS[self.kind][1](np.asarray(x, float))

    def __call__(self, x, *a, **k):
        if self.hook is not None:
            self.hook()
        if self.log is not None:
            self.log.like_calls += 1
            self.log.like_rows.append(np.array(x, copy=True))
        out = (self.pure1(x),) + tuple(self.blob_of(x))
        return list(out) if self.aslist else out


def build(cfg, log=None, **over):
    import pocomc
    made = {}
    dt = KINDS[cfg["bk"]][0]

    def cls(p, l, **kw):
        ll = BlobLike(l.dim, l.region, False, None, l.sharp, log, l.offset)
        ll.kind, ll.aslist = cfg["bk"], cfg.get("aslist", False)
        ll.blob = cfg["bk"]
        made["p"], made["l"] = p, ll
        kw["blobs_dtype"] = dt
        pure = p.logpdf
        p.hook = None
        p.logpdf = lambda x: pure(x) if p.hook is None else p.hook(np.asarray(x), np.array(pure(x), float))
        if cfg.get("pool"):
            from .c14 import OrderPool
            kw["pool"] = OrderPool((2, 0, 1, 3))
        return pocomc.Sampler(p, ll, **kw)
    s, _, _ = make_sampler({k: v for k, v in cfg.items() if k != "pool"}, cls=cls, **over)
    return s, made["p"], made["l"]


def same(kind, stored, want):
    """stored: one element of the history; want: the tuple the likelihood returned"""
    dt = KINDS[kind][0]
    if isinstance(dt, list):
        a = np.asarray(stored).reshape(-1)
        if len(a) != 1 or a.dtype.names != tuple(f[0] for f in dt):
            return False
        for f, v in zip(dt, want):
            got = a[0][f[0]]
            if isinstance(v, np.ndarray):
                if not np.array_equal(got, v):
                    return False
            elif got != v:
                return False
        return True
    if kind == "f32":
        a = np.asarray(stored).reshape(-1)
        return len(a) == 1 and a.dtype == np.float32 and a[0] == np.float32(want[0])
    flat = np.asarray(stored, dtype=object).reshape(-1) if not isinstance(stored, (dict, str, bytes)) else [stored]
    exp = []
    for v in want:
        exp.extend(list(np.asarray(v).reshape(-1)) if isinstance(v, np.ndarray) else [v])
    if len(flat) != len(exp):
        return False
    for g, e in zip(flat, exp):
        if isinstance(e, (str, bytes, dict)):
            if type(g) not in (type(e), np.str_, np.bytes_) or g != e:
                return False
        elif not (g == e or (g != g and e != e)):
            return False
    if kind in ("vec", "mat", "flatvec", "big") and np.shape(stored) != np.shape(want[0]):
        return False
    return True


def cases(tier):
    q = tier == "quick"
    for bk in KINDS:
        for pre, sample in itertools.product((False, True), ("tpcn", "rwm")):
            for region, hole, res in itertools.product((None, "ninf", "nan"), (None, "corner"), ("mult", "syst")):
                cfg = dict(bk=bk, precondition=pre, sample=sample, region=region, hole=hole, resample=res, kinds="UN", seed=3, n_active=4, n_effective=8, n_total=8, n_max_steps=3,
                           n_evidence=3 if res == "mult" else 0)
                if q and bk not in ("pair", "str", "vec", "struct") and (res == "syst") != (hole is None):
                    continue
                yield dict(kind="run", cfg=cfg)
            yield dict(kind="run", cfg=dict(bk=bk, precondition=pre, sample=sample, kinds="E", seed=5, n_active=4, n_effective=8, n_total=8, region="ninf", aslist=not isinstance(KINDS[bk][0], list), pool=True))
        yield dict(kind="resume", cfg=dict(bk=bk, kinds="UN", seed=3, n_active=4, n_effective=8, n_total=8, region="ninf", hole="corner", n_max_steps=2, precondition=bk in ("str", "vec")))
    for bk in ("pair", "str", "structvec") if q else KINDS:
        for pre, sample in itertools.product((False, True), ("tpcn", "rwm")):
            cfg = dict(bk=bk, precondition=pre, sample=sample, region="ninf", hole="corner", kinds="UN", seed=6, n_active=4, n_effective=8, n_total=5, n_max_steps=2, n_steps=1)
            for sh in range(2):
                yield dict(kind="explore", cfg=cfg, shard=[sh, 2], bound=1 if q else 2, only=["norm", "unif"] if q else ["norm"])
    for bk in ("vec", "str", "structvec", "pair", "int") if q else KINDS:
        for pre, sample in itertools.product((False, True), ("tpcn", "rwm")):
            for at in (0, 1) if q else (0, 1, 2, 3):
                yield dict(kind="support", at=at, cfg=dict(bk=bk, precondition=pre, sample=sample, kinds="UN", seed=7, n_active=4, n_effective=8, n_total=5, n_max_steps=2, n_steps=3))
    yield dict(kind="mixed", seed=3)


def check_history(s, like, kind, rec, **info):
    r = s.results
    x, b = np.asarray(r["x"]), r["blobs"]
    if b is None or len(b) != len(x):
        rec.fail("blobs are missing from the history", **info)
        return False
    for t in range(len(x)):
        if len(b[t]) != len(x[t]):
            rec.fail("iteration %d has %d blobs for %d particles" % (t, len(b[t]), len(x[t])), **info)
            return False
        for k in range(len(x[t])):
            if not same(kind, b[t][k], like.blob_of(x[t][k])):
                rec.fail("stored blob is not the one returned at the stored position", iteration=t, particle=k, kind=kind, x=x[t][k], stored=repr(b[t][k]),
                         expected=repr(like.blob_of(x[t][k])), **info)
                return False
            rec.step()
    for resample, trim in itertools.product((False, True), (False, True)):
        state = np.random.get_state()
        out = s.posterior(resample=resample, return_blobs=True, trim_importance_weights=trim, bins_trim=8)
        np.random.set_state(state)
        for row in range(len(out[0])):
            if not same(kind, out[-1][row], like.blob_of(out[0][row])):
                rec.fail("posterior() returns another blob than the one returned at the position", kind=kind, resample=resample, trim=trim, x=out[0][row], blob=repr(out[-1][row]),
                         expected=repr(like.blob_of(out[0][row])), **info)
                return False
    return True


def go(cfg, devs=None, **kw):
    from .rng import Poison, RngTap
    with quiet(), Poison():
        s, prior, like = build(cfg)
        tap = RngTap(devs)
        with tap:
            s.run(n_total=cfg["n_total"], n_evidence=cfg.get("n_evidence", 0), progress=False, **kw)
    return s, prior, like, tap


def run_case(case, rec):
    globals()["k_" + case["kind"]](case, rec)


def usable(cfg):
    from .c03 import batches_ok
    return not cfg.get("region") or batches_ok({k: v for k, v in cfg.items() if k != "bk"})


def k_run(case, rec):
    cfg = case["cfg"]
    if not usable(cfg):
        rec.state("skipped")
        return
    s, prior, like, tap = go(cfg)
    rec.trace()
    rec.state(s.results["x"], cfg["bk"])
    check_history(s, like, cfg["bk"], rec, config={k: v for k, v in cfg.items() if v is not None})
    if not cfg.get("pool") and not rec.failed:           # blobs change nothing else
        from .rng import Poison, RngTap
        with quiet(), Poison():
            s2, _, _ = make_sampler({k: v for k, v in cfg.items() if k not in ("bk", "aslist", "pool")})
            with RngTap(None):
                s2.run(n_total=cfg["n_total"], n_evidence=cfg.get("n_evidence", 0), progress=False)
        rec.trace()
        for k, v in s2.results.items():
            if k != "blobs" and not np.array_equal(np.asarray(v), np.asarray(s.results[k]), equal_nan=True):
                rec.fail("the run with blobs differs from the run without them", field=k, config={k: v for k, v in cfg.items() if v is not None})
        if not np.array_equal(s2.evidence()[0] or 0, s.evidence()[0] or 0):
            rec.fail("the evidence with blobs differs from the one without them", config={k: v for k, v in cfg.items() if v is not None})
    rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, blob=repr(s.results["blobs"][-1][0]))


def k_explore(case, rec):
    from .rng import ALPHABET, explore
    cfg = case["cfg"]
    if not usable(cfg):
        rec.state("skipped")
        return

    def run(devs):
        if rec.failed:
            return None
        try:
            s, prior, like, tap = go(cfg, devs)
        except (np.linalg.LinAlgError, ValueError) as e:
            if not devs or not full.degenerate(e):
                raise
            rec.state("degenerate ensemble")
            return []
        rec.trace()
        rec.state(s.results["x"], cfg["bk"])
        check_history(s, like, cfg["bk"], rec, deviations=[[list(k), v] for k, v in devs.items()])
        return tap.points
    explore(run, case["bound"], ALPHABET, case["only"], None, None, tuple(case["shard"]))


def k_support(case, rec):
    """all patterns of proposals inside / outside of the support in one mutation batch"""
    cfg = case["cfg"]
    for pat in itertools.product((False, True), repeat=cfg["n_active"]):
        with quiet():
            log = Log()
            s, prior, like = build(cfg, log)
            calls = [0]

            def hook(x, lp):
                if len(log.like_rows) >= 2 * cfg["n_effective"] and len(lp) == len(pat):      # after the warm-up
                    if calls[0] == case["at"]:
                        lp[np.array(pat)] = -np.inf
                    calls[0] += 1
                return lp
            prior.hook = hook
            s.run(n_total=cfg["n_total"], n_evidence=0, progress=False)
        rec.trace()
        rec.state(pat, s.results["x"])
        if not check_history(s, like, cfg["bk"], rec, outside=pat, batch=case["at"]):
            return


def k_resume(case, rec):
    """every checkpoint, resumed: blobs stay with their particles"""
    import os
    cfg = case["cfg"]
    if not usable(cfg):
        cfg = dict(cfg, region=None)
    with scratch() as d:
        with quiet():
            s, prior, like = build(cfg, output_dir=d)
            s.run(n_total=cfg["n_total"], n_evidence=0, progress=False, save_every=1)
        names = sorted(os.listdir(d))
        ref = s.results
        for n in names:
            with quiet():
                s2, _, like2 = build(cfg, output_dir=d)
                s2.run(n_total=cfg["n_total"] + 4, n_evidence=0, progress=False, resume_state_path=os.path.join(d, n))
            rec.trace()
            if not check_history(s2, like2, cfg["bk"], rec, checkpoint=n):
                return
            rec.state(s2.results["x"], n)
    rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, checkpoints=names)


def k_mixed(case, rec):
    """integers at some points, floats at others, type not declared"""
    KINDS["mixed"] = (None, lambda x: (0 if x[0] < 0.6 else 1.5,))
    bad = {}
    for seed in (3, 4, 5):
        s, prior, like, _ = go(dict(bk="mixed", kinds="UN", seed=seed, n_active=4, n_effective=8, n_total=8))
        rec.trace()
        r = s.results
        for t in range(len(r["x"])):
            for k in range(len(r["x"][t])):
                want, got = like.blob_of(r["x"][t][k])[0], r["blobs"][t][k]
                if got != want:
                    bad[(want, float(got))] = bad.get((want, float(got)), 0) + 1
        rec.state(r["x"], "mixed")
    for (want, got), n in bad.items():
        if want == 1.5 and got == 1.0:
            rec.finding("mixed int/float blob 1.5 stored as 1", "a blob of 1.5 is stored as 1 when the first blob of the batch is an integer", count=n)
        else:
            rec.fail("a blob of %r is stored as %r" % (want, got), count=n)
