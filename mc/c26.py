"""C26: an interrupted run leaves a sampler that holds the completed iterations and can go on."""
import os

import numpy as np

from . import c01, c04, c05, full
from .c11 import Audit, rng_get, rng_set
from .core import digest
from .env import BLOB_DTYPE, KnownFlow, Like, Log, ToyPrior, quiet, scratch

PROPERTY = "C26"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive fault enumeration on the real code: an exception or keyboard interrupt is raised at every single call of a user function (likelihood, prior, flow, pool) of a run, which is then continued, saved and resumed"
LEVEL_NOTE = ("Every call of every user function in every run of the configuration product is one fault point (thorough: every pair for small runs); the continued run must equal the uninterrupted one bit by bit on the same "
              "random stream (flow not changed by training) or satisfy the history, evidence and ladder oracles of C01, C04 and C05. Interrupts between two user calls are not injected.")
RULE = "a case is one (configuration, kind of exception, way to go on); every fault point is one execution; states are distinct (configuration, fault point, history left behind)"
ASSUMPTIONS = ["user functions are pure apart from the injected exception", "the continued run is given the random stream position of the start of the interrupted iteration"]
CPU_LIMIT = 900


class Boom(Exception):
    pass


TYPES = {e.__name__: e for e in (ZeroDivisionError, FloatingPointError, OverflowError, ArithmeticError, ValueError, TypeError, IndexError, KeyError, LookupError, AttributeError, NameError, AssertionError, RuntimeError,
                                 RecursionError, NotImplementedError, StopIteration, GeneratorExit, MemoryError, BufferError, OSError, FileNotFoundError, TimeoutError, BrokenPipeError, EOFError, ImportError, SystemExit,
                                 UnicodeError, UserWarning, Exception, BaseException, np.linalg.LinAlgError)}


class Fault:
    """Numbers the calls of user functions; raises at the chosen one."""
    n = 0
    at = ()
    exc = Boom
    names = []
    mark = None

    @classmethod
    def reset(cls, at=(), exc=Boom):
        cls.n, cls.at, cls.exc, cls.names = 0, tuple(at), exc, []

    @classmethod
    def point(cls, name):
        cls.n += 1
        cls.names.append(name)
        if cls.n in cls.at:
            raise cls.exc("fault %d in %s" % (cls.n, name))


class FLike(Like):
    def __call__(self, x, *a, **k):
        Fault.point("likelihood")
        return Like.__call__(self, x, *a, **k)


class FPrior(ToyPrior):
    def logpdf(self, x):
        Fault.point("prior")
        return ToyPrior.logpdf(self, x)

    def rvs(self, size=1):
        Fault.point("draws")
        x = ToyPrior.rvs(self, size)
        Fault.mark = rng_get()
        return x


class FFlow(KnownFlow):
    def forward(self, c=None):
        Fault.point("flow")
        return KnownFlow.forward(self, c)


class FPool:
    def map(self, f, xs):
        Fault.point("pool")
        return [f(x) for x in xs]


class Marks(dict):
    """The random stream when a checkpoint is opened for writing, i.e. at the start of an iteration."""

    def __setitem__(self, k, v):
        Fault.mark = v


def build(cfg, d, seed=None):
    import pocomc
    dim = len(cfg["kinds"])
    prior = FPrior(cfg["kinds"], cfg.get("hole"))
    like = FLike(dim, cfg.get("region"), cfg.get("vec", False), cfg.get("blob"), cfg.get("sharp", 3.0), Log())
    pre = cfg.get("precondition", False)
    tc = dict(epochs=1, learning_rate=0.0) if cfg.get("frozen", True) else dict(epochs=2)
    kw = dict(n_effective=cfg["n_effective"], n_active=cfg["n_active"], vectorize=cfg.get("vec", False), precondition=pre, sample=cfg.get("sample", "tpcn"),
              resample=cfg.get("resample", "mult"), metric=cfg.get("metric", "ess"), dynamic=cfg.get("dynamic", True), n_steps=1, n_max_steps=cfg.get("n_max_steps", 2),
              random_state=cfg["seed"] if seed is None else seed, train_config=tc, blobs_dtype=BLOB_DTYPE.get(cfg.get("blob")) if cfg.get("blob") else None,
              pool=FPool() if cfg.get("pool") else None, output_dir=d, flow=FFlow(dim))
    for k in ("train_frequency", "n_prior"):
        if k in cfg:
            kw[k] = cfg[k]
    s = pocomc.Sampler(prior, like, **kw)
    return s, prior, like


KEYS = tuple(k for k in full.FIELDS if k != "calls") + ("iter",)


def history(s):
    """One tuple of digests per completed iteration (values as floats, whatever the container type)."""
    try:
        T = len(s.particles.get("iter"))
    except Exception:  # noqa: BLE001
        return []
    if not T:
        return []
    r = s.results
    out = []
    for t in range(T):
        row = [digest(np.asarray(r[k][t], dtype=float)) for k in KEYS]
        if s.have_blobs:
            row.append(digest([str(v) for v in np.asarray(r["blobs"][t]).reshape(-1)]))
        out.append(tuple(row))
    return out


def differing(a, b):
    return sorted({(KEYS + ("blobs",))[i] for x, y in zip(a, b) for i in range(len(x)) if x[i] != y[i]} | ({"length"} if len(a) != len(b) else set()))


def kwargs(cfg, every=1):
    return dict(n_total=cfg["n_total"], n_evidence=cfg.get("n_evidence", 0), progress=False, save_every=every)


def cases(tier):
    base = dict(n_active=4, n_effective=8, n_total=8, kinds="UN")
    cfgs = []
    for pre in (False, True):
        for sample in ("tpcn", "rwm"):
            k = len(cfgs)
            cfgs.append(dict(base, precondition=pre, sample=sample, vec=True, region="ninf", seed=3 + k, resample="syst" if k % 2 else "mult", n_evidence=4 if pre else 0, sharp=6.0))
            cfgs.append(dict(base, precondition=pre, sample=sample, blob="pair", hole="corner", seed=5 + k, dynamic=True, metric="uss" if k % 2 else "ess"))
    cfgs.append(dict(base, precondition=True, vec=True, seed=4, train_frequency=3, n_total=24))
    cfgs.append(dict(base, precondition=True, vec=True, seed=4, train_frequency=2, frozen=False, n_evidence=4, n_total=16))
    cfgs.append(dict(base, precondition=True, vec=True, seed=8, sample="rwm", frozen=False, n_total=16))
    cfgs.append(dict(base, vec=True, seed=2, n_active=5, n_effective=17, n_total=40, sharp=20.0))
    cfgs.append(dict(base, vec=True, seed=2, n_active=6, n_effective=12, n_total=30, sharp=300.0, metric="uss"))
    cfgs.append(dict(base, seed=6, pool=True, region="nan"))
    cfgs.append(dict(base, kinds="U", seed=7, blob="str"))
    cfgs.append(dict(base, vec=True, seed=7, dynamic=False, n_prior=24, n_total=30))
    for i, cfg in enumerate(cfgs):
        for exc in ("error", "interrupt"):
            for way in ("continue", "save"):
                if tier == "quick" and (i + (exc == "error") + (way == "save")) % 2:
                    continue
                for sh in range(3):
                    yield dict(cfg=cfg, exc=exc, way=way, shard=[sh, 3])
        for exc in sorted(TYPES):
            if tier != "quick" or i < 2 or cfg.get("pool"):
                yield dict(cfg=cfg, exc=exc, way="types")
        if cfg.get("vec") and cfg["n_total"] < 20 and (tier != "quick" or i == 0):
            nsh = 4 if tier == "quick" else 24
            for sh in range(nsh):
                yield dict(cfg=cfg, exc="error", way="twice", shard=[sh, nsh], stride=7 if tier == "quick" else 1)


def run_case(case, rec):
    Audit.install()
    Audit.on = Marks()
    try:
        with scratch() as d, quiet():
            explore(case, rec, d)
    finally:
        Audit.on = None


def explore(case, rec, d):
    cfg = case["cfg"]
    exc = Boom if case["exc"] == "error" else KeyboardInterrupt if case["exc"] == "interrupt" else None
    ref, _, rl = build(cfg, os.path.join(d, "r"))
    Fault.reset()
    ref.run(**kwargs(cfg, None))
    N, names = Fault.n, list(Fault.names)
    want = history(ref)
    want_rows = len(rl.log.like_rows)
    want_z = ref.evidence()
    ref_calls = np.asarray(ref.results["calls"], float)
    if case["way"] == "types":
        return types(case, rec, d, cfg, names)
    sh, m = case["shard"]
    for k in range(1, N + 1):
        if (k - 1) % m != sh:
            continue
        for second in (range(1, N + 1, case.get("stride", 1)) if case["way"] == "twice" else (None,)):
            one(case, rec, d, cfg, exc, k, second, names, want, want_rows, want_z, ref_calls)
            if rec.failed:
                return
    rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, fault_points=N, iterations=len(want))


def types(case, rec, d, cfg, names):
    """every kind of exception, at the first, second, middle and last call of every user function in every stage"""
    exc = TYPES[case["exc"]]
    points = set()
    for name in sorted(set(names)):
        ks = [k for k, n in enumerate(names, 1) if n == name]
        points.update(ks[i] for i in (0, 1, 2, len(ks) // 3, len(ks) // 2, len(ks) // 2 + 1, len(ks) - 2, len(ks) - 1) if 0 <= i < len(ks))
    for k in sorted(points):
        where = "%s call %d of %d" % (names[k - 1], k, len(names))
        s, prior, like = build(cfg, os.path.join(d, "y"))
        Fault.reset([k], exc)
        got = None
        try:
            s.run(**kwargs(cfg, None))
        except BaseException as e:  # noqa: BLE001
            got = e
        rec.trace()
        rec.step()
        rec.state(case["exc"], k, digest(cfg))
        if type(got) is not exc or "fault %d " % k not in str(got):
            return rec.fail("the exception of the user function does not reach the caller", raised=exc.__name__, got=repr(got)[:200], fault=where, config={a: b for a, b in cfg.items() if b is not None})
    rec.sample = dict(exception=exc.__name__, points=len(points))


def one(case, rec, d, cfg, exc, k, second, names, want, want_rows, want_z, ref_calls):
    where = "%s call %d of %d" % (names[k - 1], k, len(names))
    info = dict(fault=where, exception=exc.__name__, way=case["way"], config={a: b for a, b in cfg.items() if b is not None})
    bitwise = not cfg.get("precondition") or cfg.get("frozen", True)
    s, prior, like = build(cfg, os.path.join(d, "s"))
    Fault.mark = rng_get()
    faults = [k] if second is None else [k, second]
    for j, at in enumerate(faults):
        Fault.reset([at], exc)
        try:
            s.run(**kwargs(cfg))
            if j == 0:
                return rec.fail("harness: fault point %d not reached again" % at, **info)
            break
        except exc as e:
            if not str(e).startswith("fault"):
                return rec.fail("the exception raised by the user function does not reach the caller unchanged", got=repr(e), **info)
        except BaseException as e:  # noqa: BLE001
            return rec.fail("another exception than that of the user function reaches the caller", got=repr(e)[:200], **info)
        got = history(s)
        rec.state(digest(cfg), k, second, got[-1] if got else None)
        # what is left behind are completed iterations (in warm-up the common normalisation is still to come)
        if bitwise:
            iz = KEYS.index("logz")
            cut = [tuple(v for i, v in enumerate(r) if i != iz) for r in got]
            cutw = [tuple(v for i, v in enumerate(r) if i != iz) for r in want[:len(got)]]
            if cut != cutw:
                return rec.fail("the history left behind by an interrupted run is not that of the completed iterations", differs=differing(got, want[:len(got)]), iterations=len(got), **info)
        if case["way"] == "save":
            p = os.path.join(d, "left.state")
            mark = Fault.mark
            s.save_state(p)
            Fault.reset()
            s, prior, _ = build(cfg, os.path.join(d, "t"), seed=cfg["seed"] + 100)
            rng_set(mark)
            kw = dict(resume_state_path=p)
        else:
            rng_set(Fault.mark)
            kw = {}
    Fault.reset()
    try:
        s.run(**dict(kwargs(cfg, None), **kw))
    except Exception as e:  # noqa: BLE001
        return rec.fail("a run that was interrupted cannot be continued", error=repr(e)[:300], **info)
    rec.trace()
    got = history(s)
    rec.step(len(got))
    if bitwise and got != want:
        return rec.fail("a run that was interrupted and continued differs from the uninterrupted run", differs=differing(got, want), iterations=[len(got), len(want)], **info)
    r = s.results
    z = s.evidence()
    if not np.isfinite(float(z[0])) or (z[1] is None) != (want_z[1] is None):
        return rec.fail("evidence after an interrupted and continued run is missing", got=repr(z), **info)
    if want_z[1] is None and bitwise and float(z[0]) != float(want_z[0]):
        return rec.fail("evidence after an interrupted and continued run differs", got=z[0], expected=want_z[0], **info)
    calls = np.asarray(r["calls"], float)
    if np.any(np.diff(calls) < 0) or s.calls < calls[-1]:
        return rec.fail("the call counter decreases", counters=calls, **info)
    # evaluations of interrupted iterations may or may not be counted, all others must be
    if bitwise and np.any(calls < ref_calls):
        return rec.fail("evaluations of completed iterations are missing in the call counter", counters=calls, expected=ref_calls, **info)
    if case["way"] != "save" and s.calls > len(like.log.like_rows) + cfg["n_active"] * len(faults):
        return rec.fail("more evaluations are counted than made", got=s.calls, made=len(like.log.like_rows), **info)
    if not bitwise:
        done = full.Done()
        done.cfg, done.s, done.res, done.T, done.snaps = dict(cfg, metric=cfg.get("metric", "ess")), s, r, len(r["iter"]), None
        done.prior, done.like = prior, like
        n0 = len(rec.fails)
        for f in (lambda: c01.check(done, rec, {}), lambda: c04.audit_run(done, rec), lambda: c05.check(done, rec, {})):
            f()
            if len(rec.fails) > n0:
                rec.fails[-1]["detail"].update(info)
                return
