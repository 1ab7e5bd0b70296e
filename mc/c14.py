"""C14: results do not depend on how the likelihood is executed."""
import itertools
import sys
import threading

import numpy as np

from . import core
from .c11 import diff, outcome
from .env import Like, ToyPrior, make_sampler, quiet

PROPERTY = "C14"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of pool schedules on the real code: every completion order, every interleaving of two worker threads at line granularity up to a bound, every pool interface, compared bit by bit with serial execution"
LEVEL_NOTE = ("All permutations of task completion for the batch size, all two-thread interleavings of the call wrapper for schedules of bounded length, real process and thread pools, all "
              "argument forms; serial run as reference. Small ensembles.")
RULE = "a case is one (configuration, pool interface or schedule group); states are distinct (configuration, schedule) outcomes"
ASSUMPTIONS = ["user likelihood is a pure function", "a pool's map returns results in task order"]
CPU_LIMIT = 900

SEEN = []


class ArgLike(Like):
    """Checks that it receives exactly the extra arguments it was configured with."""
    want = ((), {})
    strict = None

    def __call__(self, x, *args, **kwargs):
        a, k = self.want
        if len(args) != len(a) or set(kwargs) != set(k) or any(not same(p, q) for p, q in zip(args, a)) or any(not same(kwargs[q], k[q]) for q in k):
            raise AssertionError("likelihood received args=%r kwargs=%r instead of %r %r" % (args, kwargs, a, k))
        if not self.vec and np.shape(x) != (self.dim,):
            raise AssertionError("likelihood received a point of shape %r" % (np.shape(x),))
        if self.vec and (np.ndim(x) != 2 or np.shape(x)[1] != self.dim):
            raise AssertionError("vectorised likelihood received an array of shape %r" % (np.shape(x),))
        if not self.vec:
            SEEN.append(np.array(x, copy=True))
        else:
            SEEN.extend(np.array(x, copy=True))
        return Like.__call__(self, x)


def same(p, q):
    if isinstance(q, np.ndarray):
        return isinstance(p, np.ndarray) and np.array_equal(p, q)
    return type(p) is type(q) and p == q


ARGS = [(None, None), ([], {}), ([1.5, "a"], None), (None, dict(k=3, z=[1, 2])), ((np.array([1.0, 2.0]), None), dict(x0=0.0, args=(1,), f=2)), (["x"], dict(y="y"))]


# ----------------------------------------------------------------------------- pools
class OrderPool:
    """Completes the tasks in the given order (a permutation pattern), returns them in task order."""

    def __init__(self, perm, form="list"):
        self.perm, self.form = perm, form
        self.calls = 0

    def map(self, f, it):
        self.calls += 1
        it = list(it)
        n = len(it)
        order = [p for p in self.perm if p < n] + list(range(len(self.perm), n))
        out = [None] * n
        for i in order:
            out[i] = f(it[i])
        if self.form == "tuple":
            return tuple(out)
        if self.form == "iter":
            return iter(out)
        return out


class LazyPool:
    """map returns a lazy iterator."""

    def map(self, f, it):
        return (f(x) for x in it)


class CopyPool:
    """Every task and result crosses a process boundary (is copied)."""

    def map(self, f, it):
        import dill
        g = dill.loads(dill.dumps(f))
        n0 = len(SEEN)
        return [dill.loads(dill.dumps(g(dill.loads(dill.dumps(x))))) for x in it]


class Interleave:
    """Two tasks at a time in two threads, switched at line granularity in the code under test according to a bit schedule."""

    def __init__(self, bits):
        self.bits = bits

    def map(self, f, it):
        it = list(it)
        out = [None] * len(it)
        for a in range(0, len(it), 2):
            self.pair(f, it, out, [i for i in (a, a + 1) if i < len(it)])
        return out

    def pair(self, f, it, out, ids):
        cond = threading.Condition()
        st = dict(turn=0, pos=0, done=set(), err=None)
        n = len(ids)

        def switch(me):
            with cond:
                if n > 1:
                    b = self.bits[st["pos"]] if st["pos"] < len(self.bits) else 0
                    st["pos"] += 1
                    if b and (1 - me) not in st["done"]:
                        st["turn"] = 1 - me
                        cond.notify_all()
                while st["turn"] != me:
                    cond.wait(30)

        def tracer(me):
            def glob(frame, ev, arg):
                if ev == "call" and (core.REPO + "/") in frame.f_code.co_filename:
                    def loc(fr, e, a):
                        if e == "line":
                            switch(me)
                        return loc
                    return loc
                return None
            return glob

        def work(me):
            with cond:
                while st["turn"] != me:
                    cond.wait(30)
            sys.settrace(tracer(me))
            try:
                out[ids[me]] = f(it[ids[me]])
            except BaseException as e:  # noqa: BLE001
                st["err"] = e
            finally:
                sys.settrace(None)
                with cond:
                    st["done"].add(me)
                    st["turn"] = 1 - me
                    cond.notify_all()
        ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if st["err"] is not None:
            raise st["err"]


class GridPrior(ToyPrior):
    """Draws from a coarse grid: batches contain identical points."""
    step = 1.0

    def rvs(self, size=1):
        return np.clip(np.round(ToyPrior.rvs(self, size) / self.step) * self.step, [-0.5, -4.0], [1.5, 4.0]) + 0.0


# ----------------------------------------------------------------------------- cases
BASE = dict(kinds="UN", n_active=4, n_effective=8, n_total=8, n_max_steps=2, hole="corner", sharp=1.0)
CFGS = [dict(BASE, seed=3), dict(BASE, seed=4, precondition=True, n_evidence=5, sample="rwm"), dict(BASE, seed=5, blob="pair", resample="syst"),
        dict(BASE, seed=6, blob="str", precondition=True), dict(BASE, seed=7, sample="rwm", region="ninf", metric="uss"),
        dict(BASE, seed=8, grid=1.0, n_active=5, n_effective=10), dict(BASE, seed=9, grid=0.5, blob="pair", resample="syst")]     # several identical points in a batch


def cases(tier):
    for c in range(len(CFGS)):
        for m in ("mp2", "mp3", "int2", "thread", "futures"):
            if m in ("mp3", "int2") and c not in (0, 2):
                continue
            yield dict(cfg=c, mode=m)
    perms = list(itertools.permutations(range(4)))
    for c in range(len(CFGS)):
        for k in range(4):
            yield dict(cfg=c, mode="perm", group=perms[k::4], form=("list", "tuple", "iter")[k % 3])
    for c in range(len(CFGS)):
        for m in ("lazy", "copy", "int1", "vec", "true_map"):
            yield dict(cfg=c, mode=m)
    bits = list(itertools.product((0, 1), repeat=6 if tier == "quick" else 9))
    for c in (0, 2):
        for k in range(8):
            yield dict(cfg=c, mode="threads", group=bits[k::8])
    for a in range(len(ARGS)):
        for c in (0, 1, 2):
            for m in ("serial", "vec", "perm1", "lazy", "copy", "mp2"):
                if m == "mp2" and c != 0:
                    continue
                yield dict(cfg=c, mode=m, args=a)


def run_one(cfg, pool=None, args=0, vec=False, pf=None):
    import pocomc
    a, k = ARGS[args]
    del SEEN[:]

    def cls(p, l, **kw):
        if cfg.get("grid"):
            p = GridPrior(p.kinds, p.hole, p.log)
            p.step = cfg["grid"]
        al = ArgLike(l.dim, l.region, l.vec, l.blob, l.sharp, None, l.offset)
        al.want = (tuple(a or ()), dict(k or {}))
        return pocomc.Sampler(p, al, pool=pool, likelihood_args=a, likelihood_kwargs=k, **kw)
    with quiet():
        s, _, _ = make_sampler(dict(cfg, vec=vec), cls=cls)
        s.run(n_total=cfg["n_total"], n_evidence=cfg.get("n_evidence", 0), progress=False)
    return s, list(SEEN)


def rows_digest(rows):
    r = sorted(tuple(float(v) + 0.0 for v in x) for x in rows)
    return core.digest(r)


def compare(rec, what, cfg, want, wrows, s, rows, exact=True):
    rec.trace()
    got = outcome(s)
    rec.step(len(wrows))
    df = diff(want, got)
    if df:
        rec.fail("%s gives other results than serial execution" % what, fields=df, config={k: v for k, v in cfg.items() if v is not None})
        return False
    if rows is not None and rows_digest(rows) != rows_digest(wrows):
        rec.fail("%s evaluates other points than serial execution" % what, serial=len(wrows), got=len(rows))
        return False
    rec.state(what, cfg["seed"], got["x"])
    return True


def run_case(case, rec):
    cfg = CFGS[case["cfg"]]
    args = case.get("args", 0)
    mode = case["mode"]
    if mode == "vec" and cfg.get("blob"):
        rec.state("vectorised blobs are not supported")
        return
    keep = repr(ARGS[args])
    s0, rows0 = run_one(cfg, None, args)
    want = outcome(s0)
    if int(s0.calls) != len(rows0):
        return rec.fail("serial execution evaluates a point more than once", counter=int(s0.calls), evaluated=len(rows0))
    if mode == "serial":
        s, rows = run_one(cfg, None, args)
        compare(rec, "a second serial execution", cfg, want, rows0, s, rows)
        s, rows = run_one(cfg, None, 0)
        compare(rec, "execution without extra arguments", cfg, want, rows0, s, rows)
    elif mode in ("mp2", "mp3"):
        import multiprocess
        # workers of a daemonic pool worker: make them possible
        import multiprocessing
        multiprocessing.current_process()._config["daemon"] = False
        multiprocess.current_process()._config["daemon"] = False
        with multiprocess.get_context("fork").Pool(2 if mode == "mp2" else 3) as pool:
            s, _ = run_one(cfg, pool, args)
        compare(rec, "a process pool", cfg, want, rows0, s, None)
    elif mode == "int2":
        import multiprocess
        import multiprocessing
        multiprocessing.current_process()._config["daemon"] = False
        multiprocess.current_process()._config["daemon"] = False
        s, _ = run_one(cfg, 2, args)
        compare(rec, "pool=2", cfg, want, rows0, s, None)
        p = getattr(s, "pool", None)
        if p is not None and hasattr(p, "terminate"):
            p.terminate()
            p.join()
    elif mode == "int1":
        s, rows = run_one(cfg, 1, args)
        compare(rec, "pool=1", cfg, want, rows0, s, rows)
    elif mode == "thread":
        from multiprocessing.pool import ThreadPool
        with ThreadPool(3) as pool:
            s, rows = run_one(cfg, pool, args)
        compare(rec, "a thread pool", cfg, want, rows0, s, rows)
    elif mode == "futures":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as pool:
            s, rows = run_one(cfg, pool, args)
        compare(rec, "a futures executor", cfg, want, rows0, s, rows)
    elif mode == "lazy":
        s, rows = run_one(cfg, LazyPool(), args)
        compare(rec, "a pool with a lazy map", cfg, want, rows0, s, rows)
    elif mode == "copy":
        s, rows = run_one(cfg, CopyPool(), args)
        compare(rec, "a pool that copies tasks and results", cfg, want, rows0, s, rows)
    elif mode == "true_map":
        class P:
            map = staticmethod(map)
        s, rows = run_one(cfg, P, args)
        compare(rec, "a module-like pool with the builtin map", cfg, want, rows0, s, rows)
    elif mode == "vec":
        s, rows = run_one(cfg, None, args, vec=True)
        compare(rec, "vectorised execution", cfg, want, rows0, s, rows)
        s, rows = run_one(cfg, OrderPool((0,)), args, vec=True)
        compare(rec, "vectorised execution with a pool given", cfg, want, rows0, s, rows)
    elif mode == "perm1":
        s, rows = run_one(cfg, OrderPool((2, 0, 3, 1)), args)
        compare(rec, "a pool", cfg, want, rows0, s, rows)
    elif mode == "perm":
        for p in case["group"]:
            s, rows = run_one(cfg, OrderPool(tuple(p), case["form"]), args)
            if not compare(rec, "a pool completing tasks in order %s" % (tuple(p),), cfg, want, rows0, s, rows):
                return
    elif mode == "threads":
        for b in case["group"]:
            s, rows = run_one(cfg, Interleave(tuple(b)), args)
            if not compare(rec, "two worker threads with schedule %s" % "".join(map(str, b)), cfg, want, rows0, s, rows):
                return
    if repr(ARGS[args]) != keep:
        rec.fail("the extra arguments were modified")
    rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, mode=mode, args=repr(ARGS[args]))
