"""C22: runs are reproducible and unaffected by progress bars, saving or reading."""
import contextlib
import io
import itertools
import json
import os
import random
import subprocess
import sys
from pathlib import Path

import numpy as np
import torch

from .c11 import diff, outcome, rng_get
from .env import KnownFlow, Like, Log, ToyPrior, make_sampler, quiet, scratch
from .full import degenerate

PROPERTY = "C22"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of environments (earlier random number consumption, progress display, saving, output location, threads, reads at every evaluation) around complete runs, outcome compared bit by bit; every file-system mutation is recorded by an audit hook"
LEVEL_NOTE = ("Full product of pollution x progress x saving x reading x threads for a set of configurations covering all kernels, both resampling schemes, blobs, real and user flows and "
              "several seeds, also in new processes with other hash seeds and after other samplers ran in the same process. Small ensembles.")
RULE = "a case is one (configuration, seed); all environments are executed for it; states are distinct outcomes, transitions are runs"
ASSUMPTIONS = ["user functions are pure", "the file-system calls of the Python code raise audit events"]
CPU_LIMIT = 900

POLLUTE = ("none", "np-seed", "np-draw", "torch-seed", "torch-draw", "both", "python", "other-sampler", "normal-cache")


class Writes:
    """Every path that is created, opened for writing, renamed or removed."""
    on = None

    @classmethod
    def install(cls):
        if getattr(cls, "done", False):
            return
        cls.done = True

        def hook(ev, args):
            if cls.on is None:
                return
            try:
                if ev == "open":
                    path, mode, flags = args
                    if isinstance(mode, str):
                        w = any(c in mode for c in "wax+")
                    else:
                        w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
                    if w and not isinstance(path, int):
                        cls.on.append(("open", os.path.abspath(os.fspath(path))))
                elif ev in ("os.mkdir", "os.remove", "os.rmdir", "os.truncate", "os.chmod", "os.utime"):
                    cls.on.append((ev, os.path.abspath(os.fspath(args[0]))))
                elif ev in ("os.rename", "os.link", "os.symlink"):
                    cls.on.append((ev, os.path.abspath(os.fspath(args[0]))))
                    cls.on.append((ev, os.path.abspath(os.fspath(args[1]))))
            except Exception:  # noqa: BLE001
                pass
        sys.addaudithook(hook)


def configs(tier):
    base = dict(n_active=4, n_effective=8, n_total=10, n_max_steps=2)
    for pre, smp, res in itertools.product((False, True), ("tpcn", "rwm"), ("mult", "syst")):
        yield dict(base, kinds="UN", precondition=pre, sample=smp, resample=res, n_evidence=6 if pre else 0, dynamic=res == "mult")
    yield dict(base, kinds="UN", precondition=True, flow="nsf3", n_evidence=5)
    yield dict(base, kinds="UN", precondition=True, flow="maf3", train_config=dict(epochs=3, noise=0.1, batch_size=4, annealing=True), n_evidence=5)
    yield dict(base, kinds="UNE", precondition=True, flow="nsf3", train_config=dict(epochs=2, shuffle=False, gaussian_scale=1.0), metric="uss", transform="logit")
    yield dict(base, kinds="UN", blob="pair", region="ninf")
    yield dict(base, kinds="UN", vec=True, region="nan", metric="uss", precondition=True)
    yield dict(base, kinds="UU", periodic=[0], reflective=[1], prior="real")
    yield dict(base, kinds="UN", prior="real", precondition=True, n_evidence=4)
    yield dict(base, kinds="U", n_active=6, n_effective=12, sample="rwm")


def cases(tier):
    for cfg in configs(tier):
        heavy = isinstance(cfg.get("flow"), str)
        for seed in ((0,) if heavy else (0, 2 ** 31 + 7)) if tier == "quick" else (0, 1, 2, 3, 42, 12345, 2 ** 31 + 7, 2 ** 32 - 1):
            nsh = 6 if heavy else 2
            for sh in range(nsh):
                yield dict(kind="env", cfg=dict(cfg, seed=seed), shard=[sh, nsh], full=tier != "quick")
    for k, cfg in enumerate(configs(tier)):
        if k % 3 == 0 or tier != "quick":
            for h in ("0", "1", "random"):
                yield dict(kind="process", cfg=dict(cfg, seed=7), hash=h)


def real_prior(kinds):
    import pocomc
    from scipy import stats
    d = {"U": stats.uniform(-1.0, 3.0), "N": stats.norm(0.3, 1.5), "E": stats.expon(1.0)}
    return pocomc.Prior([d[k] for k in kinds])


def make(cfg, log=None, **over):
    import pocomc
    if cfg.get("prior") != "real":
        return make_sampler(cfg, log, **over)
    box = []

    def cls(prior, like, **kw):
        p = real_prior(cfg["kinds"])
        box.append(p)
        return pocomc.Sampler(p, like, **kw)
    s, _, like = make_sampler(cfg, log, cls=cls, **over)
    return s, box[0], like


def pollute(how):
    if how == "np-seed":
        np.random.seed(99)
    elif how == "np-draw":
        np.random.rand(13)
        np.random.randn(3)
    elif how == "torch-seed":
        torch.manual_seed(1234)
    elif how == "torch-draw":
        torch.randn(17)
        torch.randperm(5)
    elif how == "both":
        np.random.seed(3)
        torch.manual_seed(3)
        np.random.rand()
        torch.rand(1)
    elif how == "python":
        random.seed(5)
        random.random()
    elif how == "other-sampler":
        with quiet():
            s, _, _ = make_sampler(dict(kinds="NU", n_active=4, n_effective=8, n_total=8, precondition=True, sample="rwm", resample="syst", seed=77, blob="float"))
            s.run(n_total=8, n_evidence=4, progress=False)
    elif how == "normal-cache":
        np.random.randn(1)      # leaves a cached second normal number behind


def once(cfg, how="none", progress=False, every=None, reads=False, threads=1, out=None, label=None, spy=None):
    log = Log()
    pollute(how)
    kw = dict(pytorch_threads=threads)
    if out is not None:
        kw["output_dir"] = out
    if label is not None:
        kw["output_label"] = label
    with quiet(), contextlib.redirect_stderr(io.StringIO()):
        s, prior, like = make(cfg, log, **kw)
        if reads:
            count = [0]

            def hook():
                if len(s.particles.get("beta")) == 0:
                    return
                count[0] += 1
                if count[0] % 3:
                    return
                s.results
                s.evidence()
                s.posterior()
                s.posterior(trim_importance_weights=False, return_logw=True)
            like.hook = hook
        if spy is not None:
            Writes.on = spy
        try:
            s.run(n_total=cfg["n_total"], n_evidence=cfg.get("n_evidence", 0), progress=progress, save_every=every)
        finally:
            Writes.on = None
            like.hook = None
        o = outcome(s)
        o["rows"] = np.array(log.like_rows).tobytes().hex()[-64:] + str(len(log.like_rows))
    return o


def run_case(case, rec):
    globals()["k_" + case["kind"]](case, rec)


def k_env(case, rec):
    cfg = case["cfg"]
    Writes.install()
    keep = {k: os.environ.get(k) for k in ("HOME", "TMPDIR")}
    cwd = os.getcwd()
    nt = torch.get_num_threads()
    with scratch() as top:
        for d in ("cwd", "home", "tmp"):
            os.mkdir(os.path.join(top, d))
        os.environ["HOME"] = os.path.join(top, "home")
        os.environ["TMPDIR"] = os.path.join(top, "tmp")
        os.chdir(os.path.join(top, "cwd"))
        try:
            env(cfg, rec, top, case["shard"], case["full"])
        finally:
            os.chdir(cwd)
            torch.set_num_threads(nt)
            for k, v in keep.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v


def env(cfg, rec, top, shard, full):
    try:
        want = once(cfg)
    except Exception as e:  # noqa: BLE001
        if degenerate(e):
            return rec.state("degenerate")
        raise
    rec.trace()
    rec.state(json.dumps(want, sort_keys=True))
    n = 0
    plans = []
    for how in POLLUTE:
        plans.append(dict(how=how))
    for progress, every, reads, threads in itertools.product((False, True), (None, 1, 2, 100), (False, True), (1, 2)):
        if not full and (threads == 2 and (reads or every) or every == 2 and reads):
            continue
        plans.append(dict(progress=progress, every=every, reads=reads, threads=threads, how=POLLUTE[n % len(POLLUTE)]))
        n += 1
    for out, label in itertools.product((None, "sub", "a/b/c", "abs"), (None, "lab.el", "z")):
        if not full and n % 2 and out is None:
            n += 1
            continue
        plans.append(dict(every=2, out=out, label=label, progress=bool(n % 2)))
        n += 1
    plans.append(dict(threads=3))
    plans = plans[shard[0]::shard[1]]
    for k, plan in enumerate(plans):
        p = dict(plan)
        out = p.get("out")
        if out == "abs":
            p["out"] = Path(top) / "elsewhere" / "dir"
        target = Path(p.get("out") or "states").absolute() if p.get("every") else None
        before = listing(top)
        spy = []
        got = once(cfg, spy=spy, **p)
        rec.trace()
        rec.step()
        bad = diff(want, got)
        if bad:
            return rec.fail("%s differs between two runs with the same seed when %s" % (", ".join(bad[:6]), describe(plan)), config=cfg, plan=plan)
        after = listing(top)
        for path in sorted(after ^ before):
            if not allowed(path, target):
                return rec.fail("the run %s %s (%s)" % ("creates" if path in after else "removes", os.path.relpath(path, top), describe(plan)), config=cfg, plan=plan)
        for ev, path in spy:
            if path.startswith("/dev/") or path.startswith("/proc/"):
                continue
            if not allowed(path, target):
                return rec.fail("the run touches %s with %s (%s)" % (path, ev, describe(plan)), config=cfg, plan=plan)
        if target is not None and not any(str(f).startswith(str(target) + "/") for f in after):
            return rec.fail("saving is on but nothing is saved in %s" % target, plan=plan)
    rec.sample = dict(config=cfg, environments=len(plans))


def listing(top):
    out = set()
    for a, ds, fs in os.walk(top):
        for f in ds + fs:
            out.add(os.path.join(a, f))
    return out


def allowed(path, target):
    if target is None:
        return False
    t = str(target)
    return path == t or path.startswith(t + "/") or t.startswith(path + "/")       # in it, or one of its missing parents


def describe(plan):
    return ", ".join("%s=%s" % kv for kv in sorted(plan.items())) or "repeated"


# ------------------------------------------------------------------------------------------ new processes
def k_process(case, rec):
    env_ = dict(os.environ, PYTHONHASHSEED=case["hash"])
    with quiet():
        try:
            want = once(case["cfg"])
        except Exception as e:  # noqa: BLE001
            if degenerate(e):
                return rec.state("degenerate")
            raise
    with scratch() as d:
        code = "import sys, json; from mc import c22; print(json.dumps(c22.once(json.loads(sys.argv[1]))))"
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", code, json.dumps(case["cfg"])], cwd=d, env=env_, capture_output=True, text=True, timeout=600)
        left = os.listdir(d)
    rec.trace(2)
    rec.step()
    if r.returncode:
        return rec.fail("the run fails in a new process: %s" % r.stderr[-400:], config=case["cfg"])
    got = json.loads(r.stdout.strip().splitlines()[-1])
    bad = diff(json.loads(json.dumps(want)), got)
    rec.state("process", case["hash"], json.dumps(got, sort_keys=True))
    if bad:
        return rec.fail("%s differs in a new process (hash seed %s)" % (", ".join(bad[:6]), case["hash"]), config=case["cfg"])
    if left:
        rec.fail("a run without saving leaves %s in the working directory" % left)
