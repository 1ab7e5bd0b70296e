"""C11: resuming from any checkpoint continues exactly the interrupted run."""
import itertools
import json
import os
import subprocess
import sys
from pathlib import Path

import numpy as np
import torch

from .core import digest
from .env import Log, make_sampler, quiet, scratch
from .full import history_digests

PROPERTY = "C11"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of interruption points: every checkpoint of every run (and every pair in chains) is loaded into a new sampler and continued on the recorded random stream, bit-compared with the uninterrupted run"
LEVEL_NOTE = ("All checkpoints of every configuration in the option product, saving frequencies 1-3, chains of two interruptions, also in a new process; bitwise comparison of every recorded "
              "quantity. Small ensembles; the random stream position is supplied by the harness because checkpoints do not contain it.")
RULE = "a case is one (configuration, saving frequency); every checkpoint it writes is resumed; states are distinct (configuration, checkpoint, continued history)"
ASSUMPTIONS = ["the continued run is given the random stream position at which the checkpoint was written", "user functions are pure"]
CPU_LIMIT = 900


class Audit:
    """Remembers the random stream at every file that is opened for writing or renamed into place."""
    on = None

    @classmethod
    def install(cls):
        if getattr(cls, "done", False):
            return
        cls.done = True

        def hook(ev, args):
            if cls.on is None:
                return
            if ev == "open" and isinstance(args[1], str) and ("w" in args[1] or "+" in args[1] or "a" in args[1] or "x" in args[1]):
                p = args[0]
            elif ev == "os.rename":
                p = args[1]
            else:
                return
            try:
                cls.on[os.path.abspath(os.fspath(p))] = rng_get()
            except Exception:  # noqa: BLE001
                pass
        sys.addaudithook(hook)


def rng_get():
    return np.random.get_state(), torch.get_rng_state().clone()


def rng_set(st):
    np.random.set_state(st[0])
    torch.set_rng_state(st[1])


def cases(tier):
    base = dict(n_active=4, n_effective=8, n_total=10, n_max_steps=2)
    for pre in (False, True):
        yield dict(cfg=dict(base, kinds="UN", precondition=pre, seed=9, blob="pair"), every=2, process=True)
    for pre, sample in itertools.product((False, True), ("tpcn", "rwm")):
        yield dict(cfg=dict(base, kinds="UN", precondition=pre, sample=sample, seed=9, n_evidence=3 if pre else 0, dynamic=True), every=1, chain=True)
    for pre, sample, res, (blob, vec) in itertools.product((False, True), ("tpcn", "rwm"), ("mult", "syst"), ((None, False), ("pair", False), (None, True))):
        for k, (region, dyn, metric) in enumerate(((None, True, "ess"), ("ninf", False, "uss"))):
            cfg = dict(base, kinds="UN", precondition=pre, sample=sample, resample=res, blob=blob, vec=vec, region=region, dynamic=dyn, metric=metric, seed=6 + k,
                       n_evidence=5 if pre and k == 0 else 0)
            for every in (1, 2, 3) if tier != "quick" else (1 + (k + len(sample) + (res == "syst")) % 3,):
                yield dict(cfg=cfg, every=every)
    for pre in (False, True):
        for blob in ("str", "struct", "vec"):
            yield dict(cfg=dict(base, kinds="UN", precondition=pre, blob=blob, seed=4), every=1)
    for extra in (dict(precondition=True, flow="maf3", train_config=dict(epochs=2)), dict(precondition=True, train_frequency=3), dict(precondition=True, train_frequency=2, n_evidence=4),
                  dict(n_prior=24), dict(n_prior=5), dict(precondition=True, n_prior=8), dict(kinds="UBE"), dict(kinds="U", sample="rwm"), dict(transform="logit"),
                  dict(periodic=[0]), dict(reflective=[0], precondition=True), dict(n_steps=2, n_max_steps=6), dict(n_total=40), dict(n_total=40, precondition=True)):
        yield dict(cfg=dict(dict(base, kinds="UN", seed=8), **extra), every=1)


FIELDS = ("u", "x", "logdetj", "logl", "logp", "logw", "iter", "logz", "calls", "steps", "efficiency", "ess", "accept", "beta")


def outcome(s, dirs=()):
    """Everything a user can read after the run."""
    r = s.results
    out = {k: digest(np.asarray(r[k])) for k in FIELDS}
    if "blobs" in r and r["blobs"] is not None and len(r["blobs"]):
        out["blobs"] = digest([[str(v) for v in np.asarray(row).reshape(-1)] for row in r["blobs"]])
    out["results_keys"] = sorted(r)
    out["evidence"] = repr([None if v is None else float(v) for v in s.evidence()])
    out["total_calls"] = int(s.calls)
    with quiet():
        out["posterior"] = digest(*[np.asarray(v) for v in s.posterior()])
    return out


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def start(cfg, d, label="pmc"):
    with quiet():
        s, _, _ = make_sampler(cfg, output_dir=d, output_label=label)
    return s


def run_kw(cfg, every):
    return dict(n_total=cfg["n_total"], n_evidence=cfg.get("n_evidence", 0), progress=False, save_every=every)


def resume(cfg, d, path, rng, every, label):
    """A new sampler (constructed from another seed), continued from the checkpoint on the given stream."""
    s = start(dict(cfg, seed=cfg["seed"] + 1000), d, label)
    rng_set(rng)
    marks = {}
    Audit.on = marks
    try:
        with quiet():
            s.run(resume_state_path=path, **run_kw(cfg, every))
    finally:
        Audit.on = None
    return s, marks


def checkpoints(d, label):
    return sorted((str(p) for p in Path(d).glob(label + "_*.state")), key=lambda p: ("final" in p, int("".join(c for c in os.path.basename(p)[len(label):] if c.isdigit()) or 0)))


def run_case(case, rec):
    Audit.install()
    cfg, every = case["cfg"], case["every"]
    with scratch() as d:
        if case.get("process"):
            return other_process(case, rec, d)
        s = start(cfg, os.path.join(d, "a"))
        marks = {}
        Audit.on = marks
        try:
            with quiet():
                s.run(**run_kw(cfg, every))
        finally:
            Audit.on = None
        want = outcome(s)
        cps = checkpoints(os.path.join(d, "a"), "pmc")
        T = len(s.results["iter"])
        nwant = len([t for t in range(1, T) if t % every == 0]) + 1
        if len(cps) != nwant:
            return rec.fail("%d checkpoints written, expected %d (every %d of %d iterations and the final one)" % (len(cps), nwant, every, T), files=[os.path.basename(c) for c in cps])
        rec.trace()
        # the final checkpoint continues like the sampler in memory
        fin = cps[-1]
        rng_set(marks[fin])
        with quiet():
            s.run(**run_kw(cfg, None))
        again = outcome(s)
        for cp in cps:
            want_cp = again if cp == fin else want
            if cp not in marks:
                return rec.fail("harness: no stream position for %s" % cp)
            r, m2 = resume(cfg, os.path.join(d, "b"), cp, marks[cp], every, "res")
            rec.trace()
            rec.step(len(r.results["iter"]))
            got = outcome(r)
            df = diff(want_cp, got)
            if df:
                return rec.fail("run resumed from %s differs from the uninterrupted run" % os.path.basename(cp), fields=df, config={k: v for k, v in cfg.items() if v is not None},
                                expected={k: want_cp.get(k) for k in df[:3]}, got={k: got.get(k) for k in df[:3]})
            rec.state(json.dumps(cfg, sort_keys=True), os.path.basename(cp), got["x"])
            if case.get("chain"):
                for cp2 in checkpoints(os.path.join(d, "b"), "res"):
                    if cp2 not in m2:
                        continue
                    if "final" in cp2:
                        continue
                    r2, _ = resume(cfg, os.path.join(d, "c"), cp2, m2[cp2], None, "res2")
                    rec.trace()
                    rec.step(len(r2.results["iter"]))
                    df = diff(want, outcome(r2))
                    if df:
                        return rec.fail("run interrupted twice (%s, then %s) differs from the uninterrupted run" % (os.path.basename(cp), os.path.basename(cp2)), fields=df)
                    rec.state(json.dumps(cfg, sort_keys=True), os.path.basename(cp), os.path.basename(cp2))
                for f in Path(d, "b").glob("res_*.state"):
                    f.unlink()
        rec.sample = dict(config={k: v for k, v in cfg.items() if v is not None}, every=every, checkpoints=[os.path.basename(c) for c in cps], iterations=T)


CHILD = """
import sys, json, pickle, torch, numpy as np
from mc import c11
job = pickle.load(open(sys.argv[1], 'rb'))
s, _ = c11.resume(job['cfg'], job['dir'], job['cp'], job['rng'], job['every'], 'proc')
json.dump(c11.outcome(s), open(job['out'], 'w'))
"""


def other_process(case, rec, d):
    import pickle
    cfg, every = case["cfg"], case["every"]
    s = start(cfg, os.path.join(d, "a"))
    marks = {}
    Audit.on = marks
    try:
        with quiet():
            s.run(**run_kw(cfg, every))
    finally:
        Audit.on = None
    want = outcome(s)
    cps = checkpoints(os.path.join(d, "a"), "pmc")
    for k, cp in enumerate([cps[0], cps[-2]]):
        job = os.path.join(d, "job%d" % k)
        out = os.path.join(d, "out%d" % k)
        with open(job, "wb") as f:
            pickle.dump(dict(cfg=cfg, dir=os.path.join(d, "p"), cp=cp, rng=marks[cp], every=every, out=out), f)
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, job], capture_output=True, text=True)
        rec.trace()
        rec.step(1)
        if p.returncode:
            return rec.fail("a checkpoint cannot be resumed in a new process", error=p.stderr[-600:])
        df = diff(want, json.load(open(out)))
        if df:
            return rec.fail("run resumed from %s in a new process differs" % os.path.basename(cp), fields=df)
        rec.state("process", os.path.basename(cp), cfg["precondition"])
    rec.sample = dict(process=True, config=cfg)
