"""C12: reading, saving and loading in any order is pure and always current."""
import json
import os
import signal
import sys
import traceback

import numpy as np
import torch

from . import core, ref
from .core import digest
from .env import make_sampler, quiet, scratch

PROPERTY = "C12"
LEVEL = "model_checking"
TECHNIQUE = "explicit exploration of all operation sequences up to a depth on the real sampler (process snapshots by fork), against the abstract model 'state = the runs made so far'"
LEVEL_NOTE = ("All sequences of run, continue, continue without importance samples, run with saving, three reads, save, load in place, load into a new sampler and resume up to the stated depth; the model predicts every value "
              "read bit by bit from the runs alone. Small ensembles.")
RULE = "a case is one (configuration, first operations); the tree below it is explored to the depth bound; states are distinct (configuration, model state, operation)"
ASSUMPTIONS = ["the random stream is positioned by the harness before every run as a function of the runs made so far", "user functions are pure"]
CPU_LIMIT = 1200

# operations: R run, Z run to a larger total without importance samples for the evidence, M run to a larger total, K run to a larger total saving every iteration, Q results, P posterior, E evidence, S save, L load in place,
# N load into a new sampler, V resume the last checkpoint in a new sampler to a larger total
OPS = "RMKZQPESLNV"
RUNS = "RMKZ"


def total(label):
    return 6 if label[-1] == "R" else 6 + 8 * len(label)


CONFIGS = [dict(kinds="UN", seed=3), dict(kinds="UN", seed=4, precondition=True, n_evidence=4), dict(kinds="UN", seed=5, blob="pair", resample="syst", metric="uss"),
           dict(kinds="UE", seed=6, region="ninf", sample="rwm", vec=True)]
BASE = dict(n_active=4, n_effective=8, n_max_steps=2)


def cases(tier):
    for c in (1, 2, 0, 3):
        for a in "RSM":
            for b in OPS:
                if ok((a,), b, 2) and (b != "Z" or CONFIGS[c].get("n_evidence")):
                    yield dict(config=c, prefix=a + b, runs=2 if tier == "quick" else 3, depth=4 if tier == "quick" else (6 if c in (0, 2) else 5))


def ok(seq, op, maxruns=3):
    runs = sum(o in "RMKZV" for o in seq)
    if op in "LNV" and "S" not in seq:
        return False
    if op in "QPE" and runs == 0:
        return False
    if op in "RMKZV" and runs >= maxruns:
        return False
    if seq and op == seq[-1] and op in "SLN":
        return False
    return True


def cfg_of(i):
    return dict(BASE, **CONFIGS[i])


def reads(s, blobs):
    """All values a user can read."""
    out = {}
    with quiet():
        r = s.results
        for k in sorted(r):
            v = r[k]
            out["results." + k] = digest(np.asarray(v).astype(str) if k == "blobs" else np.asarray(v))
        for nm, kw in (("default", dict(bins_trim=12)), ("logw", dict(trim_importance_weights=False, return_logw=True)),
                       ("blobs", dict(return_blobs=True, bins_trim=12))):
            if nm == "blobs" and not blobs:
                continue
            out["posterior." + nm] = digest(*[np.asarray(a) for a in s.posterior(**kw)])
        keep = np.random.get_state()
        np.random.seed(77)
        out["posterior.resampled"] = digest(*[np.asarray(a) for a in s.posterior(resample=True, trim_importance_weights=False)])
        np.random.set_state(keep)
        out["evidence"] = repr([None if v is None else float(v) for v in s.evidence()])
    return out


def scribble(v):
    """Overwrite what a read returned, as its owner may."""
    for a in v.values() if isinstance(v, dict) else v:
        if isinstance(a, np.ndarray) and a.size and a.flags.writeable:
            a[...] = np.zeros(1, a.dtype)[0]


def do_run(s, cfg, label, op, **kw):
    seed = 1000 + int(digest(label), 16) % 100000
    np.random.seed(seed)
    torch.manual_seed(seed)
    with quiet():
        s.run(n_total=total(label), n_evidence=0 if label[-1] == "Z" else cfg.get("n_evidence", 0), progress=False, **kw)


def current(s, cfg, label, before):
    """What the reads must say about the history itself, whatever was computed before."""
    r = s.results
    logl, beta, logz = (np.asarray(r[k]) for k in ("logl", "beta", "logz"))
    lw, z = ref.balance(logl, beta, logz, 1.0)
    got = s.evidence()
    if label[-1] == "Z" or not cfg.get("precondition") or not cfg.get("n_evidence"):
        if got[1] is not None or abs(float(got[0]) - z) > 1e-8 * (1 + abs(z)):
            return "the evidence is not the estimate of the current history: %s, expected (%r, None)" % (got, z)
    elif got[1] is None or not np.isfinite(got[0]) or not np.isfinite(got[1]) or (before and before["evidence"] == repr([float(v) for v in got])):
        return "the evidence is not that of the last run: %s" % (got,)
    x, w, ll, lp = s.posterior(trim_importance_weights=False)
    if len(x) != logl.size or not np.array_equal(np.asarray(x).reshape(-1), np.asarray(r["x"]).reshape(-1)) or np.abs(w - np.exp(lw)).max() > 1e-8:
        return "the posterior is not that of the current history"
    n = {len(np.asarray(r[k])) for k in ("x", "u", "logl", "logp", "logdetj", "beta", "calls", "logz", "iter")}
    if len(n) != 1 or np.asarray(r["iter"]).tolist() != sorted(set(np.asarray(r["iter"]).tolist())):
        return "the results are not one entry per iteration"
    return None


def truth(cfg, label, memo):
    """What must be readable after the runs `label` (R/M/K/V, saving and resuming make no difference): a new sampler that only runs."""
    if label not in memo:
        with quiet():
            s, _, _ = make_sampler(cfg)
        for i, op in enumerate(label):
            do_run(s, cfg, label[:i + 1], op)
        memo[label] = reads(s, cfg.get("blob"))
        memo[label]["_T"] = len(s.results["iter"])
        memo[label]["_hist"] = [digest(np.asarray(s.results[k])[t]) for k in ("x", "u", "logl", "logp", "logdetj", "beta", "calls", "logz")
                                for t in range(memo[label]["_T"])]
        memo[label]["_calls"] = int(s.calls)
        with quiet():
            memo[label]["_bad"] = current(s, cfg, label, truth(cfg, label[:-1], memo) if len(label) > 1 else None)
    return memo[label]


class Node:
    pass


def run_case(case, rec):
    cfg = cfg_of(case["config"])
    memo = {}
    with scratch() as d:
        with quiet():
            s, _, _ = make_sampler(cfg, output_dir=os.path.join(d, "out"))
        # warm the memo for all labels the tree can reach, so that forked processes share it
        n = Node()
        n.s, n.label, n.saved, n.nsave, n.seq = s, "", None, 0, ()
        labels(cfg, case, memo)
        for k, op in enumerate(case["prefix"]):
            if not apply(n, op, cfg, d, memo, rec):
                return
            n.seq = n.seq + (op,)
        final(n, cfg, memo, rec)
        if rec.failed:
            return
        explore(n, case["depth"], cfg, d, memo, rec, case)
    rec.sample = dict(config=CONFIGS[case["config"]], prefix=case["prefix"], depth=case["depth"])


def canon(op):
    return "M" if op in "KV" else op


def labels(cfg, case, memo):
    import itertools
    for n in range(0, 4):
        for t in itertools.product("RMZ" if cfg.get("n_evidence") else "RM", repeat=n):
            if n and n <= 2 and (n == 1 or t[0] == case["prefix"][0] or case["prefix"][0] == "S"):
                truth(cfg, "".join(t), memo)


def apply(n, op, cfg, d, memo, rec):
    rec.step(1)
    rec.state(json.dumps(cfg, sort_keys=True), n.label, op, n.saved and n.saved[1])
    s = n.s
    blobs = cfg.get("blob")
    if op in RUNS:
        before = n.label
        n.label = n.label + canon(op)
        kw = {}
        if op == "K":
            s.output_dir = os.path.join(d, "k%d" % len(n.seq))
            kw = dict(save_every=1)
        do_run(s, cfg, n.label, op, **kw)
    elif op == "S":
        p = os.path.join(d, "s%d_%s.state" % (os.getpid(), n.nsave))
        n.nsave += 1
        with quiet():
            s.save_state(p)
        n.saved = (p, n.label)
    elif op == "L":
        with quiet():
            s.load_state(n.saved[0])
        n.label = n.saved[1]
    elif op == "N":
        with quiet():
            s2, _, _ = make_sampler(dict(cfg, seed=cfg["seed"] + 500), output_dir=os.path.join(d, "out"))
            s2.load_state(n.saved[0])
        n.s = s2
        n.label = n.saved[1]
    elif op == "V":
        with quiet():
            s2, _, _ = make_sampler(dict(cfg, seed=cfg["seed"] + 700), output_dir=os.path.join(d, "out"))
        n.s = s2
        n.label = n.saved[1] + "M"
        do_run(s2, cfg, n.label, "V", resume_state_path=n.saved[0])
    elif n.label == "":
        return True                   # nothing to read in a state restored from before the first run
    else:
        want = truth(cfg, n.label, memo)
        with quiet():
            if op == "Q":
                r = s.results
                got = {"results." + k: digest(np.asarray(v).astype(str) if k == "blobs" else np.asarray(v)) for k, v in r.items()}
                scribble(r)
            elif op == "P":
                got = {}
                for nm, kw in (("default", dict(bins_trim=12)), ("logw", dict(trim_importance_weights=False, return_logw=True)),
                               ("blobs", dict(return_blobs=True, bins_trim=12))):
                    if nm != "blobs" or blobs:
                        o = s.posterior(**kw)
                        got["posterior." + nm] = digest(*[np.asarray(a) for a in o])
                        scribble(o)
            else:
                got = {"evidence": repr([None if v is None else float(v) for v in s.evidence()])}
        bad = sorted(k for k in got if got[k] != want.get(k))
        if bad:
            rec.fail("after the operations %s the value read is not that of the runs %r made so far" % ("".join(n.seq + (op,)), n.label), values=bad, config=cfg)
            return False
    return True


def final(n, cfg, memo, rec):
    rec.trace()
    if n.label == "":
        return
    want = truth(cfg, n.label, memo)
    if want["_bad"]:
        return rec.fail("after the runs %r: %s" % (n.label, want["_bad"]), config=cfg)
    got = reads(n.s, cfg.get("blob"))
    bad = sorted(k for k in got if got[k] != want.get(k)) + sorted(k for k in want if k[0] != "_" and k not in got)
    if bad:
        return rec.fail("after the operations %s the values read are not those of the runs %r made so far" % ("".join(n.seq), n.label), values=bad, config=cfg)
    if int(n.s.calls) != want["_calls"]:
        return rec.fail("after the operations %s the call counter is not that of the runs made so far" % "".join(n.seq), got=int(n.s.calls), expected=want["_calls"])
    for k in range(1, len(n.label)):
        w = truth(cfg, n.label[:k], memo)
        T, T2 = w["_T"], want["_T"]
        for f in range(8):
            if w["_hist"][f * T:(f + 1) * T] != want["_hist"][f * T2:f * T2 + T]:
                return rec.fail("continuing a run does not extend the earlier history", label=n.label)
        if T2 < T:
            return rec.fail("continuing a run shortened the history", label=n.label)


def explore(n, depth, cfg, d, memo, rec, case):
    """Depth-first over all operations; every branch runs in a forked copy of this process."""
    if len(n.seq) >= depth or rec.failed:
        return
    for op in OPS:
        if not ok(n.seq, op, case["runs"]) or op == "Z" and not cfg.get("n_evidence"):
            continue
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            sub = core.Recorder(case)
            try:
                signal.setitimer(signal.ITIMER_VIRTUAL, 60)
                if apply(n, op, cfg, d, memo, sub):
                    n.seq = n.seq + (op,)
                    final(n, cfg, memo, sub)
                    explore(n, depth, cfg, d, memo, sub, case)
            except BaseException as e:  # noqa: BLE001
                sub.fail("%s after operations %s: %s (%s)" % (type(e).__name__, "".join(n.seq) + op, e, core.short_tb(e)))
            msg = json.dumps(dict(f=sub.fails, s=sorted(sub.states), t=sub.transitions, x=sub.traces)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(msg)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            msg = f.read()
        os.waitpid(pid, 0)
        if not msg:
            rec.fail("process died after operations %s" % ("".join(n.seq) + op))
            return
        m = json.loads(msg)
        rec.fails += m["f"]
        rec.states |= set(m["s"])
        rec.transitions += m["t"]
        rec.traces += m["x"]
        if rec.failed:
            return
