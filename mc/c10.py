"""C10: a crash or I/O error while saving never destroys a checkpoint."""
import ctypes
import errno
import itertools
import os
import shutil
import signal
import sys
from pathlib import Path

import numpy as np
import torch

from .core import digest
from .env import make_sampler, quiet, scratch

PROPERTY = "C10"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault enumeration on the real code: every file-system call of a save is a crash, torn-write, error and interrupt point (LD_PRELOAD interposer); all power-loss states of the recorded call log"
LEVEL_NOTE = ("Every call that changes the file system, in every save of a run, is hit with every fault kind; the directory left behind is judged by loading it with the real loader. "
              "Power loss: every prefix of metadata operations with unsynced data dropped, torn or zeroed. One state size per scenario.")
RULE = ("a case is one (scenario, fault kind); each file-system call index is one execution in a forked process; distinct_nontrivial counts distinct (scenario, fault, call) outcomes; "
        "operations counts file-system calls")
ASSUMPTIONS = ["rename is atomic; after a power loss metadata operations survive in order, data only if synced",
               "no other checkpoint is named like the target plus '.temp'"]
CPU_LIMIT = 900
OFF, COUNT, CRASH_BEFORE, CRASH_AFTER, TORN, FAIL, FOREVER, SHORT, INTR, SHORT_FAIL = range(10)

FAULTS = [("crash_before", CRASH_BEFORE, 0, 0), ("crash_after", CRASH_AFTER, 0, 0), ("torn_one", TORN, 0, 0), ("torn_half", TORN, 0, 1), ("torn_allbutone", TORN, 0, 2),
          ("fail_eio", FAIL, errno.EIO, 0), ("fail_enospc", FAIL, errno.ENOSPC, 0), ("full_disk", FOREVER, errno.ENOSPC, 0), ("short_write", SHORT, 0, 1),
          ("short_then_enospc", SHORT_FAIL, errno.ENOSPC, 1), ("interrupt", INTR, 0, 0), ("fail_eacces", FAIL, errno.EACCES, 0)]

CFG = dict(kinds="UN", n_active=4, n_effective=8, n_total=6, seed=2, n_max_steps=2)


def lib():
    L = ctypes.CDLL(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "faultfs.so"))
    L.faultfs_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    L.faultfs_count.restype = ctypes.c_long
    L.faultfs_hit.restype = ctypes.c_long
    L.faultfs_lastop.restype = ctypes.c_char_p
    if "faultfs" not in os.environ.get("LD_PRELOAD", ""):
        raise RuntimeError("interposer is not loaded")
    return L


def cases(tier):
    names = ["pmc_3.state", "noext", "a.b.c", "x.temp"] if tier == "quick" else ["pmc_3.state", "noext", "a.b.c", "x.temp", ".hidden", "with space.state", "pmc.temp.state"]
    for f in FAULTS:
        for sc in ("run", "rerun"):
            if sc == "rerun" and f[0] in ("torn_one", "torn_allbutone", "fail_eacces") and tier == "quick":
                continue
            nsh = 2 if tier == "quick" else 4
            for sh in range(nsh):
                yield dict(scenario=sc, name="pmc", fault=f[0], shard=[sh, nsh])
    for nm in names:
        for sc in ("first", "over"):
            for f in FAULTS:
                yield dict(scenario=sc, name=nm, fault=f[0])
            yield dict(scenario=sc, name=nm, fault="power")
    for pre in (False, True):
        yield dict(scenario="over", name="pmc_3.state", fault="pickle", pre=pre)
    for f in ("crash_before", "torn_half", "full_disk"):
        yield dict(scenario="over", name="pmc_3.state", fault=f, pre=True)
    yield dict(scenario="run", name="pmc", fault="power")
    yield dict(scenario="rerun", name="pmc", fault="power")


def state_digest(s):
    parts = [sorted(k for k in s.__dict__ if k not in ("pbar", "pool", "distribute"))]
    r = s.results
    for k in sorted(r):
        v = r[k]
        parts.append(np.asarray(v) if not isinstance(v, (list, tuple)) or len(v) == 0 or np.ndim(v[0]) else np.asarray(v))
    parts += [s.t, int(s.calls), repr(s.evidence()), s.n_effective, s.warmup, np.asarray(s.prior_samples)]
    for p in s.flow.flow.parameters():
        parts.append(p.detach().numpy())
    return digest(*parts)


def load_digest(path, cfg):
    """Digest of the state in a checkpoint; None if it is not a complete state."""
    with quiet():
        s, _, _ = make_sampler(dict(cfg, seed=99))
        try:
            s.load_state(path)
            return state_digest(s)
        except Exception:  # noqa: BLE001
            return None


class Ctx:
    """A sampler with two consecutive states."""

    def __init__(self, cfg):
        with quiet():
            self.s, _, self.like = make_sampler(cfg)
            self.s.run(n_total=cfg["n_total"], n_evidence=0, progress=False)
            self.cfg = cfg
            self.a = state_digest(self.s)


OTHERS = ["pmc_1.state", "pmc_2.state", "other.state", "pmc_3.state.bak", "pmc_3.old", "noext.state", "x.state", "a.b.state", "a.b"]


def in_child(fn, logpath=None):
    """Run fn in a forked process; returns the exit status (77: died at the injected crash)."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.signal(signal.SIGINT, signal.default_int_handler)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            code = fn()
        except BaseException as e:  # noqa: BLE001
            try:
                sys.stderr.write("child: %r\n" % (e,))
            finally:
                code = 4
        finally:
            os._exit(code if isinstance(code, int) else 5)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


REPORTED, RETURNED, BROKEN_AFTER, CHANGED = 10, 11, 12, 13


def attempt(L, act, after, root, k, fault, logfd=-1):
    """Body of the child: arm, act, disarm, then require that the sampler still works."""
    name, mode, err, frac = fault

    def body():
        with quiet():
            L.faultfs_arm(root.encode(), k, mode, err, logfd, frac)
            try:
                act()
                out = RETURNED
            except (OSError, KeyboardInterrupt):
                out = REPORTED
            finally:
                hit, op = L.faultfs_hit(), L.faultfs_lastop().decode()
                L.faultfs_disarm()
            if hit == 0:
                return 20                      # fewer calls than k
            r = after(out)
            if r:
                return r
            if out == RETURNED and op == "fsync" and mode in (FAIL, FOREVER):
                return 14
            return out
    return in_child(body)


def reference(L, act, root, log=False):
    """Fault-free execution in a child: number of calls (and the call log)."""
    fd, lp = -1, None
    if log:
        lp = root + ".log"
        fd = os.open(lp, os.O_CREAT | os.O_RDWR | os.O_TRUNC)
    r, w = os.pipe()

    def body():
        with quiet():
            L.faultfs_arm(root.encode(), -1, COUNT, 0, fd, 0)
            act()
            n = L.faultfs_count()
            L.faultfs_disarm()
        os.write(w, str(n).encode())
        return 0
    code = in_child(body)
    os.close(w)
    n = os.read(r, 100).decode()
    os.close(r)
    if fd >= 0:
        os.close(fd)
    if code != 0:
        raise AssertionError("fault-free save fails (status %d)" % code)
    ops = parse(open(lp, "rb").read()) if log else None
    if lp:
        os.unlink(lp)
    return int(n), ops


def parse(b):
    out, p = [], 0
    while p < len(b):
        e = b.index(b"\n", p)
        op, ino, off, ln, l1, l2, dl = b[p:e].split()
        p = e + 1
        l1, l2, dl = int(l1), int(l2), int(dl)
        p1 = b[p:p + l1].decode()
        p2 = b[p + l1:p + l1 + l2].decode()
        data = b[p + l1 + l2:p + l1 + l2 + dl]
        p += l1 + l2 + dl
        out.append((op.decode(), int(ino), int(off), int(ln), p1, p2, data))
    return out


class Judge:
    """Decides whether a file holds a complete state, remembering verdicts by content."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.memo = {}

    def __call__(self, data):
        h = digest(np.frombuffer(data, dtype=np.uint8))
        if h not in self.memo:
            with scratch() as d:
                p = os.path.join(d, "f")
                with open(p, "wb") as f:
                    f.write(data)
                self.memo[h] = load_digest(p, self.cfg)
        return self.memo[h]


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def restore(root, snap, emptydirs=()):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for p, b in snap.items():
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(b)


def run_case(case, rec):
    cfg = dict(CFG, precondition=bool(case.get("pre")))
    L = lib()
    with scratch() as d:
        root = os.path.join(d, "root")
        os.makedirs(root)
        judge = Judge(cfg)
        if case["scenario"] in ("first", "over"):
            direct(case, cfg, L, root, judge, rec)
        else:
            in_run(case, cfg, L, root, judge, rec)


def fault_of(case):
    return [f for f in FAULTS if f[0] == case["fault"]][0]


def direct(case, cfg, L, root, judge, rec):
    ctx = Ctx(cfg)
    s = ctx.s
    sub = "deep/er" if case["scenario"] == "first" else "st"
    target = os.path.join(sub, case["name"])
    path = os.path.join(root, target)
    before = {}
    with quiet():
        if case["scenario"] == "over":
            os.makedirs(os.path.dirname(path))
            for o in OTHERS + [case["name"]]:
                s.save_state(os.path.join(root, sub, o))
            before = {k: v for k, v in snapshot(root).items() if os.path.basename(k) in OTHERS + [case["name"]]}
            if set(before) != {os.path.join(sub, o) for o in OTHERS + [case["name"]]}:
                return rec.fail("saving one checkpoint after another lost some", present=sorted(before))
            for k, v in before.items():
                if judge(v) != ctx.a:
                    return rec.fail("a saved checkpoint does not hold the state of the sampler", file=k)
        s.run(n_total=10 * cfg["n_total"], n_evidence=0, progress=False)
    b = state_digest(s)
    if b == ctx.a:
        return rec.fail("harness: the two states are the same")
    arg = path if len(case["name"]) % 2 else Path(path)

    def act():
        s.save_state(arg)

    def verdict(tag, k, files, status):
        ok = {b} if status == RETURNED else ({ctx.a, b} if before else {b, "absent"})
        got = judge(files[target]) if target in files else "absent"
        if got not in ok:
            what = "is missing" if got == "absent" else "is not a complete state" if got is None else "holds the old state although saving returned normally"
            rec.fail("after %s at file-system call %d the checkpoint %s" % (tag, k, what), scenario=case["scenario"], name=case["name"])
            return False
        for o, v in before.items():
            if o != target and files.get(o) != v:
                rec.fail("after %s at call %d another checkpoint was changed or lost" % (tag, k), other=o, name=case["name"])
                return False
        rec.state(case["scenario"], case["name"], case.get("pre"), tag, k, status, got == b)
        return True

    def after(out):
        if state_digest(s) != b:
            return CHANGED
        try:
            with quiet():
                s.save_state(arg)
        except BaseException as e:  # noqa: BLE001
            sys.stderr.write("child: %r\n" % (e,))
            return BROKEN_AFTER
        return 0

    if case["fault"] == "power":
        n, ops = reference(L, act, root, log=True)
        rec.trace()
        rec.step(n)
        new = snapshot(root)
        if target not in new or judge(new[target]) != b:
            return rec.fail("after a normal save the checkpoint does not hold the state of the sampler")
        return power(before, ops, root, {target: ({ctx.a, b} if before else {b, "absent"})}, judge, rec, case)
    if case["fault"] == "pickle":
        return pickling(ctx, s, act, path, before, root, target, judge, rec, b)

    n, _ = reference(L, act, root)
    rec.step(n)
    fault = fault_of(case)
    for k in range(n + 8):
        restore(root, before)
        if fault[1] in (CRASH_BEFORE, CRASH_AFTER, TORN):
            status = attempt(L, act, lambda out: 0, root, k, fault)
            files = snapshot(root)
        else:
            # the state left by the fault itself, then (second execution) whether the sampler can go on
            status = attempt(L, act, lambda out: 0, root, k, fault)
            files = snapshot(root)
            if status in (REPORTED, RETURNED, 14):
                st2 = attempt(L, act, after, root, k, fault)
                if st2 == CHANGED:
                    return rec.fail("a failed save changed the sampler (%s at call %d)" % (fault[0], k))
                if st2 == BROKEN_AFTER:
                    return rec.fail("after a failed save the sampler cannot save again (%s at call %d)" % (fault[0], k))
                if st2 in (REPORTED, RETURNED) and judge(snapshot(root).get(target, b"")) != b:
                    return rec.fail("saving again after a failed save does not store the state (%s at call %d)" % (fault[0], k))
        if status == 20:
            break
        rec.trace()
        rec.step(1)
        if status == 14:
            return rec.fail("a failed sync (%s at call %d) is not reported" % (fault[0], k))
        if status not in (77, REPORTED, RETURNED):
            return rec.fail("saving ended abnormally (status %d) after %s at call %d" % (status, fault[0], k))
        if not verdict(fault[0], k, files, status):
            return
    if k < 3:
        return rec.fail("harness: only %d file-system calls seen" % k)
    rec.sample = dict(case, file_system_calls=k)


class Bomb:
    """An object of the user that cannot be pickled at the n-th attempt."""
    count = 0
    at = -1
    exc = None

    def __reduce__(self):
        Bomb.count += 1
        if Bomb.count - 1 == Bomb.at:
            raise Bomb.exc("injected")
        return (Bomb, ())


def pickling(ctx, s, act, path, before, root, target, judge, rec, b):
    holders = [s.prior, s.log_likelihood.f if hasattr(s.log_likelihood, "f") else s.prior]
    for h, exc in itertools.product(holders, (RuntimeError, TypeError, KeyboardInterrupt, MemoryError)):
        h.bombs = [Bomb()]
        for at in range(4):
            restore(root, before)
            Bomb.count, Bomb.at, Bomb.exc = 0, at, exc
            rec.trace()
            rec.step(1)
            try:
                with quiet():
                    act()
                out = RETURNED
            except (exc, Exception):  # noqa: B014
                out = REPORTED
            reached = Bomb.count > at
            Bomb.at = -1
            files = snapshot(root)
            got = judge(files.get(target, b""))
            if reached and out == RETURNED and got != b:
                rec.fail("an object that cannot be stored makes the save fail silently")
                break
            if out == REPORTED and got not in (ctx.a, b):
                rec.fail("a save that failed on an unstorable object destroyed the previous checkpoint", exception=exc.__name__)
                break
            if state_digest(s) != b:
                rec.fail("a failed save changed the sampler", exception=exc.__name__)
                break
            with quiet():
                act()
            if judge(snapshot(root).get(target, b"")) != b:
                rec.fail("cannot save again after a failed save", exception=exc.__name__)
                break
            rec.state(exc.__name__, at, out, reached)
            if not reached:
                break
        del h.bombs
    rec.sample = dict(fault="pickle", exceptions=4)


def in_run(case, cfg, L, root, judge, rec):
    out = os.path.join(root, "out")
    before = {}
    with quiet():
        if case["scenario"] == "rerun":
            s0, _, _ = make_sampler(cfg, output_dir=out, output_label="pmc")
            s0.run(n_total=cfg["n_total"], n_evidence=0, progress=False, save_every=2)
        else:
            s0 = None
    before = {k: v for k, v in snapshot(root).items() if k.endswith(".state")}
    if case["scenario"] == "rerun" and os.path.join("out", "pmc_final.state") not in before:
        return rec.fail("no final checkpoint after a run with saving")

    def act():
        if s0 is None:
            s, _, _ = make_sampler(cfg, output_dir=Path(out), output_label="pmc")
            holder[0] = s
            s.run(n_total=cfg["n_total"], n_evidence=0, progress=False, save_every=1)
        else:
            holder[0] = s0
            np.random.seed(5)
            torch.manual_seed(5)
            s0.run(n_total=3 * cfg["n_total"], n_evidence=0, progress=False, save_every=1)
    holder = [None]

    def after(outc):
        s = holder[0]
        try:
            with quiet():
                s.run(n_total=4 * cfg["n_total"], n_evidence=0, progress=False, save_every=1)
        except BaseException as e:  # noqa: BLE001
            sys.stderr.write("child: %r\n" % (e,))
            return BROKEN_AFTER
        return 0

    n, ops = reference(L, act, root, log=case["fault"] == "power")
    rec.step(n)
    ref = {k: v for k, v in snapshot(root).items() if k.endswith(".state")}
    if not ref or os.path.join("out", "pmc_final.state") not in ref:
        return rec.fail("a run with saving leaves no final checkpoint", files=sorted(ref))
    allowed = {}
    for k, v in ref.items():
        g = judge(v)
        if g is None:
            return rec.fail("a checkpoint of an undisturbed run is not a complete state", file=k)
        allowed[k] = {g}
    for k, v in before.items():
        allowed.setdefault(k, set()).add(judge(v))
    for k in ref:
        if k not in before:
            allowed[k] = allowed[k] | {"absent"}
    if case["fault"] == "power":
        rec.trace()
        return power(before, ops, root, allowed, judge, rec, case)
    fault = fault_of(case)
    lo, step = case["shard"]
    seen = 0
    for k in range(lo, n, step):
        restore(root, before)
        simple = fault[1] in (CRASH_BEFORE, CRASH_AFTER, TORN, SHORT)
        status = attempt(L, act, (lambda o: 0) if simple or (k // step) % 4 else after, root, k, fault)
        if status == 20:
            break
        rec.trace()
        rec.step(1)
        seen += 1
        if status == BROKEN_AFTER:
            return rec.fail("after a failed save (%s at call %d) the run cannot be continued" % (fault[0], k))
        if status == 14:
            return rec.fail("a failed sync (%s at call %d) is not reported" % (fault[0], k))
        if status not in (77, REPORTED, RETURNED):
            return rec.fail("run ended abnormally (status %d) after %s at call %d" % (status, fault[0], k))
        if not simple and not (k // step) % 4:
            continue                                # the directory now holds the continued run
        files = snapshot(root)
        for f in set(files) | set(allowed):
            if not f.endswith(".state"):
                continue
            got = judge(files[f]) if f in files else "absent"
            if got not in allowed.get(f, {"absent"}):
                return rec.fail("after %s at file-system call %d of the run the checkpoint %s is %s" % (
                    fault[0], k, f, "missing" if got == "absent" else "not a complete state" if got is None else "not one of its states"))
        rec.state(case["scenario"], fault[0], k, sorted((f, digest(np.frombuffer(v, dtype=np.uint8))) for f, v in files.items() if f.endswith(".state")))
        # the newest surviving checkpoint can be resumed
        if simple and seen % 10 == 1:
            done = [f for f in files if f.endswith(".state")]
            if done:
                best = max(done, key=lambda f: (f.endswith("final.state"), int("".join(c for c in os.path.basename(f) if c.isdigit()) or 0)))
                with quiet():
                    s2, _, _ = make_sampler(cfg, output_dir=Path(out), output_label="pmc")
                    s2.run(n_total=cfg["n_total"], n_evidence=0, progress=False, resume_state_path=os.path.join(root, best))
    rec.sample = dict(case, file_system_calls=n, saves=len(ref))


def power(before, ops, root, allowed, judge, rec, case):
    """All states a power loss may leave: metadata operations survive in order (any prefix), data only if synced."""
    META = ("create", "trunc", "rename", "unlink", "link", "open", "mkdir")
    memo = {}
    inodes0 = {}
    for i, (p, v) in enumerate(before.items()):
        inodes0[os.path.join(root, p)] = -(i + 1)
    base = {-(i + 1): v for i, (p, v) in enumerate(before.items())}
    n = len(ops)
    for crash in range(n + 1):
        done = ops[:crash]
        metas = [i for i, o in enumerate(done) if o[0] in META]
        barrier = max([i for i, o in enumerate(done) if o[0] == "dirsync"] or [-1])
        for cutm in range(len(metas) + 1):
            if any(m <= barrier for m in metas[cutm:]):
                continue
            last = metas[cutm - 1] if cutm else -1
            for lost in ("none", "half", "all", "zero"):
                # replay: names by metadata prefix, contents by sync state
                names = dict(inodes0)
                content = dict(base)
                synced = {k: v for k, v in base.items()}
                alias = {}
                for i, (op, ino, off, ln, p1, p2, data) in enumerate(done):
                    live = i <= last
                    if op in ("create", "open", "trunc"):
                        key = ino
                        if op != "create":
                            key = names.get(p1, ino) if ino not in content else ino
                            alias[ino] = key
                        if op == "create":
                            content[ino] = b""
                            synced[ino] = b""
                        if op == "trunc":
                            content[key] = b""
                            if live:
                                synced[key] = b""
                        if op == "create" and live:
                            names[p1] = ino
                    elif op == "write":
                        key = alias.get(ino, ino)
                        c = content.get(key, b"")
                        c = c + b"\0" * (off - len(c))
                        content[key] = c[:off] + data + c[off + len(data):]
                    elif op == "ftruncate":
                        key = alias.get(ino, ino)
                        content[key] = content.get(key, b"")[:off].ljust(off, b"\0")
                    elif op == "fsync":
                        key = alias.get(ino, ino)
                        synced[key] = content.get(key, b"")
                    elif op == "rename" and live:
                        if p1 in names:
                            names[p2] = names.pop(p1)
                    elif op == "unlink" and live:
                        names.pop(p1, None)
                    elif op == "link" and live:
                        if p1 in names:
                            names[p2] = names[p1]
                files = {}
                for p, key in names.items():
                    full, syn = content.get(key, b""), synced.get(key, b"")
                    if full == syn or lost == "all":
                        b = syn if lost == "all" else full
                    elif lost == "none":
                        b = full
                    elif lost == "half":
                        b = full[:len(syn) + (len(full) - len(syn)) // 2] if full[:len(syn)] == syn else full[:len(full) // 2]
                    else:
                        b = syn + b"\0" * max(0, len(full) - len(syn))
                    files[os.path.relpath(p, root)] = b
                rec.step(1)
                rec.trace()
                key = digest(sorted((f, digest(np.frombuffer(v, dtype=np.uint8))) for f, v in files.items()))
                if key in memo:
                    continue
                memo[key] = True
                rec.state(case["scenario"], case["name"], "power", key)
                for f, ok in allowed.items():
                    got = judge(files[f]) if f in files else "absent"
                    if got not in ok:
                        return rec.fail("after a power loss following file-system call %d (metadata up to %d, unsynced data: %s) the checkpoint %s is %s" % (
                            crash, last, lost, f, "missing" if got == "absent" else "not a complete state" if got is None else "not one of its states"),
                            operations=[o[0] for o in done])
                for f, v in before.items():
                    if f not in allowed and files.get(f) != v:
                        return rec.fail("a power loss damages another checkpoint", other=f)
    rec.sample = dict(case, operations=[o[0] for o in ops][:40], power_loss_states=len(memo))
