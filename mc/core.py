"""Common machinery of the checks: case enumeration, parallel execution, evidence, replay, reporting.

A check module (mc/cNN.py) provides

    PROPERTY = "CNN"
    LEVEL    = "model_checking" | "fault_enumeration" | ...
    RULE     = how cases are made, what makes one non-trivial
    ASSUMPTIONS = [...]
    def cases(tier) -> iterable of JSON-able dicts  (the whole bounded space, simplest first)
    def run_case(case, rec) -> None                  (executes the real code, reports to rec)

`rec` is a Recorder: rec.fail(message, **detail) for a violation; rec.state(key) for a distinct
state/outcome; rec.step(n) for transitions (environment answers or operations executed);
rec.trace(n) for executions of the implementation compared with the oracle.
"""
import ctypes
import hashlib
import importlib
import json
import multiprocessing.connection
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


STALL = 420     # seconds without any finished case


class Hang(BaseException):
    """The code under test used up its CPU budget for one operation (does not terminate)."""


class Skip(Exception):
    pass


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if hasattr(p, "tobytes"):
            h.update(str(getattr(p, "shape", "")).encode())
            h.update(p.tobytes())
        else:
            h.update(repr(p).encode())
        h.update(b"|")
    return h.hexdigest()


class Recorder:
    def __init__(self, case):
        self.case = case
        self.fails = []
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.nontrivial = 0
        self.sample = None
        self.known = []

    def fail(self, message, **detail):
        if len(self.fails) < 5:
            self.fails.append({"message": str(message), "detail": jsonable(detail)})

    def finding(self, key, message, **detail):
        """A violation that may be listed in known_findings.json; it is reported unless exactly this key is listed."""
        if key not in LISTED:
            self.fail(message, finding=key, **detail)
        elif key not in self.known:
            self.known.append(key)

    def state(self, *key):
        self.states.add(key[0] if len(key) == 1 and isinstance(key[0], str) else digest(*key))

    def step(self, n=1):
        self.transitions += int(n)

    def trace(self, n=1, nontrivial=None):
        self.traces += n
        self.evals += n
        self.nontrivial += n if nontrivial is None else int(nontrivial)

    @property
    def failed(self):
        return bool(self.fails)


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float) or o is None or isinstance(o, (int, str, bool)):
        return o
    return repr(o)


# ---------------------------------------------------------------------------------------------
class cpu_limit:
    """Raise Hang inside the block after `seconds` of user CPU time (not wall time: a loaded
    machine cannot turn a slow run into an alarm).  Not reentrant: the outermost one counts."""
    active = False

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.mine = not cpu_limit.active
        if self.mine:
            cpu_limit.active = True

            def onalarm(signum, frame):
                raise Hang("no termination after %gs of CPU time" % self.seconds)
            self.old = signal.signal(signal.SIGVTALRM, onalarm)
            signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)
        return self

    def __exit__(self, *a):
        if self.mine:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, self.old)
            cpu_limit.active = False
        return False


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if (REPO + "/") in (f.filename or "")] or list(tb)[-2:]
    return " <- ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(fr[-3:]))


def in_repo(e):
    """True if the exception was raised while the code under test was executing."""
    return any((REPO + "/") in (f.filename or "") for f in traceback.extract_tb(e.__traceback__))


_MOD = None
LISTED = {}


def _init(modname):
    global _MOD
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _MOD = importlib.import_module(modname)
    LISTED.clear()
    LISTED.update(load_known(_MOD.PROPERTY))


def _one(case):
    import numpy as np
    rec = Recorder(case)
    t = time.time()
    err = None
    try:
        with np.errstate(all="ignore"), cpu_limit(getattr(_MOD, "CPU_LIMIT", 300)):
            _MOD.run_case(case, rec)
    except Hang as e:
        rec.fail("operation does not terminate: %s" % e)
    except Skip:
        pass
    except Exception as e:  # noqa: BLE001
        if in_repo(e):
            rec.fail("%s raised by a supported operation: %s (%s)" % (type(e).__name__, e, short_tb(e)))
        elif isinstance(e, (MemoryError, OSError, ImportError)):
            err = "".join(traceback.format_exception(e))
        else:  # the oracle could not digest what the code under test returned
            rec.fail("malformed result: %s: %s (%s)" % (type(e).__name__, e, short_tb(e)),
                     traceback="".join(traceback.format_exception(e))[-1500:])
    return dict(case=case, fails=rec.fails, states=rec.states, transitions=rec.transitions,
                traces=rec.traces, evals=rec.evals, nontrivial=rec.nontrivial, sample=rec.sample,
                known=rec.known, err=err, t=time.time() - t)


def _many(cases):
    return [_one(c) for c in cases]


class Workers:
    """Forked worker processes, each fed with one chunk of cases at a time over a pipe; killed together with everything they started."""

    def __init__(self, n, modname):
        self.conns, self.pids = {}, []
        sys.stdout.flush()
        sys.stderr.flush()
        for _ in range(n):
            here, there = multiprocessing.connection.Pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # die with the parent
                    here.close()
                    for c in self.conns:
                        c.close()
                    _init(modname)
                    while True:
                        there.send_bytes(pickle.dumps(_many(there.recv())))
                except EOFError:
                    os._exit(0)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    sys.stderr.flush()
                    os._exit(70)
            there.close()
            self.conns[here] = pid
            self.pids.append(pid)

    def results(self, chunks):
        """Results of the chunks as they come; None if nothing comes for STALL seconds.  A worker that dies loses its chunk (reported as error)."""
        todo = list(chunks)[::-1]
        busy = {}
        for c in list(self.conns):
            if todo:
                busy[c] = todo.pop()
                c.send(busy[c])
        while busy:
            ready = multiprocessing.connection.wait(list(busy), STALL)
            if not ready:
                yield None
                return
            for c in ready:
                chunk = busy.pop(c)
                try:
                    out = pickle.loads(c.recv_bytes())
                except (EOFError, OSError):
                    pid = self.conns[c]
                    _, st = os.waitpid(pid, 0)
                    self.pids.remove(pid)
                    out = [dict(case=chunk[0], fails=[], states=set(), transitions=0, traces=0, evals=0, nontrivial=0, sample=None, known=[],
                                err="worker process died (status %d) in one of %d cases" % (st, len(chunk)), t=0.0)]
                else:
                    if todo:
                        busy[c] = todo.pop()
                        c.send(busy[c])
                yield out

    def kill(self):
        for pid in self.pids:
            for f in (os.killpg, os.kill):
                try:
                    f(pid, signal.SIGKILL)
                except OSError:
                    pass
        for pid in self.pids:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        self.pids = []
        for c in self.conns:
            c.close()


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {f["key"]: f for f in d.get("findings", []) if f["property"] == prop}


def run(modname, argv):
    """Run a check with all its scratch files below one directory, which is removed also when workers had to be killed."""
    base = tempfile.mkdtemp(prefix="mcverif-")
    old, tempfile.tempdir = tempfile.tempdir, base
    try:
        return run_checks(modname, argv)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(base, ignore_errors=True)


def run_checks(modname, argv):
    t0 = time.time()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check_tree()
    if argv[:1] == ["--replay"]:
        case = json.load(open(argv[1]))["case"]
        _init(modname)
        r = _one(case)
        print(json.dumps(r["fails"], indent=1))
        if r["err"]:
            print(r["err"])
        return 1 if r["fails"] else (2 if r["err"] else 0)

    known = load_known(prop)
    cs = list(mod.cases(tier))
    procs = min(getattr(mod, "PROCS", 8), os.cpu_count() or 1, max(1, len(cs)))
    tot = dict(transitions=0, traces=0, evals=0, nontrivial=0)
    states = set()
    samples = []
    fails = []
    errors = []
    seen_known = []
    slow = []
    done = 0
    chunk = getattr(mod, "CHUNK", None) or (1 if len(cs) < 5000 else 32)
    stuck = None
    pool = Workers(procs, modname)
    try:
        for out in pool.results([cs[k:k + chunk] for k in range(0, len(cs), chunk)]):
            if out is None:
                stuck = "no case finished for %d s: the code under test hangs without using CPU time (%d of %d cases done)" % (STALL, done, len(cs))
                break
            for r in out:
                done += 1
                for k in tot:
                    tot[k] += r[k]
                states |= r["states"]
                slow.append((r["t"], json.dumps(r["case"])[:120]))
                for k in r["known"]:
                    if k not in seen_known:
                        seen_known.append(k)
                if r["sample"] is not None and len(samples) < 4:
                    samples.append(r["sample"])
                if r["err"]:
                    errors.append((r["case"], r["err"]))
                if r["fails"]:
                    fails.append((r["case"], r["fails"]))
            if len(errors) > 3 or len(fails) >= 5:
                break
    finally:
        pool.kill()
    exhaustive = done == len(cs)
    if not samples:
        samples = [jsonable(c) for c in cs[:2]]

    # a violation must reproduce: the same case, replayed, has to fail again
    confirmed = []
    if fails:
        pool = Workers(min(3, len(fails)), modname)
        again = {}
        try:
            for out in pool.results([[c, c] for c, _ in fails[:3]]):
                for r in out or ():
                    if r["fails"]:
                        again[json.dumps(jsonable(r["case"]), sort_keys=True)] = True
        finally:
            pool.kill()
        for case, f in fails[:3]:
            if json.dumps(jsonable(case), sort_keys=True) in again:
                confirmed.append((case, f))
            else:
                print("NOTE: case did not fail again when replayed, dropped: %s %s" % (json.dumps(jsonable(case)), f))
    bad_known = [k for k in seen_known if k not in known]
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed,
              level=mod.LEVEL,
              coverage=dict(cases_enumerated=done, cases_total=len(cs), rule=mod.RULE, samples=jsonable(samples),
                            exhaustive=bool(exhaustive)),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(wall, 2), violations=len(confirmed))
    if mod.LEVEL == "model_checking":
        ev["coverage"].update(states=len(states), transitions=tot["transitions"],
                              traces_validated_against_impl=tot["traces"])
    else:
        ev["coverage"].update(evaluations=tot["evals"], distinct_nontrivial=len(states), operations=tot["transitions"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s tier=%s cases=%d/%d states=%d transitions=%d executions=%d exhaustive=%s wall=%.1fs" % (
        prop, tier, done, len(cs), len(states), tot["transitions"], tot["traces"], exhaustive, wall))
    if os.environ.get("MC_SLOW"):
        for t, c in sorted(slow, reverse=True)[:8]:
            print("   slow %.2fs %s" % (t, c))
    for k in seen_known:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    if bad_known:
        print("internal error: unlisted finding keys %r" % bad_known)
    if confirmed:
        for i, (case, f) in enumerate(confirmed):
            path = os.path.join(VERIF, "evidence", "%s.replay%s.json" % (prop, "" if i == 0 else str(i)))
            with open(path, "w") as fh:
                json.dump(dict(property=prop, case=jsonable(case), fails=f,
                               replay="bash check.sh %s --replay %s" % (prop, path)), fh, indent=1)
            for x in f[:2]:
                print("  %s  detail=%s" % (x["message"], json.dumps(x["detail"])[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if stuck:
        path = os.path.join(VERIF, "evidence", prop + ".replay.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, case=None, fails=[dict(message=stuck, detail={})], replay="bash check.sh %s" % prop), fh, indent=1)
        print("  " + stuck)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors or bad_known:
        for c, e in errors[:2]:
            print("HARNESS ERROR in case %s\n%s" % (json.dumps(jsonable(c)), e))
        return 3
    return 0


def check_tree():
    import pocomc
    if not os.path.realpath(pocomc.__file__).startswith(REPO + "/"):
        print("pocomc is imported from %s, not %s" % (pocomc.__file__, REPO))
        sys.exit(3)
