"""C15: the MPI pool returns ordered results, each task once, under every schedule."""
import threading

import dill
import numpy as np

from .core import digest
from .env import quiet

PROPERTY = "C15"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the real pool code of master and workers under a controlled scheduler and communicator: every interleaving of communication calls and every matching of messages"
LEVEL_NOTE = ("All schedules of master and worker threads at communication calls (up to commuting steps), both buffered and synchronous standard sends, every choice among arrived messages; a fair scheduler bounds "
              "polling. Up to 3 workers, up to 5 tasks, up to two consecutive maps.")
RULE = "a case is one (workers, tasks per map, send semantics); every schedule is executed; states are distinct (schedule prefix) communication states, transitions are communication calls"
ASSUMPTIONS = ["MPI point-to-point semantics: reliable, non-overtaking per pair", "tasks do not raise",
               "between two polls of the master that find nothing some other process makes a step if it can (fairness)"]
CPU_LIMIT = 1500


class Abort(BaseException):
    pass


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []             # (chosen, alternatives)
        self.sem = {}
        self.pred = {}
        self.vis = {}
        self.last = 0               # last worker that made a visible step since the master's last one
        self.dead = False
        self.error = None
        self.finished = set()
        self.steps = 0
        self.lock = threading.Lock()
        self.done = threading.Event()

    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n))
        return c

    def start(self, bodies):
        ths = []
        for tid, body in enumerate(bodies):
            self.sem[tid] = threading.Semaphore(0)
            self.pred[tid] = lambda: True

            def go(tid=tid, body=body):
                self.sem[tid].acquire()
                try:
                    if not self.dead:
                        body()
                except Abort:
                    pass
                except BaseException as e:  # noqa: BLE001
                    if self.error is None:
                        self.error = e
                    self.dead = True
                finally:
                    self.finished.add(tid)
                    self.pred.pop(tid, None)
                    self.next()
            t = threading.Thread(target=go, daemon=True)
            ths.append(t)
            t.start()
        self.next()
        self.done.wait(120)
        for t in ths:
            t.join(20)

    def next(self):
        """Hand the baton to one enabled thread."""
        if not self.pred:
            self.done.set()
            return
        if self.dead:
            tid = min(self.pred)
            self.sem[tid].release()
            return
        en = [t for t in sorted(self.pred) if self.pred[t]()]
        if not en:
            if self.error is None:
                self.error = Deadlock("no process can make a step: %s are blocked" % ", ".join("master" if t == 0 else "worker %d" % t for t in sorted(self.pred)))
            self.dead = True
            tid = min(self.pred)
            self.sem[tid].release()
            return
        # steps that commute with every other process's (start, completed sends, taking a task) need no choice
        local = [t for t in en if not self.vis.get(t)]
        if local:
            tid = local[0]
        else:
            # visible steps of workers (posting a result) commute with each other: one order per step of the master
            can = [t for t in en if t == 0 or t > self.last] or en
            tid = can[self.choose(len(can))]
            self.last = tid
        self.sem[tid].release()

    def point(self, tid, pred=None, visible=False):
        """A communication call: continue once `pred` holds; if visible, every other process may step first."""
        if self.dead:
            raise Abort
        self.steps += 1
        if self.steps > 4000:
            self.error = self.error or Deadlock("the pool keeps polling without progress")
            self.dead = True
            raise Abort
        self.pred[tid] = pred or (lambda: True)
        self.vis[tid] = visible
        self.next()
        self.sem[tid].acquire()
        if self.dead:
            raise Abort


class Message:
    def __init__(self, src, dst, tag, data):
        self.src, self.dst, self.tag, self.data = src, dst, tag, data
        self.matched = False


class Status:
    source = -1
    tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Request:
    def __init__(self, net, me, msg):
        self.net, self.me, self.msg = net, me, msg

    def wait(self, status=None):
        self.net.sched.point(self.me, lambda: self.msg.matched)
        return None

    Wait = wait

    def test(self, status=None):
        self.net.sched.point(self.me, visible=True)
        return (self.msg.matched, None)


class Net:
    def __init__(self, n, sched, buffered):
        self.n, self.sched, self.buffered = n, sched, buffered
        self.q = []
        self.polled = [None] * n        # number of steps of the others at the last poll that found nothing
        self.moves = [0] * n         # steps of each process


class Comm:
    def __init__(self, net, rank):
        self.net, self.rank, self.size = net, rank, net.n

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _match(self, source, tag):
        out, seen = [], set()
        for m in self.net.q:
            if m.dst == self.rank and not m.matched and source in (-1, m.src) and tag in (-1, m.tag):
                if m.src not in seen:           # non-overtaking: only the first matching message of a source
                    seen.add(m.src)
                    out.append(m)
        return out

    def _post(self, obj, dest, tag):
        m = Message(self.rank, dest, tag, dill.dumps(obj))
        self.net.q.append(m)
        self.net.moves[self.rank] += 1
        return m

    def send(self, obj, dest, tag=0):
        self.net.sched.point(self.rank, visible=self.rank != 0)
        m = self._post(obj, dest, tag)
        if not self.net.buffered:
            self.net.sched.point(self.rank, lambda: m.matched)

    def ssend(self, obj, dest, tag=0):
        self.net.sched.point(self.rank, visible=self.rank != 0)
        m = self._post(obj, dest, tag)
        self.net.sched.point(self.rank, lambda: m.matched)

    def bsend(self, obj, dest, tag=0):
        self.net.sched.point(self.rank, visible=self.rank != 0)
        self._post(obj, dest, tag)

    def isend(self, obj, dest, tag=0):
        self.net.sched.point(self.rank, visible=self.rank != 0)
        return Request(self.net, self.rank, self._post(obj, dest, tag))

    issend = isend

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        self.net.sched.point(self.rank, lambda: bool(self._match(source, tag)), visible=self.rank == 0)
        ms = self._match(source, tag)
        m = ms[self.net.sched.choose(len(ms))]
        m.matched = True
        self.net.q.remove(m)
        self.net.moves[self.rank] += 1
        if status is not None:
            status.source, status.tag = m.src, m.tag
        return dill.loads(m.data)

    def Probe(self, source=-1, tag=-1, status=None):
        self.net.sched.point(self.rank, lambda: bool(self._match(source, tag)), visible=self.rank == 0)
        ms = self._match(source, tag)
        if status is not None:
            m = ms[self.net.sched.choose(len(ms))]
            status.source, status.tag = m.src, m.tag
        return True

    probe = Probe

    def Iprobe(self, source=-1, tag=-1, status=None):
        net = self.net
        others = sum(net.moves) - net.moves[self.rank]
        last = net.polled[self.rank]
        # after a poll that found nothing, wait until another process has made a step (fairness) - unless nobody can
        net.sched.point(self.rank, (lambda: sum(net.moves) - net.moves[self.rank] > last or bool(self._match(source, tag))) if last == others else None, visible=True)
        ms = self._match(source, tag)
        if not ms:
            net.polled[self.rank] = sum(net.moves) - net.moves[self.rank]
            return False
        net.polled[self.rank] = None
        if status is not None:
            m = ms[self.net.sched.choose(len(ms))]
            status.source, status.tag = m.src, m.tag
        return True

    iprobe = Iprobe


class FakeMPI:
    ANY_SOURCE = -1
    ANY_TAG = -1
    Status = Status
    COMM_WORLD = None


EXEC = []


def task_a(x):
    EXEC.append(("a", tag_of(x)))
    return ("a", tag_of(x))


def task_b(x):
    EXEC.append(("b", tag_of(x)))
    return None if tag_of(x) == 1 else [tag_of(x) * 10]


def tag_of(x):
    return int(np.asarray(x).reshape(-1)[0])


def forms(n, form):
    if form == "gen":
        return (i for i in range(n))
    if form == "rows":
        return np.arange(2 * n).reshape(n, 2) // 2 * np.ones((1, 2), int) if n else np.zeros((0, 2))
    if form == "tuple":
        return tuple(range(n))
    return list(range(n))


def program(comm, maps, form, how, out):
    """What the user's script does, in every process."""
    import pocomc.parallel as par
    registered = []

    class AE:
        @staticmethod
        def register(f, *a, **k):
            registered.append((f, a, k))
            return f
    try:
        pool = par.MPIPool(comm=comm)
    except SystemExit:
        out["exited"].append(comm.rank)
        return
    fs = [task_a, task_b]
    if how == "with":
        with pool:
            for k, n in enumerate(maps):
                out["results"].append(pool.map(fs[k % 2], forms(n, form)))
    else:
        for k, n in enumerate(maps):
            out["results"].append(pool.map(fs[k % 2], forms(n, form)))
        pool.close()
    out["pool"].append(pool)


def execute(prefix, workers, maps, buffered, form, how, finish):
    import pocomc.parallel as par
    sched = Sched(prefix)
    net = Net(workers + 1, sched, buffered)
    out = dict(results=[], exited=[], pool=[])
    handlers = []

    class AE:
        @staticmethod
        def register(f, *a, **k):
            handlers.append((threading.current_thread(), f, a, k))
            return f
    del EXEC[:]
    old_mpi, old_ae = par.MPI, getattr(par, "atexit", None)
    par.MPI = FakeMPI
    par.atexit = AE
    try:
        def body(r):
            def go():
                comm = Comm(net, r)
                program(comm, maps, form, how, out)
                if finish:             # interpreter exit of this process
                    me = threading.current_thread()
                    for th, f, a, k in reversed(handlers):
                        if th is me:
                            f(*a, **k)
            return go
        sched.start([body(r) for r in range(workers + 1)])
    finally:
        par.MPI, par.atexit = old_mpi, old_ae
    return sched, net, out


def cases(tier):
    q = tier == "quick"
    big = [(3, [3, 2]), (3, [4]), (2, [3, 3]), (2, [5]), (4, [3])] if q else [(3, [3, 2]), (3, [4]), (2, [3, 3]), (2, [6]), (4, [3]), (3, [4, 1]), (2, [4, 3]), (3, [3, 3]), (2, [2, 2, 2])]
    for w, maps in big:
        for buffered in (True, False):
            for sh in range(8):
                yield dict(workers=w, maps=maps, buffered=buffered, form="list", how="with", shard=sh)
    small = [(1, [0]), (1, [1]), (1, [3]), (1, [2, 2]), (2, [0]), (2, [1]), (2, [2]), (2, [3]), (2, [1, 1]), (2, [2, 1]), (3, [1]), (3, [2]), (1, [0, 1]), (2, [0, 2, 0]), (1, [5]), (3, [1, 1]),
             (4, [1]), (4, [2])]
    for w, maps in small:
        for buffered in (True, False):
            for form in ("list", "gen", "rows", "tuple"):
                if form != "list" and (w, maps) not in ((1, [3]), (2, [2]), (2, [1, 1]), (1, [0])):
                    continue
                for how in ("with", "plain"):
                    yield dict(workers=w, maps=maps, buffered=buffered, form=form, how=how, shard=None)
    yield dict(kind="alone")
    yield dict(kind="sampler")


def run_case(case, rec):
    if case.get("kind") == "alone":
        return alone(rec)
    if case.get("kind") == "sampler":
        return sampler(rec)
    w, maps = case["workers"], case["maps"]
    want = []
    for k, n in enumerate(maps):
        want.append([("a", i) if k % 2 == 0 else (None if i == 1 else [i * 10]) for i in range(n)])
    runs = sorted(("ab"[k % 2], i) for k, n in enumerate(maps) for i in range(n))
    stack = [()]
    n_exec = 0
    while stack:
        prefix = stack.pop()
        sched, net, out = execute(prefix, w, maps, case["buffered"], case["form"], case["how"], True)
        skip = False
        if case["shard"] is not None and len(sched.trace) >= 3:
            h = int(digest([c for c, _ in sched.trace[:3]]), 16) % 8
            skip = h != case["shard"]
        if not skip:
            n_exec += 1
            rec.trace()
            rec.step(sched.steps)
            rec.state(digest(w, maps, case["buffered"], [c for c, _ in sched.trace][:12]))
            bad = None
            if sched.error is not None:
                bad = "%s: %s" % (type(sched.error).__name__, sched.error)
            elif [list(r) for r in out["results"]] != want:
                bad = "map returned %r instead of %r" % (out["results"], want)
            elif sorted(EXEC) != runs:
                bad = "tasks were not executed exactly once: %r" % (sorted(EXEC),)
            elif sorted(out["exited"]) != list(range(1, w + 1)):
                bad = "workers that stopped: %r of %d" % (sorted(out["exited"]), w)
            elif net.q:
                bad = "%d messages were never received (a worker was stopped more than once?)" % len(net.q)
            elif len(sched.finished) != w + 1:
                bad = "a process did not finish"
            if bad:
                rec.fail(bad, workers=w, tasks=maps, buffered=case["buffered"], schedule=[c for c, _ in sched.trace])
                return
        for i in range(len(prefix), len(sched.trace)):
            if case["shard"] is not None and skip and i >= 3:
                break
            c, n = sched.trace[i]
            base = tuple(x for x, _ in sched.trace[:i])
            for alt in range(n):
                if alt != c:
                    stack.append(base + (alt,))
    rec.sample = dict(case, schedules=n_exec)


def alone(rec):
    import pocomc.parallel as par
    old, oa = par.MPI, par.atexit
    par.MPI = FakeMPI

    class AE:
        @staticmethod
        def register(f, *a, **k):
            return f
    par.atexit = AE
    try:
        net = Net(1, Sched(()), True)
        rec.trace()
        rec.step(1)
        try:
            par.MPIPool(comm=Comm(net, 0))
        except ValueError:
            rec.state("a single process is rejected")
        else:
            rec.fail("a pool without workers is not rejected")
    finally:
        par.MPI, par.atexit = old, oa
    rec.sample = dict(kind="alone")


def sampler(rec):
    """A whole run distributed by the pool gives the results of the serial run."""
    from .c11 import diff, outcome
    from .env import make_sampler
    cfg = dict(kinds="UN", n_active=4, n_effective=8, n_total=8, n_max_steps=2, seed=3, hole="corner", blob="pair")
    with quiet():
        s, _, _ = make_sampler(cfg)
        s.run(n_total=8, n_evidence=0, progress=False)
    want = outcome(s)
    import pocomc.parallel as par
    for buffered in (True, False):
        for pat in range(6):
            prefix = tuple((pat * (i + 1) // 2) % 2 for i in range(60 if pat else 0))
            sched = Sched(prefix)
            sched.choose = (lambda pat, sched: (lambda n: 0 if n <= 1 else (pat * (sched.steps // 2 + 1)) % n))(pat, sched)
            sched.steps = -10 ** 7
            net = Net(3, sched, buffered)
            got = {}
            old, oa = par.MPI, par.atexit
            par.MPI = FakeMPI
            par.atexit = type("AE", (), dict(register=staticmethod(lambda f, *a, **k: f)))

            def master():
                with par.MPIPool(comm=Comm(net, 0)) as pool:
                    r, _, _ = make_sampler(cfg, pool=pool)
                    r.run(n_total=8, n_evidence=0, progress=False)
                    got["out"] = outcome(r)

            def worker(k):
                def go():
                    try:
                        par.MPIPool(comm=Comm(net, k))
                    except SystemExit:
                        got[k] = True
                return go
            try:
                with quiet():
                    sched.start([master, worker(1), worker(2)])
            finally:
                par.MPI, par.atexit = old, oa
            rec.trace()
            rec.step(sched.steps + 10 ** 7)
            if sched.error is not None:
                return rec.fail("sampling with the MPI pool fails: %s: %s" % (type(sched.error).__name__, sched.error))
            df = diff(want, got["out"])
            if df:
                return rec.fail("sampling with the MPI pool differs from serial sampling", fields=df)
            rec.state("sampler", buffered, pat)
