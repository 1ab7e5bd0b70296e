"""Ownership of the random number generator.

RngTap replaces the functions of the `numpy.random` module by wrappers.  A call is a *choice point*
(kind, ordinal).  By default it returns what the (seeded) generator returns; a *deviation*
{(kind, ordinal): alternative} replaces the answer by an extreme one that the generator may also
return.  The explorer enumerates deviations.
"""
import numpy as np

HI = 1.0 - 2.0 ** -53

UNIF = ("rand", "random", "random_sample", "ranf", "sample", "uniform")
NORM = ("randn", "standard_normal", "normal")
GAMMA = ("gamma", "standard_gamma", "chisquare", "exponential")
PICK = ("choice", "randint")
PERM = ("permutation", "shuffle")

ALPHABET = {
    "unif": ("lo", "hi", "mask:5"),
    "norm": ("zero", "far+", "far-"),
    "gamma": ("small", "large"),
    "pick": ("first", "last"),
}


class RngTap:
    def __init__(self, devs=None, script=None):
        self.devs = dict(devs or {})
        self.script = script or {}          # kind -> callable(idx, default_result, args, kwargs) or None
        self.count = {}
        self.points = []                    # (kind, ordinal, size)
        self.used = set()
        self.orig = {}

    def __enter__(self):
        for kind, names in (("unif", UNIF), ("norm", NORM), ("gamma", GAMMA), ("pick", PICK)):
            for n in names:
                f = getattr(np.random, n, None)
                if f is None:
                    continue
                self.orig[n] = f
                setattr(np.random, n, self._wrap(kind, n, f))
        return self

    def __exit__(self, *a):
        for n, f in self.orig.items():
            setattr(np.random, n, f)
        return False

    def _wrap(self, kind0, name, f):
        def call(*args, **kwargs):
            res = f(*args, **kwargs)
            kind = kind0
            if name == "choice" and kwargs.get("p", args[3] if len(args) > 3 else None) is None \
                    and np.ndim(args[0] if args else kwargs["a"]) == 0:
                kind = "boot"               # uniform picks out of range(n): the bootstrap of the evidence error
            i = self.count.get(kind, 0)
            self.count[kind] = i + 1
            if kind != "boot":
                self.points.append((kind, i, int(np.size(res))))
            alt = self.devs.get((kind, i))
            if alt is not None:
                self.used.add((kind, i))
                res = self._deviate(kind, name, alt, res, args, kwargs)
            s = self.script.get(kind)
            if s is not None:
                r = s(i, res, args, kwargs, name)
                if r is not None and name == "uniform":     # scripts answer with numbers in [0, 1)
                    lo = args[0] if len(args) > 0 else kwargs.get("low", 0.0)
                    hi = args[1] if len(args) > 1 else kwargs.get("high", 1.0)
                    r = lo + np.asarray(r) * (np.asarray(hi) - lo)
                if r is not None:
                    res = r
            return res
        return call

    @staticmethod
    def _like(res, value):
        if np.ndim(res) == 0:
            return type(res)(value) if isinstance(res, (float, int)) else np.asarray(value, dtype=np.asarray(res).dtype)[()]
        return np.full(np.shape(res), value, dtype=np.asarray(res).dtype)

    def _deviate(self, kind, name, alt, res, args, kwargs):
        if kind == "unif":
            v = {"lo": 0.0, "hi": HI, "mid": 0.5}.get(alt)
            if v is None and alt.startswith("mask:"):
                bits = int(alt[5:])
                flat = np.array([0.0 if (bits >> k) & 1 else HI for k in range(np.size(res))])
                return flat.reshape(np.shape(res))
            if name == "uniform":
                lo = args[0] if len(args) > 0 else kwargs.get("low", 0.0)
                hi = args[1] if len(args) > 1 else kwargs.get("high", 1.0)
                return np.broadcast_to(lo + v * (np.asarray(hi) - lo), np.shape(res)).copy()
            return self._like(res, v)
        if kind == "norm":
            if alt == "zero":
                return res * 0.0
            s = {"far+": 12.0, "far-": -12.0, "out+": 60.0, "out-": -60.0}[alt]
            return self._like(res, s)
        if kind == "gamma":
            return res * {"small": 1e-3, "large": 1e3}[alt]
        if kind == "pick" and name == "choice":
            a = args[0] if args else kwargs["a"]
            a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            p = kwargs.get("p", args[3] if len(args) > 3 else None)
            ok = np.arange(len(a)) if p is None else np.flatnonzero(np.asarray(p) > 0)
            if alt == "first":
                k = ok[0]
            elif alt == "last":
                k = ok[-1]
            elif alt == "light":
                k = ok[0] if p is None else ok[np.argmin(np.asarray(p)[ok])]
            elif alt == "heavy":
                k = ok[0] if p is None else ok[np.argmax(np.asarray(p)[ok])]
            elif alt == "spread":
                idx = ok[np.arange(np.size(res)) % len(ok)]
                return a[idx].reshape(np.shape(res))
            else:
                return res
            if np.ndim(res) == 0:
                return a[k]
            return np.broadcast_to(a[k], np.shape(res)).copy()
        return res


class Poison:
    """numpy.empty returns recognisable garbage, so that reading an unset element is deterministic."""

    def __init__(self, value=7.7e77):
        self.value = value

    def __enter__(self):
        self.orig = np.empty
        orig = self.orig
        val = self.value

        def empty(*a, **k):
            r = orig(*a, **k)
            try:
                if r.dtype.kind == "f":
                    r.fill(val)
                elif r.dtype.kind in "iu":
                    r.fill(113)
            except Exception:  # noqa: BLE001
                pass
            return r
        np.empty = empty
        return self

    def __exit__(self, *a):
        np.empty = self.orig
        return False


def streaks(pts, longest=400, keep=4):
    """Positions inside of a very long streak of equal requests (the bootstrap of the evidence error): only its ends are deviated."""
    skip = set()
    a = 0
    for b in range(1, len(pts) + 1):
        if b == len(pts) or (pts[b][0], pts[b][2]) != (pts[a][0], pts[a][2]):
            if b - a > longest:
                skip.update(range(a + keep, b - keep))
            a = b
    return skip


def explore(run, bound, alphabet=ALPHABET, kinds=None, point_filter=None, limit=None, shard=(0, 1)):
    """Deviation-bounded stateless exploration.

    run(devs) -> list of choice points [(kind, ordinal, size)] in the order they occurred.
    Enumerates every execution that departs from the default answers at most `bound` times.
    Yields nothing; returns (executions, capped)."""
    n = 0
    stack = [((), -1)]
    capped = False
    while stack:
        devs, last = stack.pop()
        if limit is not None and n >= limit:
            capped = True
            break
        pts = run(dict(devs))
        n += 1
        if pts is None or len(devs) >= bound:
            continue
        skip = streaks(pts)
        for pos in range(last + 1, len(pts)):
            if pos in skip:
                continue
            if not devs and pos % shard[1] != shard[0]:
                continue            # the first deviation decides which shard explores the subtree
            kind, i, size = pts[pos]
            if kinds is not None and kind not in kinds:
                continue
            if point_filter is not None and not point_filter(kind, i, pos, len(pts)):
                continue
            for alt in alphabet.get(kind, ()):
                stack.append((devs + (((kind, i), alt),), pos))
    return n, capped
