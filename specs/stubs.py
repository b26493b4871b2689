"""Contract stubs: an arbitrary time period known only by its contract."""
import datetime

from pyvc import and_, or_, not_, implies, if_, iff
from rocketry.core.time.base import TimePeriod, All, Any
from rocketry.pybox.time.interval import Interval

HI = datetime.datetime(2259, 12, 31)
LO = datetime.datetime(1970, 1, 4)


class StubPeriod(TimePeriod):
    """Any time period P with membership M.  Contract of the two rolls:

    rollforward(dt) = [l, r) with dt <= l < r, [l, r) inside M, no member in [dt, l)
                      or an empty interval at dt or at TimePeriod.max: no member at or after dt
    rollback(dt)    = [l, r) with r <= dt, inside M, no member after it and before dt
                      or [l, dt], inside M (if it is the single instant dt, there is no member just before)
                      or an empty interval at dt or at TimePeriod.min: no member before dt
    M is observed at the given points only (they are arbitrary, so facts at them are facts everywhere).
    """

    def __init__(self, ctx, name, idx, points):
        set_ = object.__setattr__
        set_(self, "c", ctx)
        set_(self, "name", name)
        set_(self, "idx", idx)
        set_(self, "points", points)
        set_(self, "cache", {})
        if ctx.sampling:
            # a concrete union of disjoint half-open intervals around the points
            base = points[0]
            cuts = sorted({ctx.int(f"{name}.cut", -40, 40) for _ in range(ctx.choice(f"{name}.n", [2, 4, 4, 6]))})
            if len(cuts) % 2:
                cuts = cuts[:-1]
            unit = ctx.choice("unit", [datetime.timedelta(hours=1), datetime.timedelta(microseconds=1)])
            set_(self, "ivs", [(base + unit * a, base + unit * b) for a, b in zip(cuts[::2], cuts[1::2])])
            set_(self, "m", [self._has(x) for x in points])
        else:
            set_(self, "m", [ctx.bool(f"{name}.has{i}") for i in range(len(points))])

    def __hash__(self):
        return 1000 + self.idx

    def __eq__(self, o):
        return self is o

    def _has(self, x):
        return any(a <= x < b for a, b in self.ivs)

    def __contains__(self, dt):
        if self.c.sampling:
            return self._has(dt)
        for i, x in enumerate(self.points):
            if x is dt:
                return self.m[i]
        self.c.unsupported("membership of an unobserved instant")

    def _facts(self, f):
        for x, m in zip(self.points, self.m):
            self.c.assume(f(x, m))

    def _cached(self, kind, dt, make):
        if not self.c.symbolic:
            key = (kind, dt)
        else:
            key = (kind, dt.t.get_id() if hasattr(dt, "t") else dt)
        if key not in self.cache:
            self.cache[key] = (make(dt), dt)
        return self.cache[key][0]

    def rollforward(self, dt):
        return self._cached("f", dt, self._fwd)

    def rollback(self, dt):
        return self._cached("b", dt, self._back)

    def _fwd(self, dt):
        c = self.c
        if c.sampling:
            for a, b in self.ivs:
                if b > dt:
                    return Interval(max(a, dt), b)
            e = dt if any(b == dt for a, b in self.ivs) else self.max
            return Interval(e, e)
        kind = c.choice(f"{self.name}.fwd", ["some", "none-here", "none-max"])
        if kind == "some":
            l, r = c.datetime(f"{self.name}.l", LO, HI), c.datetime(f"{self.name}.r", LO, HI)
            c.assume(and_(dt <= l, l < r))
            self._facts(lambda x, m: and_(implies(and_(l <= x, x < r), m), implies(and_(dt <= x, x < l), not_(m))))
            return Interval(l, r)
        self._facts(lambda x, m: implies(dt <= x, not_(m)))
        e = dt if kind == "none-here" else self.max
        return Interval(e, e)

    def _back(self, dt):
        c = self.c
        if c.sampling:
            for a, b in reversed(self.ivs):
                if a < dt:
                    return Interval(a, min(b, dt))
                if a == dt and self.idx % 2:
                    return Interval(a, a, closed="both")
            e = dt if any(a == dt for a, b in self.ivs) else self.min
            return Interval(e, e)
        kind = c.choice(f"{self.name}.back", ["some", "closed", "none-here", "none-min"])
        if kind == "some":
            l, r = c.datetime(f"{self.name}.l", LO, HI), c.datetime(f"{self.name}.r", LO, HI)
            c.assume(and_(r <= dt, l < r))
            self._facts(lambda x, m: and_(implies(and_(l <= x, x < r), m), implies(and_(r <= x, x < dt), not_(m))))
            return Interval(l, r)
        if kind == "closed":
            # dt belongs to it: its first instant, or parts of it meet there
            l = c.datetime(f"{self.name}.l", LO, HI)
            c.assume(l <= dt)
            self._facts(lambda x, m: and_(implies(and_(l <= x, x <= dt), m), implies(and_(l == dt, x == dt - self.resolution), not_(m))))
            return Interval(l, dt, closed="both")
        self._facts(lambda x, m: implies(x < dt, not_(m)))
        e = dt if kind == "none-here" else self.min
        return Interval(e, e)

    def __repr__(self):
        return f"Stub({self.name})"
    __str__ = __repr__


def inside(iv, x):
    lo = iv.left <= x if iv.closed in ("left", "both") else iv.left < x
    hi = x <= iv.right if iv.closed in ("right", "both") else x < iv.right
    return and_(lo, hi)


def is_empty(iv):
    return iv.left > iv.right if iv.closed == "both" else iv.left >= iv.right


class RecAll(All):
    """All whose recursive calls are replaced by the contract of the method itself (recursion rule)."""

    def _setup(self, ctx, points, alls):
        object.__setattr__(self, "_v", {"ctx": ctx, "points": points, "alls": alls, "depth": 0, "first": None})
        return self

    def __hash__(self):
        return 77

    def rollforward(self, dt):
        v = self._v
        ctx = v["ctx"]
        if v["depth"] == 0 or ctx.sampling:
            v["depth"] += 1
            v["first"] = dt
            return super().rollforward(dt)
        ctx.check(dt > v["first"], "termination: the recursion moves forward")
        if ctx.choice("rec.fwd", ["some", "none"]) == "some":
            l, r = ctx.datetime("rec.l", LO, HI), ctx.datetime("rec.r", LO, HI)
            ctx.assume(and_(dt <= l, l < r))
            for x, m in zip(v["points"], v["alls"]):
                ctx.assume(and_(implies(and_(l <= x, x < r), m), implies(and_(dt <= x, x < l), not_(m))))
            return Interval(l, r)
        for x, m in zip(v["points"], v["alls"]):
            ctx.assume(implies(dt <= x, not_(m)))
        return Interval(self.max, self.max)

    def rollback(self, dt):
        v = self._v
        ctx = v["ctx"]
        if v["depth"] == 0 or ctx.sampling:
            v["depth"] += 1
            v["first"] = dt
            return super().rollback(dt)
        ctx.check(dt < v["first"], "termination: the recursion moves back")
        kind = ctx.choice("rec.back", ["some", "closed", "none"])
        if kind == "closed":
            l = ctx.datetime("rec.l", LO, HI)
            ctx.assume(l <= dt)
            for x, m in zip(v["points"], v["alls"]):
                ctx.assume(and_(implies(and_(l <= x, x <= dt), m), implies(and_(l == dt, x == dt - self.resolution), not_(m))))
            return Interval(l, dt, closed="both")
        if kind == "some":
            l, r = ctx.datetime("rec.l", LO, HI), ctx.datetime("rec.r", LO, HI)
            ctx.assume(and_(r <= dt, l < r))
            for x, m in zip(v["points"], v["alls"]):
                ctx.assume(and_(implies(and_(l <= x, x < r), m), implies(and_(r <= x, x < dt), not_(m))))
            return Interval(l, r)
        for x, m in zip(v["points"], v["alls"]):
            ctx.assume(implies(x < dt, not_(m)))
        return Interval(self.min, self.min)
