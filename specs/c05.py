"""C05 -- composition of time periods."""
from pyvc import harness, iff, and_, or_, not_, implies
from rocketry.core.time.base import All, Any, always, never, TimePeriod
from specs.stubs import StubPeriod, RecAll, inside, is_empty

B = "core/time/base.py:"
TRUSTED = ["the contract of an arbitrary sub-period (specs/stubs.py:StubPeriod); C03 proves it for the cycle periods"]
ASSUMPTIONS = ["rolls of combinations are proved for 1 to 3 sub-periods each (bounded in the number of sub-periods, "
               "unbounded in the times); termination: every recursive step strictly moves, a disjoint combination can "
               "still exhaust the recursion limit"]


def operand(ctx, kind, tag, dt):
    "-> (period, membership of dt)"
    if kind == "stub":
        p = StubPeriod(ctx, tag, ord(tag[0]) % 40, [dt])
        return p, p.m[0]
    if kind == "always":
        return always, True
    if kind == "never":
        return never, False
    i = ord(tag[0]) % 40
    p, q = StubPeriod(ctx, tag + "0", 10 + 3 * i, [dt]), StubPeriod(ctx, tag + "1", 11 + 3 * i, [dt])
    if kind == "all":
        return All(p, q), and_(p.m[0], q.m[0])
    return Any(p, q), or_(p.m[0], q.m[0])


KINDS = ["stub", "always", "never", "all", "any"]


@harness("C05", [B + "TimePeriod.__and__", B + "TimePeriod.__or__", B + "All.__init__", B + "Any.__init__",
                 B + "All.__contains__", B + "Any.__contains__", B + "StaticInterval.rollforward",
                 B + "TimePeriod.__contains__"],
         cases=[(a, b, op) for a in KINDS for b in KINDS for op in ("&", "|")], samples=40)
def operators(ctx, case):
    a, b, op = case
    dt = ctx.datetime("dt")
    p, mp = operand(ctx, a, "a", dt)
    q, mq = operand(ctx, b, "b", dt)
    r = (p & q) if op == "&" else (p | q)
    want = and_(mp, mq) if op == "&" else or_(mp, mq)
    ctx.check(iff(dt in r, want), f"dt in (A {op} B) is the boolean combination")
    # the operands are unchanged
    ctx.check(iff(dt in p, mp), "left operand unchanged")
    ctx.check(iff(dt in q, mq), "right operand unchanged")


@harness("C05", [B + "All.__contains__", B + "Any.__contains__", B + "All.__init__", B + "Any.__init__"],
         cases=[("all", 1), ("all", 3), ("all", 4), ("any", 1), ("any", 3), ("any", 4)], samples=40)
def many(ctx, case):
    kind, n = case
    dt = ctx.datetime("dt")
    ps = [StubPeriod(ctx, f"p{i}", i, [dt]) for i in range(n)]
    r = All(*ps) if kind == "all" else Any(*ps)
    want = and_([p.m[0] for p in ps]) if kind == "all" else or_([p.m[0] for p in ps])
    ctx.check(iff(dt in r, want), f"membership in {kind} of {n} periods")


def draw(ctx, n):
    dt, x = ctx.datetime("dt"), ctx.datetime("x")
    ps = [StubPeriod(ctx, f"p{i}", i, [x]) for i in range(n)]
    return dt, x, ps


@harness("C05", [B + "All.rollforward", "pybox/time/interval.py:Interval.overlaps", "pybox/time/interval.py:Interval.__and__"],
         cases=[1, 2, 3], samples=300)
def all_forward(ctx, n):
    dt, x, ps = draw(ctx, n)
    m = and_([p.m[0] for p in ps])
    r = RecAll(*ps)._setup(ctx, [x], [m]).rollforward(dt)
    ctx.check(r.left >= dt, "result does not start before dt")
    ctx.check(implies(inside(r, x), m), "every instant of the result belongs to all periods")
    ctx.check(implies(and_(dt <= x, x < r.left), not_(m)), "no common instant is skipped")
    ctx.check(implies(and_(is_empty(r), dt <= x), not_(m)), "an empty result means there is no common instant left")


def closed_end(ctx, dt, x, m, r):
    "the end of the interval belongs to it only if it is dt, and a single instant is not part of something longer"
    if r.closed in ("right", "both"):
        ctx.check(implies(x == r.right, r.right == dt), "only dt itself is included as the end")
        ctx.check(implies(and_(r.left == r.right, x == dt - TimePeriod.resolution), not_(m)), "a single instant is not part of something longer")


@harness("C05", [B + "All.rollback", "pybox/time/interval.py:Interval.overlaps", "pybox/time/interval.py:Interval.__and__"],
         cases=[1, 2, 3], samples=300)
def all_back(ctx, n):
    dt, x, ps = draw(ctx, n)
    m = and_([p.m[0] for p in ps])
    r = RecAll(*ps)._setup(ctx, [x], [m]).rollback(dt)
    ctx.check(r.right <= dt, "result does not end after dt")
    ctx.check(implies(inside(r, x), m), "every instant of the result belongs to all periods")
    ctx.check(implies(and_(x < dt, x >= r.right, not_(inside(r, x))), not_(m)), "no common instant is skipped")
    ctx.check(implies(and_(is_empty(r), x < dt, n > 1), not_(m)), "an empty result means there is no common instant before")
    closed_end(ctx, dt, x, m, r)


@harness("C05", [B + "Any.rollforward", "pybox/time/interval.py:Interval.overlaps", "pybox/time/interval.py:Interval.is_empty"],
         cases=[1, 2, 3], samples=300)
def any_forward(ctx, n):
    dt, x, ps = draw(ctx, n)
    m = or_([p.m[0] for p in ps])
    r = Any(*ps).rollforward(dt)
    subs = [p.rollforward(dt) for p in ps]
    ctx.check(r.left >= dt, "result does not start before dt")
    ctx.check(implies(inside(r, x), m), "every instant of the result belongs to some period")
    ctx.check(implies(and_(dt <= x, x < r.left), not_(m)), "no instant is skipped")
    ctx.check(implies(and_(is_empty(r), dt <= x), not_(m)), "an empty result means there is no instant left")
    # the intervals that overlap the result are merged into it
    for s in subs:
        ctx.check(implies(and_(not_(is_empty(s)), s.left < r.right), s.right <= r.right), "overlapping intervals are merged")


@harness("C05", [B + "Any.rollback", "pybox/time/interval.py:Interval.overlaps", "pybox/time/interval.py:Interval.is_empty"],
         cases=[1, 2, 3], samples=300)
def any_back(ctx, n):
    dt, x, ps = draw(ctx, n)
    m = or_([p.m[0] for p in ps])
    r = Any(*ps).rollback(dt)
    subs = [p.rollback(dt) for p in ps]
    ctx.check(r.right <= dt, "result does not end after dt")
    ctx.check(implies(inside(r, x), m), "every instant of the result belongs to some period")
    ctx.check(implies(and_(x < dt, x >= r.right, not_(inside(r, x))), not_(m)), "no instant is skipped")
    ctx.check(implies(and_(is_empty(r), x < dt), not_(m)), "an empty result means there is no instant before")
    closed_end(ctx, dt, x, m, r)
    for s in subs:
        ctx.check(implies(and_(not_(is_empty(s)), r.left < s.right), r.left <= s.left), "overlapping intervals are merged")
        ctx.check(implies(not_(is_empty(s)), s.right <= r.right), "the result ends with the latest interval")


@harness("C05", [B + "All.rollback", B + "All.rollforward"], kind="finding")
def disjoint(ctx):
    from datetime import datetime
    from rocketry.time import TimeOfDay
    p = TimeOfDay("10:00", "11:00") & TimeOfDay(ctx.choice("start", ["12:00"]), "13:00")
    roll = getattr(p, ctx.choice("roll", ["rollback", "rollforward"]))
    try:
        ok = roll(datetime(2022, 1, 5)).is_empty
    except RecursionError:
        ok = False
    ctx.check(ok, "an intersection without instants rolls to an empty interval")
