"""C07 -- relative windows, the window of a condition, scheduler and period conditions."""
import datetime

from pyvc import harness, iff, and_, or_, not_, implies, if_
from rocketry.core.time.base import TimePeriod, StaticInterval
from rocketry.core.time.utils import get_period_span
from rocketry.time import TimeDelta, TimeSpanDelta, TimeOfDay
from rocketry.conditions import SchedulerStarted, SchedulerCycles, IsPeriod, AlwaysTrue
from rocketry.core.condition import All, Any, Not
from rocketry.conditions import api
from specs.world import World, Clock, drive, put

D = "core/time/base.py:TimeDelta."
SP = "time/delta.py:TimeSpanDelta."
ST = "core/time/base.py:StaticInterval."
TRUSTED = ["specs/world.py: the clock"]
ASSUMPTIONS = ["durations up to 4000 days, instants 1990-2100, naive datetimes", "far is not nearer than near"]
LO, HI = datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1)
DAY = datetime.timedelta(days=1)
Z = datetime.timedelta(0)


def dur(ctx, name, neg=True):
    "a duration, in any sign: only its length counts -> (given, length)"
    d = ctx.timedelta(name, -4000 * DAY if neg else Z, 4000 * DAY)
    return d, if_(d >= Z, d, -d)


def drawn(ctx):
    return ctx.datetime("ref", LO, HI), ctx.datetime("dt", datetime.datetime(1975, 1, 1), datetime.datetime(2150, 1, 1))


def both(ctx, period, ref, dt, inside):
    ctx.check(iff(dt in period.use_reference(ref), inside), "contains exactly the instants within the window of the reference")


@harness("C07", [D + "__init__", D + "__contains__", D + "use_reference", D + "get_reference"], samples=400)
def delta_contains(ctx):
    """ensures  dt in TimeDelta(past, future).use_reference(ref)  <=>  ref - past <= dt <= ref + future"""
    ref, dt = drawn(ctx)
    p, past = dur(ctx, "past")
    f, future = dur(ctx, "future")
    inside = and_(ref - past <= dt, dt <= ref + future)
    both(ctx, TimeDelta(p, f), ref, dt, inside)
    ctx.check(iff(dt in TimeDelta(p, f, reference=ref), inside), "a given reference is used")
    ctx.check(iff(dt in TimeDelta(p).use_reference(ref), and_(ref - past <= dt, dt <= ref)), "no future unless given")
    ctx.check(iff(dt in TimeDelta(future=f).use_reference(ref), and_(ref <= dt, dt <= ref + future)), "no past unless given")


@harness("C07", [SP + "__init__", SP + "__contains__", SP + "use_reference"], cases=["far", "no far"], samples=400)
def span_contains(ctx, case):
    """ensures  dt in TimeSpanDelta(near, far) at ref  <=>  near <= |dt - ref| <= far"""
    ref, dt = drawn(ctx)
    n, near = dur(ctx, "near")
    f, far = dur(ctx, "far")
    dist = if_(dt >= ref, dt - ref, ref - dt)
    if case == "far":
        ctx.assume(near <= far)
        both(ctx, TimeSpanDelta(n, f), ref, dt, and_(near <= dist, dist <= far))
        ctx.check(iff(dt in TimeSpanDelta(far=f, reference=ref), dist <= far), "near is nothing unless given")
    else:
        both(ctx, TimeSpanDelta(n), ref, dt, near <= dist)
        ctx.check(iff(dt in TimeSpanDelta(near=n, reference=ref), near <= dist), "a given reference is used")


@harness("C07", [D + "rollback", D + "rollforward", SP + "rollback", SP + "rollforward"], samples=300)
def rolls(ctx):
    """ensures  the rolls of a window are the window's past and future at the given instant"""
    ref, _ = drawn(ctx)
    p, past = dur(ctx, "past")
    f, future = dur(ctx, "future")
    d = TimeDelta(p, f)
    b, w = d.rollback(ref), d.rollforward(ref)
    ctx.check(and_(b.left == ref - past, b.right == ref), "rolling a duration back covers its past")
    ctx.check(and_(w.left == ref, w.right == ref + future), "rolling a duration forward covers its future")
    ctx.assume(past <= future)
    s = TimeSpanDelta(p, f)
    b, w = s.rollback(ref), s.rollforward(ref)
    ctx.check(and_(b.left == ref - future, b.right == ref - past), "rolling a span back covers what is between near and far ago")
    ctx.check(and_(w.left == ref + past, w.right == ref + future), "rolling a span forward covers what is between near and far ahead")
    s = TimeSpanDelta(p)
    b, w = s.rollback(ref), s.rollforward(ref)
    ctx.check(and_(b.left == TimePeriod.min, b.right == ref - past, w.left == ref + past, w.right == TimePeriod.max), "no far: no limit")


@harness("C07", [ST + "__init__", ST + "rollback", ST + "rollforward", "core/time/base.py:TimePeriod.__contains__"],
         cases=["both", "start", "end", "none"], samples=300)
def static(ctx, case):
    """ensures  a fixed interval contains start <= dt < end; the rolls are its parts before and after the instant"""
    dt = ctx.datetime("dt", LO, HI)
    lo = ctx.datetime("start", LO, HI) if case in ("both", "start") else None
    hi = ctx.datetime("end", LO, HI) if case in ("both", "end") else None
    p = StaticInterval(lo, hi)
    a = lo if lo is not None else TimePeriod.min
    b = hi if hi is not None else TimePeriod.max
    ctx.assume(a <= b)
    ctx.check(iff(dt in p, and_(a <= dt, dt < b)), "contains the instants from the start to before the end")
    r = p.rollback(dt)
    if a <= dt:
        ctx.check(and_(r.left == a, r.right == if_(b <= dt, b, dt)), "rolling back gives the part before")
    else:
        ctx.check(r.left == r.right, "nothing before the start")
    r = p.rollforward(dt)
    if b >= dt:
        ctx.check(and_(r.right == b, r.left == if_(a >= dt, a, dt)), "rolling forward gives the part after")
    else:
        ctx.check(r.left == r.right, "nothing after the end")


def window(ctx, kind):
    "-> period, function now -> (first, last) instant"
    if kind == "none":
        return None, lambda now: (TimePeriod.min, TimePeriod.max)
    if kind == "delta":
        p, past = dur(ctx, "past")
        return TimeDelta(p), lambda now: (now - past, now)
    if kind == "span":
        n, near = dur(ctx, "near")
        f, far = dur(ctx, "far")
        ctx.assume(near <= far)
        return TimeSpanDelta(n, f), lambda now: (now - far, now - near)
    if kind == "open span":
        n, near = dur(ctx, "near")
        return TimeSpanDelta(n), lambda now: (TimePeriod.min, now - near)
    if kind == "text":
        s, td = ctx.choice("text", [("past 2 hours", datetime.timedelta(hours=2)), ("past 10 min", datetime.timedelta(minutes=10)),
                                    ("past 3 days", 3 * DAY)])
        return s, lambda now: (now - td, now)


WINDOWS = ["none", "delta", "span", "open span", "text"]


def session_at(ctx, now):
    return World(ctx, clock=Clock(ctx, fixed=now))


@harness("C07", ["core/time/utils.py:get_period_span", "session.py:Session._get_datetime_now", "session.py:Session._format_timestamp"], cases=WINDOWS, samples=200)
def span_of_condition(ctx, kind):
    """ensures  the window a condition looks at is the period's, referred to the session's clock"""
    now = ctx.datetime("now", LO, HI)
    w = session_at(ctx, now)
    p, f = window(ctx, kind)
    a, b = get_period_span(p, session=w.session)
    x, y = f(now)
    ctx.check(and_(a == x, b == y), "the window of a condition is its period's at the session's time")


def observed(ctx, w, cond):
    t = w.task("ctx")
    how = ctx.choice("context", ["session", "task", "nested", "negated"])
    if how == "session":
        return cond.observe(session=w.session)
    if how == "task":
        return cond.observe(task=t)
    if how == "nested":
        return All(AlwaysTrue(), Any(cond)).observe(task=t, session=w.session)
    return not_(Not(cond).observe(session=w.session))


@harness("C07", ["conditions/scheduler.py:SchedulerStarted.get_state", "core/condition/base.py:BaseCondition.observe"], cases=WINDOWS, samples=200)
def scheduler_started(ctx, kind):
    """ensures  true <=> the scheduler's start time lies in the window, ends included"""
    now, started = ctx.datetime("now", LO, HI), ctx.datetime("started", LO, HI)
    w = session_at(ctx, now)
    if kind == "text":
        kind = "delta"
    p, f = window(ctx, kind)
    w.scheduler.startup_time = started
    a, b = f(now)
    ctx.check(iff(observed(ctx, w, SchedulerStarted(period=p)), and_(a <= started, started <= b)),
              "true exactly when the scheduler started in the window")


OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b,
       "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}


@harness("C07", ["conditions/scheduler.py:SchedulerCycles.get_measurement", "core/condition/base.py:BaseComparable.observe",
                 "core/condition/base.py:BaseComparable.get_state"], cases=["bare"] + list(OPS) + ["between"], samples=100)
def cycles(ctx, op):
    """ensures  true <=> the scheduler's number of cycles compares as asked"""
    w = session_at(ctx, datetime.datetime(2022, 1, 1))
    n, k, m = ctx.int("n", 0, 10**9), ctx.int("k", 0, 10**9), ctx.int("m", 0, 10**9)
    w.scheduler.n_cycles = n
    c = SchedulerCycles()
    if op == "bare":
        want = n > 0
    elif op == "between":
        c = (c >= k) < m
        want = and_(n >= k, n < m)
    else:
        c = OPS[op](c, k)
        want = OPS[op](n, k)
    ctx.check(iff(observed(ctx, w, c), want), "true exactly when the number of cycles compares so")


@harness("C07", ["conditions/time.py:IsPeriod.get_state"], cases=["day", "static"], samples=150)
def is_period(ctx, kind):
    """ensures  true <=> the session's time is in the period"""
    now = ctx.datetime("now", LO, HI)
    w = session_at(ctx, now)
    if kind == "static":
        a, b = ctx.datetime("a", LO, HI), ctx.datetime("b", LO, HI)
        ctx.assume(a <= b)
        p, want = StaticInterval(a, b), and_(a <= now, now < b)
    else:
        h = ctx.choice("hour", [0, 6, 23])
        p = TimeOfDay(f"{h:02d}:00", f"{h:02d}:30")
        day = now - datetime.datetime(1970, 1, 1)
        sec = (day // datetime.timedelta(seconds=1)) % 86400
        want = and_(sec >= h * 3600, sec < h * 3600 + 1800)
    ctx.check(iff(observed(ctx, w, IsPeriod(period=p)), want), "true exactly when it is now in the period")


@harness("C07", ["conditions/api.py:scheduler_running", "conditions/api.py:scheduler_cycles"],
         cases=[(k, m) for k in ("running", "cycles") for m in ("more", "less", "both", "neither")], samples=60)
def scheduler_api(ctx, case):
    """ensures  scheduler_running(more_than, less_than) <=> more_than <= time since the start <= less_than;
    scheduler_cycles(more_than, less_than) <=> more_than < cycles < less_than (at least one, when neither is given)"""
    kind, which = case
    now = ctx.datetime("now", LO, HI)
    w = session_at(ctx, now)
    if kind == "cycles":
        n, k, m = ctx.int("n", 0, 10**9), ctx.int("k", 0, 10**9), ctx.int("m", 0, 10**9)
        w.scheduler.n_cycles = n
        kw, want = {}, True
        if which in ("more", "both"):
            kw["more_than"], want = k, n > k
        if which in ("less", "both"):
            kw["less_than"], want = m, and_(want, n < m)
        if which == "neither":
            want = n > 0
        cond = api.scheduler_cycles(**kw)
    else:
        started = ctx.datetime("started", LO, HI)
        ctx.assume(started <= now)
        w.scheduler.startup_time = started
        kw, want = {}, True
        if which in ("more", "both"):
            kw["more_than"], near = dur(ctx, "near")
            want = started <= now - near
        if which in ("less", "both"):
            kw["less_than"], far = dur(ctx, "far")
            want = and_(want, now - far <= started)
        if which == "both":
            ctx.assume(near <= far)
        if which == "neither":
            kw["more_than"] = 0
        cond = api.scheduler_running(**kw)
    ctx.check(iff(observed(ctx, w, cond), want), "the condition of the API is true exactly when its limits hold")
