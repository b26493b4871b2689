"""C09 -- task status conditions tell what the task log says."""
import datetime

from pyvc import harness, iff, and_, or_, not_, implies, if_
from rocketry.conditions import (TaskStarted, TaskSucceeded, TaskFailed, TaskFinished, TaskTerminated, TaskInacted, TaskRunning,
                                 AlwaysTrue)
from rocketry.conditions import api
from rocketry.core.condition import All
from rocketry.time import TimeDelta, TimeSpanDelta
from rocketry.core.time.base import TimePeriod
from specs.world import any_history_of, World, Clock, Rec, Result, Repo, Span, Cond, drive, put, feed, stamp, make_run, run_stack, log_record
from specs.timespec import us, SEC, MIN, HOUR, DAY, WEEK
from pyvc.ctx import US
from redbird.oper import Operation

U = "conditions/task/utils.py:"
FN = [U + "TaskStatusMixin.get_measurement", "core/condition/base.py:BaseComparable.observe", "core/condition/base.py:BaseComparable.get_state",
      "core/condition/base.py:BaseComparable._is_equal_zero", "core/condition/base.py:BaseComparable._is_any_over_zero",
      "core/time/utils.py:get_period_span", "core/task.py:Task.log_record", "core/task.py:Task._get_last_action",
      "core/log/adapter.py:TaskAdapter.get_records", "core/log/adapter.py:TaskAdapter.get_latest", "log/utils.py:get_field_value"]
TRUSTED = ["specs/world.py:Repo -- redbird's filter_by/all/last/count on an append-only list (assumed contract)",
           "specs/world.py:Span -- an arbitrary period known by the window it rolls back to (C03, C05, C07)"]
ASSUMPTIONS = ["records are logged in the order of their times",
               "histories are bounded to 3 records of the task (times, windows, comparison bounds arbitrary); the tests for none/any are "
               "also proved for histories of any length, the log known by its latest records and the matching ones"]
LO, HI = datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1)
CONDS = {"started": (TaskStarted, ["run"]), "succeeded": (TaskSucceeded, ["success"]), "failed": (TaskFailed, ["fail"]),
         "terminated": (TaskTerminated, ["terminate"]), "inacted": (TaskInacted, ["inaction"]),
         "finished": (TaskFinished, ["success", "fail", "terminate"])}
OPS = {"bare": lambda c, k: c, "== 0": lambda c, k: c == 0, "> 0": lambda c, k: c > 0, ">= 1": lambda c, k: c >= 1,
       "== k": lambda c, k: c == k, "!= k": lambda c, k: c != k, "< k": lambda c, k: c < k, "> k": lambda c, k: c > k,
       "<= k": lambda c, k: c <= k, ">= k": lambda c, k: c >= k, "0 < . < k": lambda c, k: (c > 0) < k}
MEAN = {"bare": lambda n, k: n > 0, "0 < . < k": lambda n, k: and_(n > 0, n < k)}
ZERO = ["bare", "== 0", "> 0", ">= 1"]


def period(ctx, kind, now):
    "-> period, first, last"
    if kind == "window":
        a, b = ctx.datetime("from", LO, HI), ctx.datetime("to", LO, HI)
        ctx.assume(and_(a <= b, b <= now))
        return Span(a, b, True), a, b
    if kind == "past":
        d = ctx.timedelta("past")
        return TimeDelta(d), now - d, now
    if kind == "span":
        n, f = ctx.timedelta("near"), ctx.timedelta("far")
        ctx.assume(n <= f)
        return TimeSpanDelta(n, f), now - f, now - n
    return None, TimePeriod.min, now


def whose(ctx, w, t, cls, p):
    "the condition, with the task given by name, itself or left to the context; -> condition, context"
    how = ctx.choice("task", ["name", "task", "context"])
    if how == "context":
        return cls(period=p), dict(task=t, session=w.session)
    other = w.task("observer")
    return cls(period=p, task=t.name if how == "name" else t), dict(task=other, session=w.session)


def world(ctx, now, cached=None, as_dict=None):
    w = World(ctx, clock=Clock(ctx, fixed=now), as_dict=ctx.choice("dict", [False, True]) if as_dict is None else as_dict)
    put(w.session.config, force_status_from_logs=ctx.choice("from logs", [False, True]) if cached is None else not cached)
    return w


def draw(ctx, w, t, n, own, now, other="crash", extra_task=True):
    "n records of the task in the order of time -> [(action, time)]"
    out = []
    prev = None
    o = w.task("other") if extra_task else None
    for i in range(n):
        at = ctx.datetime(f"at{i}", LO, HI)
        ctx.assume(at <= now)
        if prev is not None:
            ctx.assume(prev <= at)
        prev = at
        action = ctx.choice(f"action{i}", own + [other])
        if o is not None and i == n - 1:
            feed(o, own[0], stamp(at))
        feed(t, action, stamp(at))
        out.append((action, at))
    return out


def count(flags):
    n = 0
    for f in flags:
        n = n + if_(f, 1, 0)
    return n


CASES = [(c, op, p) for c in CONDS for op in OPS for p in ("window", "past", "span", "all")
         if p == "window" or (op in ("bare", "== 0", "<= k", "0 < . < k"))]


@harness("C09", FN, cases=CASES, samples=25, bound="histories of 2 records of the task")
def two_records(ctx, case):
    status(ctx, case, 2)


@harness("C09", FN, cases=[(c, op, "window") for c in ("started", "finished") for op in OPS], samples=25, bound="histories of 3 records of the task")
def three_records(ctx, case):
    status(ctx, case, 3)


@harness("C09", FN, cases=[(c, op, p) for c in CONDS for op in OPS for p in ("window", "all")], samples=10)
def no_record(ctx, case):
    status(ctx, case, 0)


def status(ctx, case, n):
    c, op, kind = case
    cls, own = CONDS[c]
    now = ctx.datetime("now", LO, HI)
    w = world(ctx, now, as_dict=None if n < 3 else False)
    t = w.task("t")
    p, a, b = period(ctx, kind, now)
    recs = draw(ctx, w, t, n, own, now, other="run" if c != "started" else "fail")
    k = ctx.int("k", -2, 10)
    cond, kw = whose(ctx, w, t, cls, p) if n < 2 else (cls(period=p), dict(task=t, session=w.session))
    if n == 2 and kind == "all":
        cond, kw = cls(period=p, task="t"), dict(task=w.task("observer"), session=w.session)
    m = count([and_(act in own, a <= at, at <= b) for act, at in recs])
    want = MEAN[op](m, k) if op in MEAN else OPS[op](m, k)
    got = OPS[op](cond, k).observe(**kw)
    ctx.check(iff(got, want), "true exactly when the log has so many of these records in the period")


@harness("C09", FN, cases=[(c, op, p) for c in CONDS for op in ZERO for p in ("window", "past", "span")], samples=1)
def any_history(ctx, case):
    """the tests for none/any, for a log of any length: the answer is whether there is a record in the window, with or without
    the cached latest times"""
    if not ctx.symbolic:
        ctx.assume(False)
    c, op, kind = case
    cls, own = CONDS[c]
    now = ctx.datetime("now", LO, HI)
    w = world(ctx, now, as_dict=False)
    t = w.task("t")
    p, a, b = period(ctx, kind, now)
    found = any_history_of(ctx, w, t, own, now, a, b)
    want = or_(*[found[x] for x in own])
    if op == "== 0":
        want = not_(want)
    got = OPS[op](cls(period=p), 0).observe(task=t, session=w.session)
    ctx.check(iff(got, want), "true exactly when there is (no) such record in the period, for any history")


# ------------------------------------------------------------------ running

RFN = ["conditions/task/task.py:TaskRunning.get_measurement", "core/time/utils.py:get_period_span"]
ROPS = ["bare", "== 0", ">= 1", "== k", "< k", "0 < . < k"]


def rperiod(ctx, kind, now):
    if kind == "none":
        return None, TimePeriod.min, TimePeriod.max
    n, f = ctx.timedelta("near"), ctx.timedelta("far")
    if kind == "more":
        return TimeSpanDelta(near=n), TimePeriod.min, now - n
    if kind == "less":
        return TimeSpanDelta(far=f), now - f, now
    ctx.assume(n <= f)
    return TimeSpanDelta(near=n, far=f), now - f, now - n


@harness("C09", RFN, cases=[(op, p, n) for op in ROPS for p in ("none", "more", "less", "between") for n in (0, 1, 2)], samples=25,
         bound="up to 2 runs of the task")
def running_now(ctx, case):
    """ensures  running (cached)  <=>  as many live runs, started in the period, as asked"""
    op, kind, n = case
    now = ctx.datetime("now", LO, HI)
    w = world(ctx, now, cached=True, as_dict=False)
    t = w.task("t", execution="thread")
    p, a, b = rperiod(ctx, kind, now)
    flags = []
    for i in range(n):
        s, alive = ctx.datetime(f"start{i}", LO, HI), ctx.bool(f"alive{i}")
        ctx.assume(s <= now)
        run_stack(t).append(make_run("thread", alive, stamp(s), []))
        flags.append(and_(alive, a <= s, s <= b))
    m, k = count(flags), ctx.int("k", -2, 10)
    want = MEAN[op](m, k) if op in MEAN else OPS[op](m, k)
    cond = TaskRunning(period=p, task=[None, t, "t"][n])
    got = OPS[op](cond, k).observe(task=t if n < 1 else w.task("observer"), session=w.session)
    ctx.check(iff(got, want), "true exactly when so many runs are alive")


@harness("C09", RFN, cases=[(op, p, n) for op in ROPS for p in ("none", "more", "less", "between") for n in (0, 1, 2)], samples=25,
         bound="up to 2 runs of the task, in any order of their records")
def running_log(ctx, case):
    """ensures  running (from the log)  <=>  as many runs, started in the period, have no outcome as asked"""
    op, kind, n = case
    now = ctx.datetime("now", LO, HI)
    w = world(ctx, now, cached=False)
    t = w.task("t", execution="thread")
    p, a, b = rperiod(ctx, kind, now)
    evs, flags = [], []
    for i in range(n):
        s = ctx.datetime(f"start{i}", LO, HI)
        ctx.assume(s <= now)
        if i:
            ctx.assume(evs[0][0] <= s)
        evs.append((s, "run", f"r{i}"))
        over = ctx.choice(f"over{i}", [False, True])
        if over:
            e = ctx.datetime(f"end{i}", LO, HI)
            ctx.assume(and_(s <= e, e <= now))
            evs.append((e, ctx.choice(f"how{i}", ["success", "terminate"]), f"r{i}"))
        flags.append(and_(not over, a <= s, s <= b))
    for s, action, rid in evs:                # the log may hold the outcome of an earlier run after a later start
        w.repo.add(task_name="t", action=action, created=stamp(s), run_id=rid)
    m, k = count(flags), ctx.int("k", -2, 10)
    want = MEAN[op](m, k) if op in MEAN else OPS[op](m, k)
    got = OPS[op](TaskRunning(task=t if n == 1 else "t", period=p), k).observe(task=w.task("observer"), session=w.session)
    ctx.check(iff(got, want), "true exactly when so many runs have no outcome")


@harness("C09", RFN, cases=[(op, n) for op in ("bare", "== 0", ">= 1") for n in (0, 1, 2)], samples=25,
         bound="up to 2 runs of the task, one after another, in a log without run ids")
def running_log_no_ids(ctx, case):
    """ensures  running (from a log that does not tell the runs apart)  <=>  a run has no outcome after it"""
    op, n = case
    now = ctx.datetime("now", LO, HI)
    w = world(ctx, now, cached=False)
    w.task("t", execution="thread")
    last, over = LO, True
    for i in range(n):
        s = ctx.datetime(f"start{i}", LO, HI)
        ctx.assume(and_(last < s, s <= now))
        w.repo.add(task_name="t", action="run", created=stamp(s))
        over = True if i < n - 1 else ctx.choice("over", [False, True])
        if over:
            last = ctx.datetime(f"end{i}", LO, HI)
            ctx.assume(and_(s <= last, last <= now))
            w.repo.add(task_name="t", action=ctx.choice(f"how{i}", ["success", "fail"]), created=stamp(last))
    m = 0 if over else 1
    want = MEAN[op](m, 0) if op in MEAN else OPS[op](m, 0)
    got = OPS[op](TaskRunning(task="t"), 0).observe(task=w.task("observer"), session=w.session)
    ctx.check(iff(got, want), "true exactly when the latest run has no outcome")


# ------------------------------------------------------------------ the condition API

A = "conditions/api.py:"
AFN = [A + "TimeActionWrapper." + m for m in ("observe", "__call__", "this_minute", "this_hour", "this_day", "this_week", "this_month", "today",
                                              "get_cond", "_get_wrapper")] + [A + "TimeCondWrapper." + m for m in ("observe", "between", "before", "after", "get_cond")]
UNITS = {"this_minute": MIN, "this_hour": HOUR, "this_day": DAY, "today": DAY, "this_week": WEEK, "this_month": None}
LIMITS = {"this_minute": ("12", "40", SEC, 12, 40), "this_hour": ("10:00", "45:30", SEC, 600, 2730), "this_day": ("10:00", "18:30", MIN, 600, 1110),
          "today": ("10:00", "18:30", MIN, 600, 1110), "this_week": ("Tue 10:00", "Fri 12:00", HOUR, 34, 108)}


@harness("C09", FN + AFN, cases=[(c, u, how) for c in ("started", "failed", "succeeded", "finished") for u in UNITS if u != "this_month"
                                 for how in ("", "between", "before", "after", "at") if not how or (c == "started" and u in LIMITS)
                                 if how != "at" or u == "this_day"],
         samples=15, bound="histories of one record; the listed limits of the units")
def api_status(ctx, case):
    by_unit(ctx, case)


@harness("C09", FN + AFN, kind="bounded", cases=[(c, "this_month", "") for c in ("started", "failed", "succeeded", "finished")], samples=60)
def api_month(ctx, case):
    by_unit(ctx, case)


def by_unit(ctx, case):
    """ensures  started/failed/succeeded/finished (of a task or of the task itself) .this_<unit> [between/before/after]  <=>  the log has
    such a record in the ongoing (or, after its end, the latest) occurrence of it"""
    c, unit, how = case
    own = CONDS[c][1]
    now = ctx.datetime("now", LO, HI)
    w = world(ctx, now, as_dict=False)
    t = w.task("t")
    if unit == "this_month":
        begin = now.replace(day=1, hour=0, minute=0, second=0, microsecond=0)
        ctx.assume(begin < now)
    else:
        off = us(now) % UNITS[unit] if unit != "this_week" else (us(now) + 3 * DAY) % WEEK
        ctx.assume(off > 0)
        begin = now - off * US
    end = now
    if how:
        a, b, q, i, j = LIMITS[unit]
        s, e = (i * q if how in ("between", "after", "at") else 0), (j * q if how in ("between", "before") else None)
        if how == "at":
            a, s, e = "10:00", 10 * HOUR, None
        ctx.assume(off > s)
        if e is not None:
            end = if_(off < e, now, begin + e * US)
        if how == "at":
            ctx.assume(off < 10 * HOUR + MIN)
        begin = begin + s * US
    other = "run" if c != "started" else "fail"
    if unit == "this_month":
        at = begin + ctx.choice("since", [-DAY, -1, 0, 1, (now - begin) // US]) * US
        action = ctx.choice("action", own[:2] + [other])
        feed(t, action, stamp(at))
        recs = [(action, at)]
    else:
        recs = draw(ctx, w, t, 1, own[:2], now, other=other)
    cond = getattr(api, c)
    kw = dict(task=t, session=w.session)
    if ctx.choice("named", [False, True]):
        cond, kw = cond("t"), dict(task=w.task("observer"), session=w.session)
    cond = getattr(cond, unit)
    if how:
        cond = {"between": lambda: cond.between(a, b), "before": lambda: cond.before(b), "after": lambda: cond.after(a), "at": lambda: cond.at(a)}[how]()
    want = or_(False, *[and_(act in own, begin <= at, at <= end) for act, at in recs])
    got = cond.observe(**kw)
    ctx.check(iff(got, want), "true exactly when there is such a record in this unit")


@harness("C09", RFN + [A + "RunningWrapper." + m for m in ("observe", "__call__", "more_than", "less_than", "between", "get_cond", "__ge__", "__le__", "__gt__",
                                                           "__lt__", "__eq__", "__ne__")],
         cases=["plain", "more", "less", "between", "old more", "old less", "old between", ">=", "<=", ">", "<", "==", "!="], samples=40,
         bound="up to 2 runs of the task; the listed durations")
def api_running(ctx, case):
    """ensures  running (of a task or of the task itself), .more_than, .less_than, .between and its comparisons tell the live runs so old"""
    now = ctx.datetime("now", LO, HI)
    w = world(ctx, now, cached=True, as_dict=False)
    t = w.task("t", execution="thread")
    named = ctx.choice("named", [False, True])
    (x, near), (y, far) = ctx.choice("durations", [(("2 minutes", 2 * MIN), ("1 hour 30 min", 90 * MIN)), (("10 seconds", 10 * SEC), ("2 days", 2 * DAY))])
    kind = case.split()[-1]
    a = now - far * US if kind in ("less", "between") else TimePeriod.min
    b = now - near * US if kind in ("more", "between") else now
    flags = []
    for i in range(ctx.choice("n", [0, 1, 2])):
        s, alive = ctx.datetime(f"start{i}", LO, HI), ctx.bool(f"alive{i}")
        ctx.assume(s <= now)
        run_stack(t).append(make_run("thread", alive, stamp(s), []))
        flags.append(and_(alive, a <= s, s <= b))
    m, k = count(flags), ctx.int("k", -2, 10)
    r = api.running("t") if named else api.running
    if case in (">=", "<=", ">", "<", "==", "!="):
        op = {">=": "__ge__", "<=": "__le__", ">": "__gt__", "<": "__lt__", "==": "__eq__", "!=": "__ne__"}[case]
        cond, want = getattr(r, op)(k), {">=": m >= k, "<=": m <= k, ">": m > k, "<": m < k, "==": m == k, "!=": m != k}[case]
    else:
        want = m > 0
        if case.startswith("old"):
            import warnings
            more, less = (x if kind != "less" else None), (y if kind != "more" else None)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                cond = api.running("t" if named else None, more_than=more, less_than=less)
        else:
            cond = {"plain": lambda: r, "more": lambda: r.more_than(x), "less": lambda: r.less_than(y), "between": lambda: r.between(x, y)}[case]()
    kw = dict(task=w.task("observer") if named else t, session=w.session)
    ctx.check(iff(cond.observe(**kw), want), "true exactly when so many live runs are so old")
