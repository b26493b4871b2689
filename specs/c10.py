"""C10 -- a task scheduled for a period runs once per occurrence of it."""
import datetime

from pyvc import harness, iff, and_, or_, not_, implies, if_
from pyvc.ctx import EPOCH, US
from rocketry.conditions import TaskExecutable, TaskRunnable
from rocketry.conditions import api
from rocketry.time import TimeDelta, TimeOfDay, TimeOfHour, TimeOfMinute, TimeOfWeek
from rocketry.core.condition import All
from specs.world import any_history_of, World, Clock, Span, drive, put, feed, stamp
from specs.timespec import us, SEC, MIN, HOUR, DAY, WEEK

TT = "conditions/task/task.py:"
FN = [TT + "TaskExecutable.get_state", TT + "TaskRunnable.get_state", "conditions/task/utils.py:TaskStatusMixin.get_measurement",
      "conditions/time.py:IsPeriod.get_state", "core/time/utils.py:get_period_span", "core/condition/base.py:BaseComparable.observe"]
API = ["conditions/api.py:TimeCondWrapper._get_cond", "conditions/api.py:TimeCondWrapper.observe", "conditions/api.py:every", "conditions/api.py:cron"]
TRUSTED = ["specs/world.py: log repository (assumed contract of redbird), clock",
           "specs/world.py:Span -- an arbitrary period: it contains now or not, and rolls back to the ongoing occurrence up to now (C03, C05)"]
ASSUMPTIONS = ["with retries, and for the named schedules, histories of at most 3 records (their times, kinds, the period and the clock arbitrary)",
               "any_history: a log of any length is known by the latest record of each kind and by none, one or several in the window",
               "at the very microsecond at which an occurrence of a whole-cycle period or of a cron schedule begins, the previous occurrence may still count (the task is due one microsecond later)"]
LO, HI = datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1)
ENDS = ["success", "fail", "terminate", "inaction"]


def draw(ctx, t, n, now, actions):
    out, prev = [], None
    for i in range(n):
        at = ctx.datetime(f"at{i}", LO, HI)
        ctx.assume(at <= now)
        if prev is not None:
            ctx.assume(prev <= at)
        prev = at
        action = ctx.choice(f"action{i}", actions)
        feed(t, action, stamp(at))
        out.append((action, at))
    return out


def world(ctx, now):
    w = World(ctx, clock=Clock(ctx, fixed=now))
    put(w.session.config, force_status_from_logs=ctx.choice("from logs", [False, True]))
    return w, w.task("t")


def count(flags):
    n = 0
    for f in flags:
        n = n + if_(f, 1, 0)
    return n


@harness("C10", FN, cases=[(p, r, n) for p in ("period", "delta") for r in (None, "retries") for n in (0, 1, 2, 3) if not (n == 3 and p == "delta")],
         samples=60, bound="histories of up to 3 records")
def executable(ctx, case):
    """ensures  due  <=>  now is in the period and in its ongoing occurrence there is no success, inaction or termination and
    there are no more failures than retries"""
    kind, r, n = case
    now = ctx.datetime("now", LO, HI)
    w, t = world(ctx, now)
    retries = ctx.int("retries", 0, 5) if r else None
    if kind == "delta":
        d = ctx.timedelta("past")
        p, start, inside = TimeDelta(d), now - d, True
    else:
        start, inside = ctx.datetime("start", LO, HI), ctx.bool("inside")
        ctx.assume(start <= now)
        p = Span(start, now, inside)
    recs = draw(ctx, t, n, now, ENDS + ["run"] if n < 3 else ["success", "fail", "run"])
    which = ctx.choice("task", ["context", "name", "task"]) if n < 2 else "context"
    cond = TaskExecutable(period=p, retries=retries, task={"context": None, "name": "t", "task": t}[which])
    got = cond.observe(task=t if which == "context" else w.task("observer"), session=w.session)
    inw = lambda at: and_(start <= at, at <= now)
    done = or_(False, *[and_(a in ("success", "inaction", "terminate"), inw(at)) for a, at in recs])
    fails = count([and_(a == "fail", inw(at)) for a, at in recs])
    want = and_(inside, not_(done), fails <= (retries if retries is not None else 0))
    ctx.check(iff(got, want), "due exactly when it is time and the current occurrence has not been run for")


@harness("C10", FN, cases=[(p, n) for p in ("period", "delta") for n in (0, 1, 2)], samples=60, bound="histories of up to 2 records")
def runnable(ctx, case):
    """ensures  due  <=>  now is in the period and the task has not started in its ongoing occurrence"""
    kind, n = case
    now = ctx.datetime("now", LO, HI)
    w, t = world(ctx, now)
    if kind == "delta":
        d = ctx.timedelta("past")
        p, start, inside = TimeDelta(d), now - d, True
    else:
        start, inside = ctx.datetime("start", LO, HI), ctx.bool("inside")
        ctx.assume(start <= now)
        p = Span(start, now, inside)
    recs = draw(ctx, t, n, now, ["run", "success", "fail"])
    which = ctx.choice("task", ["context", "name", "task"])
    cond = TaskRunnable(period=p, task={"context": None, "name": "t", "task": t}[which])
    got = cond.observe(task=t if which == "context" else w.task("observer"), session=w.session)
    ran = or_(False, *[and_(a == "run", start <= at, at <= now) for a, at in recs])
    ctx.check(iff(got, and_(inside, not_(ran))), "due exactly when it is time and it has not started in the current occurrence")


def where(ctx, kind, now):
    if kind == "delta":
        d = ctx.timedelta("past")
        return TimeDelta(d), now - d, True
    start, inside = ctx.datetime("start", LO, HI), ctx.bool("inside")
    ctx.assume(start <= now)
    return Span(start, now, inside), start, inside


@harness("C10", FN, cases=[(c, p) for c in ("executable", "runnable") for p in ("period", "delta")], samples=1)
def any_history(ctx, case):
    """the same for a log of any length (no retries): due <=> in the period and nothing done in its ongoing occurrence"""
    if not ctx.symbolic:
        ctx.assume(False)
    which, kind = case
    now = ctx.datetime("now", LO, HI)
    w, t = world(ctx, now)
    p, start, inside = where(ctx, kind, now)
    acts = ENDS if which == "executable" else ["run"]
    found = any_history_of(ctx, w, t, acts, now, start, now)
    cond = (TaskExecutable if which == "executable" else TaskRunnable)(period=p)
    got = cond.observe(task=t, session=w.session)
    ctx.check(iff(got, and_(inside, *[not_(found[x]) for x in acts])), "due exactly when it is time and nothing is done for the occurrence, for any history")


CYCLES = {"minutely": (MIN, 0), "hourly": (HOUR, 0), "daily": (DAY, 0), "weekly": (WEEK, 3 * DAY)}
SCHED = [  # text, condition, cycle, start of the occurrence in the cycle, length
    ("minutely", lambda: api.minutely, "minutely", 0, MIN),
    ("hourly", lambda: api.hourly, "hourly", 0, HOUR),
    ("hourly after 45:00", lambda: api.hourly.after("45:00"), "hourly", 45 * MIN, 15 * MIN),
    ("daily", lambda: api.daily, "daily", 0, DAY),
    ("daily between 10:00 and 12:00", lambda: api.daily.between("10:00", "12:00"), "daily", 10 * HOUR, 2 * HOUR),
    ("daily between 22:00 and 02:00", lambda: api.daily.between("22:00", "02:00"), "daily", 22 * HOUR, 4 * HOUR),
    ("daily after 18:00", lambda: api.daily.after("18:00"), "daily", 18 * HOUR, 6 * HOUR),
    ("daily before 07:30", lambda: api.daily.before("07:30"), "daily", 0, 7 * HOUR + 30 * MIN),
    ("daily starting 06:00", lambda: api.daily.starting("06:00"), "daily", 6 * HOUR, DAY),
    ("weekly", lambda: api.weekly, "weekly", 0, WEEK),
    ("weekly on Monday", lambda: api.weekly.on("Monday"), "weekly", 0, DAY),
    ("weekly between Fri and Sun", lambda: api.weekly.between("Fri", "Sun"), "weekly", 4 * DAY, 3 * DAY),
    ("weekly starting Wednesday", lambda: api.weekly.starting("Wednesday"), "weekly", 2 * DAY, WEEK),
]


@harness("C10", FN + API, cases=[(s[0], i, k) for i, s in enumerate(SCHED) for k in ("finish", "none")], samples=60, budget=200,
         bound="the listed schedules; one record")
def schedules(ctx, case):
    """the schedules of the documentation: due exactly inside the period when the occurrence has no finished run"""
    _, i, hist = case
    text, cond, cyc, start, length = SCHED[i]
    axis, shift = CYCLES[cyc]
    now = ctx.datetime("now", LO, HI)
    w, t = world(ctx, now)
    pos = (us(now) + shift - start) % axis
    if length == axis:
        ctx.assume(pos != 0)
    inside = pos < length
    begin = now - pos * US
    recs = draw(ctx, t, 1 if hist == "finish" else 0, now, ENDS + ["run"] if i < 2 else ["success", "run"])
    how = ctx.choice("as", ["object", "text"])
    c = cond()
    if how == "text":
        from rocketry.parse import parse_condition
        c = parse_condition(text, session=w.session)
    got = c.observe(task=t, session=w.session)
    done = or_(False, *[and_(a in ENDS, begin <= at) for a, at in recs])
    ctx.check(iff(got, and_(inside, not_(done))), "due exactly once per occurrence of the schedule")


CRONS = ["* * * * *", "*/15 * * * *", "0 12 * * *", "30 9 * * 1-5"]


@harness("C10", FN + API, cases=[(c, k) for c in CRONS for k in ("start", "none")], samples=60, budget=200, bound="the listed expressions; one record")
def crons(ctx, case):
    """cron schedules: due exactly in the named minutes, once per minute"""
    expr, hist = case
    now = ctx.datetime("now", LO, HI)
    w, t = world(ctx, now)
    u = us(now)
    minute, hour, wd = (u // MIN) % 60, (u // HOUR) % 24, (u // DAY + 3) % 7
    inside = {"* * * * *": True, "*/15 * * * *": minute % 15 == 0, "0 12 * * *": and_(minute == 0, hour == 12),
              "30 9 * * 1-5": and_(minute == 30, hour == 9, wd <= 4)}[expr]
    ctx.assume(u % MIN != 0)
    begin = now - (u % MIN) * US
    recs = draw(ctx, t, 1 if hist == "start" else 0, now, ["run", "success"])
    got = api.cron(expr).observe(task=t, session=w.session)
    ran = or_(False, *[and_(a == "run", begin <= at) for a, at in recs])
    ctx.check(iff(got, and_(inside, not_(ran))), "due exactly in the named minutes, once in each")


@harness("C10", FN + API, cases=[("run", ["run"]), ("success", ["success"]), ("fail", ["fail"]), ("finish", ENDS)], samples=80,
         bound="histories of up to 2 records")
def every(ctx, case):
    """every(duration): due exactly when the last start (success, failure, finish) is longer ago than the duration"""
    based, acts = case
    now = ctx.datetime("now", LO, HI)
    w, t = world(ctx, now)
    text, d = ctx.choice("duration", [("10 seconds", 10 * SEC), ("2 hours 30 min", 150 * MIN), ("1 day", DAY)])
    n = ctx.choice("n", [0, 1, 2])
    recs = draw(ctx, t, n, now, sorted(set(acts + ["run", "success"])) if based != "finish" else ["success", "terminate", "run"])
    got = api.every(text, based=based).observe(task=t, session=w.session)
    done = or_(False, *[and_(a in acts, at >= now - d * US) for a, at in recs])
    ctx.check(iff(got, not_(done)), "due exactly when the duration has passed")
