"""C12 -- a failed task is retried the given number of times."""
import datetime

from pyvc import harness, iff, and_, or_, not_, if_
from rocketry.conditions import Retry
from rocketry.conditions import api
from redbird.oper import Operation
from specs.world import World, Clock, Repo, Result, LatestResult, Rec, put, feed, stamp

FN = ["conditions/task/task.py:Retry.get_state", "conditions/task/task.py:Retry.__init__", "conditions/api.py:RetryWrapper.__call__", "conditions/api.py:RetryWrapper.get_cond",
      "core/task.py:Task.get_status", "core/task.py:Task.log_record", "core/log/adapter.py:TaskAdapter.filter_by"]
TRUSTED = ["specs/world.py: log repository (assumed contract of redbird), clock"]
ASSUMPTIONS = ["records are logged in the order of their times, and a failure is not logged at the very time of the outcome before it",
               "any_history: a log of any length is known by its latest record that is not a failure or start and by the number of failures since "
               "(another query of the log makes the check abstain)"]
LO, HI = datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1)
OTHER = ["success", "crash", "inaction", "terminate"]


def world(ctx, as_dict=None):
    w = World(ctx, clock=Clock(ctx, fixed=HI), as_dict=ctx.choice("dicts", [False, True]) if as_dict is None else as_dict)
    put(w.session.config, force_status_from_logs=ctx.choice("from logs", [False, True]))
    return w


class FailLog(Repo):
    "a log of any length: known by its latest record, its latest one that is no failure or start, and the number of failures since"

    def __init__(self, ctx, other, at, latest, fails):
        super().__init__()
        self.c, self.other, self.at, self.latest, self.fails = ctx, other, at, latest, fails

    def filter_by(self, **kw):
        if kw.get("task_name") != "t" or set(kw) - {"task_name", "action", "created"}:
            self.c.unsupported("another query of the log")
        act = kw.get("action")
        if act is None and "created" not in kw:
            return LatestResult([Rec(action=self.latest, created=stamp(HI), task_name="t", run_id="x")])
        takes = lambda a: bool(act.evaluate(a)) if isinstance(act, Operation) else act == a
        if "created" not in kw:
            if any(takes(a) for a in ("run", "fail")) or not all(takes(a) for a in OTHER):
                self.c.unsupported("another query of the log")
            if self.other is None:
                return LatestResult([])
            return LatestResult([Rec(action=self.other, created=stamp(self.at), task_name="t", run_id="x")])
        op = kw["created"]
        if any(takes(a) for a in OTHER + ["run"]) or not takes("fail") or type(op).__name__ not in ("GreaterEqual", "GreaterThan"):
            self.c.unsupported("another query of the log")
        frm = op.value
        if self.other is None:
            if not (frm <= stamp(LO)):
                self.c.unsupported("another window of the log")
        elif not (frm == stamp(self.at)):
            self.c.unsupported("another window of the log")
        return Fails(self.c, self.fails)


class Fails(LatestResult):
    def __init__(self, ctx, n):
        super().__init__([])
        self.n = n

    def count(self):
        return self.n


def limit(ctx, how):
    if how == "none":
        return Retry(None), -1
    if how == "bare":
        return api.retry, -1
    if how == "default":
        return Retry(), 1
    if how == "infinite":
        return api.retry(-1), -1
    if how == "called":
        n = ctx.choice("n", [0, 1, 2, 3, 7])
        return api.retry(n), n
    n = ctx.int("n", 0, None)
    c = Retry(1)
    put(c, n=n)
    return c, n


LIMITS = ["none", "bare", "default", "infinite", "called", "any"]


@harness("C12", FN, cases=[(l, o) for l in LIMITS for o in OTHER + [None]], samples=1)
def any_history(ctx, case):
    """ensures  due  <=>  the latest record is a failure and the failures since the last other outcome are at most n (or no limit)"""
    if not ctx.symbolic:
        ctx.assume(False)
    how, other = case
    w = world(ctx, as_dict=False)
    t = w.task("t")
    at = ctx.datetime("other", LO, HI)
    if other is not None:
        feed(t, other, stamp(at))
    fails = ctx.int("fails", 0, None)
    latest = ctx.choice("latest", ["fail", "run", "other"])
    if latest == "fail":
        ctx.assume(fails >= 1)
        feed(t, "fail", stamp(HI))
    elif latest == "run":
        feed(t, "run", stamp(HI))
    else:
        ctx.assume(and_(fails == 0, other is not None))
        latest = other
    import logging
    logging.getLogger("rocketry.task").handlers[0].repo = FailLog(ctx, other, at, latest, fails)
    c, n = limit(ctx, how)
    got = c.observe(task=t, session=w.session)
    ctx.check(iff(got, and_(latest == "fail", or_(n == -1, fails <= n))), "retried exactly as many times as given")


@harness("C12", FN, cases=[(l, k) for l in LIMITS for k in (0, 1, 2, 3, 4)], samples=60, bound="histories of up to 4 records")
def histories(ctx, case):
    how, k = case
    w = world(ctx, as_dict=None if k < 3 else False)
    t = w.task("t")
    prev, pa, recs = None, None, []
    for i in range(k):
        at = ctx.datetime(f"at{i}", LO, HI)
        a = ctx.choice(f"action{i}", ["run", "fail"] + (OTHER if k < 3 else ["success", "terminate"] if k == 3 else ["success"]))
        if prev is not None:
            ctx.assume(prev < at if (a == "fail") != (pa == "fail") else prev <= at)
        prev, pa = at, a
        feed(t, a, stamp(at))
        recs.append(a)
    w.task("noise")
    feed(w.session["noise"], "fail", stamp(HI))
    fails = 0
    for a in reversed(recs):
        if a in OTHER:
            break
        fails += a == "fail"
    c, n = limit(ctx, how)
    got = c.observe(task=t, session=w.session)
    ctx.check(iff(got, and_(recs[-1:] == ["fail"], or_(n == -1, n >= fails))), "retried exactly as many times as given")
