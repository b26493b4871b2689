"""C11 -- a task set to run after another is due once for each outcome of the other."""
import datetime

from pyvc import harness, iff, and_, or_, not_
from rocketry.conditions import DependSuccess, DependFailure, DependFinish
from rocketry.conditions import api
from rocketry.parse import parse_condition
from specs.world import World, Clock, LatestRepo, put, feed, stamp

FN = ["conditions/task/utils.py:DependMixin.get_state", "core/log/adapter.py:TaskAdapter.get_latest", "core/log/adapter.py:TaskAdapter.filter_by",
      "core/condition/base.py:BaseCondition.observe"]
API = ["conditions/api.py:after_success", "conditions/api.py:after_fail", "conditions/api.py:after_finish", "conditions/api.py:after_all_success",
       "conditions/api.py:after_any_success", "conditions/task/utils.py:DependMixin._parse_multi_all", "conditions/task/utils.py:DependMixin._parse_multi_any"]
TRUSTED = ["specs/world.py: log repository (assumed contract of redbird), clock"]
ASSUMPTIONS = ["records are logged in the order of their times",
               "any_history: a log of any length is known by the latest record of each kind (the code asks for latest records only, else the check abstains)"]
LO, HI = datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1)
KINDS = {"success": (DependSuccess, ["success"], "succeeded", api.after_success, api.after_all_success, api.after_any_success),
         "fail": (DependFailure, ["fail"], "failed", api.after_fail, api.after_all_fail, api.after_any_fail),
         "finish": (DependFinish, ["success", "fail"], "finished", api.after_finish, api.after_all_finish, api.after_any_finish)}


def history(ctx, t, tag, actions, n, distinct=False):
    "n records of the task in the order of time; returns them"
    out, prev, left = [], None, list(actions)
    for i in range(n):
        at = ctx.datetime(f"{tag}{i}", LO, HI)
        if prev is not None:
            ctx.assume(prev <= at)
        prev = at
        a = ctx.choice(f"{tag} action{i}", left)
        if distinct:
            left.remove(a)
        feed(t, a, stamp(at))
        out.append((a, at))
    return out


def due(own, dep, acts):
    "the latest outcome of the other is later than the latest start of the task"
    last = [at for a, at in dep if a in acts]
    start = [at for a, at in own if a == "run"]
    if not last:
        return False
    if not start:
        return True
    return last[-1] > start[-1]


def world(ctx, **kw):
    w = World(ctx, clock=Clock(ctx, fixed=HI), as_dict=ctx.choice("dicts", [False, True]))
    put(w.session.config, force_status_from_logs=ctx.choice("from logs", [False, True]))
    return w


def observe(ctx, w, t, d, cls, text, func, brief):
    how = ctx.choice("given", ["context", "named", "objects", "api", "text"]) if brief else "context"
    if how == "context":
        return cls(depend_task="d").observe(task=t, session=w.session)
    if how == "named":
        return cls(depend_task="d", task="t").observe(task=w.task("observer"), session=w.session)
    if how == "objects":
        return cls(depend_task=d, task=t).observe(session=w.session)
    if how == "api":
        return func(ctx.choice("as", ["d", d])).observe(task=t, session=w.session)
    return parse_condition(f"after task 'd' {text}", session=w.session).observe(task=t, session=w.session)


def check(ctx, case, distinct):
    kind, n, m = case
    cls, acts, text, func, _, _ = KINDS[kind]
    w = world(ctx)
    t, d = w.task("t"), w.task("d")
    own = history(ctx, t, "own", ["run", "success", "fail"] if n < 3 or distinct else ["run", "success"], n, distinct)
    dep = history(ctx, d, "other", ["success", "fail", "run", "terminate", "inaction"] if m < 3 or distinct else ["success", "fail", "run"], m, distinct)
    if distinct:
        w.only_latest()
    got = observe(ctx, w, t, d, cls, text, func, n + m <= 3)
    ctx.check(iff(got, due(own, dep, acts)), "due exactly when the other's latest outcome is later than the task's latest start")


@harness("C11", FN + API, cases=[(k, n, m) for k in KINDS for n in (0, 1, 2) for m in (0, 1, 2, 3)], samples=30, budget=100)
def any_history(ctx, case):
    "logs of any length, known by their latest record of each kind"
    check(ctx, case, True)


@harness("C11", FN + API, cases=[(k, n, m) for k in KINDS for n in (0, 1, 2, 3) for m in (0, 1, 2, 3) if n + m <= 4], samples=30, budget=100,
         bound="histories of up to 4 records")
def histories(ctx, case):
    check(ctx, case, False)


@harness("C11", FN + API, cases=[(k, a, n) for k in KINDS for a in ("all", "any") for n in (1, 2, 3)], samples=40,
         bound="up to 3 other tasks with up to 2 records each")
def several(ctx, case):
    """after_all_* / after_any_* (and the texts) : due exactly when all / any of the others have such an outcome after the start"""
    kind, how, n = case
    _, acts, text, _, f_all, f_any = KINDS[kind]
    w = World(ctx, clock=Clock(ctx, fixed=HI))
    t = w.task("t")
    ds = [w.task(f"d{i}") for i in range(n)]
    own = history(ctx, t, "own", ["run"], ctx.choice("n own", [0, 1]))
    deps = [history(ctx, d, d.name, ["success", "fail"], 1 if n == 3 else ctx.choice(f"n {d.name}", [0, 1, 2])) for d in ds]
    if ctx.choice("as", ["api", "text"]) == "api":
        c = (f_all if how == "all" else f_any)(*[d if i == 0 else d.name for i, d in enumerate(ds)])
    else:
        names = "', '".join(d.name for d in ds)
        c = parse_condition(f"after {'any ' if how == 'any' else ''}tasks '{names}' {text}", session=w.session)
    each = [due(own, d, acts) for d in deps]
    ctx.check(iff(c.observe(task=t, session=w.session), and_(*each) if how == "all" else or_(*each)),
              "all / any of the others have an outcome after the task's start")
