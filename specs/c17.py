"""C17 -- after a restart the state of a task is what its log says."""
import datetime

from pyvc import harness, iff, and_, or_, not_, implies, if_
from rocketry.conditions import TaskSucceeded, TaskRunning
from specs.world import World, Clock, Cond, drive, put, stamp, Rec

T, S = "core/task.py:Task.", "core/schedule.py:Scheduler."
FN = [T + "set_cached", T + "_get_last_action", T + "_get_last_action_from_log", T + "log_crash", T + "_set_status", T + "get_status"]
TRUSTED = ["specs/world.py: log repository (assumed contract of redbird), clock"]
ASSUMPTIONS = ["records are logged in the order of their times; an outcome may have the very time of its start, other records differ in time",
               "any_log: a log of any length is known by the latest record of each kind (the code asks for latest records only, else the check abstains)",
               "runs of one task do not overlap"]
LO, HI = datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1)
ACTIONS = ["run", "success", "fail", "terminate", "inaction", "crash"]
ENDS = [a for a in ACTIONS if a != "run"]


def add(w, action, at, run_id, name="t"):
    w.repo.add(task_name=name, action=action, created=stamp(at), run_id=run_id, start=stamp(at), end=None, runtime=None, exc_text=None, message="")


def same_time(got, at):
    return got is None if at is None else (got is not None and got == at)


def verify(ctx, w, t, recs):
    "recs: [(action, time, run id)] in the order of the log"
    n = len(w.repo.rows)
    t.set_cached()
    last = {a: None for a in ACTIONS}
    for a, at, _ in recs:
        last[a] = at
    new = w.repo.rows[n:]
    g = w.repo.get
    if recs and recs[-1][0] == "run":
        ctx.check(len(new) == 1 and g(new[0], "action") == "crash" and g(new[0], "task_name") == "t", "a run without an outcome is recorded as crashed, once")
        ctx.check(g(new[0], "run_id") == recs[-1][2], "the crash is recorded under the run that crashed")
        ctx.check(g(new[0], "start") == stamp(recs[-1][1]), "the crash record has the start of that run")
        ctx.check(t.status == "crash" and t.get_status() == "crash", "the task has crashed")
        ctx.check(same_time(t.last_crash, w.clock.dt), "the crash is at the time of its record")
        del last["crash"]
    else:
        ctx.check(len(new) == 0, "nothing is recorded when the log has no unfinished run")
        want = recs[-1][0] if recs else None
        ctx.check(t.status == want and t.get_status() == want, "the status is that of the latest record")
    for a, at in last.items():
        ctx.check(same_time(getattr(t, f"last_{a}"), at), "the latest times are those of the latest records", f"last {a}")


def world(ctx):
    w = World(ctx, clock=Clock(ctx, fixed=HI), as_dict=ctx.choice("dicts", [False, True]))
    put(w.session.config, force_status_from_logs=ctx.choice("from logs", [False, True]))
    return w


def write(ctx, w, n, distinct=False, ids=True):
    recs, prev, left = [], None, list(ACTIONS)
    for i in range(n):
        at = ctx.datetime(f"at{i}", LO, HI)
        a = ctx.choice(f"action{i}", left)
        if distinct:
            left.remove(a)
        if prev is not None:
            ctx.assume(prev <= at if recs[-1][0] == "run" and a != "run" else prev < at)
        prev = at
        add(w, a, at, f"r{i}")
        recs.append((a, at, f"r{i}"))
    add(w, "success", HI, "other", name="someone else")
    return recs


@harness("C17", FN, cases=[0, 1, 2, 3], samples=80, max_paths=50000)
def any_log(ctx, n):
    """a log of any length with n kinds of records, known by its latest record of each kind"""
    w = world(ctx)
    recs = write(ctx, w, n, distinct=True)
    t = w.task("t")
    w.only_latest()
    verify(ctx, w, t, recs)


@harness("C17", FN, cases=[4, 5, 6], samples=80, max_paths=50000)
def any_log_full(ctx, n):
    w = World(ctx, clock=Clock(ctx, fixed=HI))
    recs = write(ctx, w, n, distinct=True)
    t = w.task("t")
    w.only_latest()
    verify(ctx, w, t, recs)


@harness("C17", FN, cases=[1, 2, 3], samples=80, bound="logs of up to 3 records")
def logs(ctx, n):
    w = world(ctx)
    recs = write(ctx, w, n)
    verify(ctx, w, w.task("t"), recs)


@harness("C17", FN + [S + "startup"], cases=[1, 2], samples=80, bound="2 tasks, logs of up to 2 records")
def at_startup(ctx, n):
    """the scheduler reads the state of all tasks before its startup tasks are looked at, and the state shows in conditions"""
    async def main():
        w = world(ctx)
        recs = write(ctx, w, n)
        seen = []
        cond = TaskSucceeded(task="t")
        names = ["a first", "t", "z last"] if ctx.choice("order", ["given", "reversed"]) == "given" else ["z last", "t", "a first"]
        for name in names:
            if name == "t":
                role = ctx.choice("role", ["none", "disabled", "startup", "shutdown"])
                t = w.task("t", **{"none": {}, "disabled": dict(disabled=True), "startup": dict(on_startup=True, start_cond=Cond(False)),
                                   "shutdown": dict(on_shutdown=True)}[role])
            else:
                w.probe(name, on_startup=True, started=seen, start_cond=TaskSucceeded(task="t"))
        await w.scheduler.startup()
        had = or_(False, *[a == "success" for a, _, _ in recs])
        ctx.check(iff(len(seen) == 2, had) and len(seen) in (0, 2), "startup tasks see the state of the other tasks")
        ctx.check(t.status == (None if not recs else "crash" if recs[-1][0] == "run" else recs[-1][0]), "the state is read at startup")
        put(w.session.config, force_status_from_logs=True)
        if n == 1:
            ctx.check(TaskRunning(task="t").observe(session=w.session) == False, "a crashed run is not running")  # noqa
    drive(main())


@harness("C17", FN + [T + "log_running", T + "log_success", T + "log_failure", T + "log_termination", T + "log_inaction"],
         cases=[1, 2, 3, 4], samples=80, bound="up to 4 records of consecutive runs")
def restart(ctx, n):
    """what the task logs is what it reads back: a task of a new session with the same log has the state the old one had when the
    scheduler stopped (crash at any record)"""
    from rocketry.core.task import TaskRun
    w = World(ctx, clock=Clock(ctx, fixed=LO), as_dict=ctx.choice("dicts", [False, True]))
    t = w.task("t")
    for i in range(n):
        now = ctx.datetime(f"t{i}", LO, HI)          # the clock stands while one record is written
        ctx.assume(now >= w.clock.dt if i % 2 else now > w.clock.dt)
        w.clock.set(now)
        if i % 2 == 0:
            run = TaskRun(start=w.session.get_time(), task=None, run_id=f"r{i}")
            t.log_running(run)
        else:
            a = ctx.choice(f"outcome{i}", ["success", "failure", "termination", "inaction"])
            getattr(t, "log_" + a)(run)
    before = {a: getattr(t, f"last_{a}") for a in ACTIONS}
    status, rows = t.status, list(w.repo.rows)
    w2 = World(ctx, clock=w.clock, as_dict=w.repo.as_dict)
    w2.repo.rows.extend(rows)
    t2 = w2.task("t")
    t2.set_cached()
    for a in ACTIONS:
        if not (a == "crash" and status == "run"):
            b, c = before[a], getattr(t2, f"last_{a}")
            ctx.check((c is None) if b is None else (c is not None and b == c), "the latest times survive a restart", a)
    ctx.check(t2.status == ("crash" if status == "run" else status), "the status survives a restart, a run cut off is a crash")
    ctx.check(len(w2.repo.rows) == len(rows) + (status == "run"), "only a crash is added to the log")
