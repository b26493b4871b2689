"""C15 -- termination of running tasks."""
import datetime

from pyvc import harness, iff, and_, or_, not_, implies, if_
from rocketry.core import BaseCondition
from specs.world import World, Clock, Cond, make_run, run_stack, drive, put, stamp

S = "core/schedule.py:Scheduler."
T = "core/task.py:Task."
FN = [T + "_check_termination", T + "_terminate_all", T + "_terminate_run", T + "log_termination", T + "_clean_run_stack",
      T + "terminate", "core/task.py:TaskRun.terminate", "core/task.py:TaskRun.is_alive"]
TRUSTED = ["specs/world.py: stand-ins of processes (terminate/join), threads (termination event) and asyncio futures "
           "(cancel), clock, conditions, log repository"]
ASSUMPTIONS = ["timeouts are positive", "a run list is bounded to 3 runs of the same task; the body of the loop is proved for an arbitrary run"]
LO, HI = datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1)
DAY = datetime.timedelta(days=1)




def setup(ctx, kind, n):
    now = ctx.datetime("now", LO, HI)
    w = World(ctx, clock=Clock(ctx, fixed=now))
    silence = ctx.bool("silence")
    general = ctx.timedelta("general timeout", datetime.timedelta(microseconds=1), 4000 * DAY)
    put(w.session.config, silence_cond_check=silence, timeout=general)
    own = ctx.choice("timeout", ["own", "general"])
    t = w.task("t", execution=kind)
    error = ctx.choice("error", [False, True])
    end = False if error else ctx.bool("end")
    t.end_cond = Cond(end, error)
    permanent, forced = ctx.bool("permanent"), ctx.bool("forced")
    put(t, permanent=permanent)
    timeout = general
    if own == "own":
        timeout = ctx.timedelta("own timeout", datetime.timedelta(microseconds=1), 4000 * DAY)
        put(t, timeout=timeout)
    if forced:
        t.terminate()
    ended = []
    runs = []
    for i in range(n):
        start = ctx.datetime(f"start{i}", LO, HI)
        ctx.assume(start <= now)
        alive = ctx.choice(f"alive{i}", [True, False]) if kind == "async" else ctx.bool(f"alive{i}")
        swallows = kind == "async" and ctx.choice(f"swallows{i}", [False, True])
        r = make_run(kind, alive, stamp(start), ended, run_id=f"run{i}", swallows=swallows)
        run_stack(t).append(r)
        runs.append((r, r.task, alive, start, swallows))
    return w, t, dict(now=now, silence=silence, timeout=timeout, error=error, end=end, permanent=permanent, forced=forced,
                      runs=runs, ended=ended)


def verdict(ctx, w, t, f, kind, raised):
    if raised:
        ctx.check(and_(f["error"], not_(f["silence"])), "an end condition error surfaces only when it is not silenced")
        return
    ctx.check(or_(not f["error"], f["silence"]), "an end condition error that is not silenced surfaces")
    for r, handle, alive, start, swallows in f["runs"]:
        asked = or_(f["forced"], f["end"], f["error"])
        late = and_(not_(f["permanent"]), f["now"] - start > f["timeout"])
        want = and_(alive, or_(asked, late))
        n = sum(1 for h in f["ended"] if h is handle)
        ctx.check(iff(n == 1, want), "a run is ended iff it is alive and termination was asked for, is due, or its time is out")
        ctx.check(n <= 1, "a run is not ended twice")
        rec = w.records("t").count(("terminate", r.run_id))
        own_log = kind == "thread" or (kind == "async" and swallows)      # the run itself records how it ended
        ctx.check(rec == (n if not own_log else 0), "the termination is recorded once, under its own run, for the ended runs only")
    ctx.check(len(w.actions("t")) == sum(1 for a in w.actions("t") if a == "terminate"), "nothing else is recorded")


KINDS = ["process", "thread", "async"]


@harness("C15", FN, cases=KINDS, samples=200)
def one_run(ctx, kind):
    "the rule for an arbitrary run"
    check(ctx, kind, 1)


@harness("C15", FN, cases=[(k, n) for k in KINDS for n in (2, 3) if not (k == "async" and n == 3)], samples=100,
         bound="2 and 3 runs of one task")
def several_runs(ctx, case):
    check(ctx, *case)


def check(ctx, kind, n):
    async def main():
        w, t, f = setup(ctx, kind, n)
        raised = False
        try:
            await t._check_termination()
        except RuntimeError:
            raised = True
        verdict(ctx, w, t, f, kind, raised)
        if not raised:
            ctx.check(not_(t.force_termination), "a request to terminate is used up")
    drive(main())


@harness("C15", FN + [S + "run_cycle"], cases=KINDS, samples=100)
def in_cycle(ctx, kind):
    "the same rule through one cycle of the scheduler, for ordinary, startup and shutdown tasks, also on hold"
    async def main():
        w, t, f = setup(ctx, kind, 1)
        role = ctx.choice("role", ["ordinary", "startup", "shutdown"])
        t.on_startup, t.on_shutdown = role == "startup", role == "shutdown"
        if ctx.choice("hold", [False, True]):
            w.scheduler.on_hold = True
        raised = False
        try:
            await w.scheduler.run_cycle()
        except RuntimeError:
            raised = True
        verdict(ctx, w, t, f, kind, raised)
    drive(main())


@harness("C15", [S + "terminate_all", S + "terminate_task", T + "_terminate_all", T + "_terminate_run"], cases=KINDS, samples=60)
def terminate_everything(ctx, kind):
    "ending all tasks ends every live run of every task, and only those"
    async def main():
        w = World(ctx, clock=Clock(ctx, fixed=datetime.datetime(2022, 1, 1)))
        ended, rows = [], []
        for i in range(2):
            t = w.task(f"t{i}", execution=kind)
            put(t, permanent=ctx.bool(f"permanent{i}"))
            alive = ctx.choice(f"alive{i}", [True, False])
            r = make_run(kind, alive, 0.0, ended, run_id=f"run{i}")
            run_stack(t).append(r)
            rows.append((t, r.task, alive, r.run_id))
        await w.scheduler.terminate_all(reason="test")
        for t, h, alive, rid in rows:
            n = sum(1 for x in ended if x is h)
            ctx.check(n == (1 if alive else 0), "every live run is ended, and only those")
            ctx.check(w.records(t.name) == ([("terminate", rid)] if alive and kind != "thread" else []),
                      "the ended runs are recorded as terminated")
    drive(main())
