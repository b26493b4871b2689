"""C13 -- a task is started exactly when it may be."""
from pyvc import harness, iff, and_, or_, not_, implies
from rocketry.core import Parameters
from specs.world import World, Clock, Cond, make_run, many_runs, run_stack, drive, put
import datetime

S = "core/schedule.py:Scheduler."
T = "core/task.py:Task."
FN = [S + "is_task_runnable", S + "check_task_cond", S + "has_free_processors", S + "count_process_tasks_alive",
      T + "is_runnable", T + "is_alive", T + "count_processes_taken", T + "get_execution",
      "core/task.py:TaskRun.is_alive"]
TRUSTED = ["specs/world.py: stand-ins of processes/threads (alive or not), conditions (arbitrary answer or error), clock, log repository",
           "specs/world.py:many_runs -- any number of live runs is represented by one whose is_alive() is their number "
           "(any/sum/truth over the runs cannot tell); the concrete runs use separate runs"]
ASSUMPTIONS = ["settings are enumerated, the number of live runs and the limit are arbitrary integers"]
FIXED = datetime.datetime(2022, 1, 1)
EXECS = ["main", "async", "thread", "process"]


def setup(ctx, where, **kw):
    "a session with one task in an arbitrary state; -> world, task, facts"
    execution, via = where
    session_multi, silence, disabled = ctx.bool("session.multilaunch"), ctx.bool("silence"), ctx.bool("disabled")
    task_multi = ctx.choice("task.multilaunch", ["unset", "set"])
    if task_multi == "set":
        task_multi = ctx.bool("task.multilaunch.value")
    else:
        task_multi = None
    limit = ctx.int("limit", 0, None if ctx.symbolic else 60)
    w = World(ctx, clock=Clock(ctx, fixed=FIXED), **({"execution": execution} if via == "session" else {}))
    put(w.session.config, multilaunch=session_multi, silence_cond_check=silence, max_process_count=limit)
    asked = ctx.choice("asked", [False, True])
    error = ctx.choice("error", [False, True])
    state = False if error else ctx.bool("cond")
    kind = execution if execution != "main" else "thread"
    t = w.probe("t", execution=execution if via == "task" else None, permanent=True,
                start_cond=Cond(state, error, tag="start"), **kw)
    put(t, disabled=disabled, multilaunch=task_multi)
    o = w.probe("o", execution="process", permanent=True)
    if execution == "async":
        # futures answer done(), there is no number to take: one run, alive or not
        own = ctx.choice("own", [0, 1])
        runs = [make_run("async", own == 1, 0.0, [])] if own else []
    else:
        own, runs = many_runs(ctx, kind, "own")
    n_proc, procs = many_runs(ctx, "process", "others")
    n_thr, threads = many_runs(ctx, "thread", "other threads")
    dead = make_run(kind, False, 0.0, [])
    run_stack(t).extend([dead] + runs)
    run_stack(o).extend(procs + threads)
    if asked:
        t.run()
    total = n_proc + (own if kind == "process" else 0)
    room = or_(execution != "process", total < limit)
    multi = session_multi if task_multi is None else task_multi
    free = or_(execution == "main", multi, own == 0)
    return w, t, dict(room=room, free=free, asked=asked, disabled=disabled, error=error, state=state, silence=silence)


CASES = [(e, v) for e in EXECS for v in ("task", "session")]


def verdict(ctx, f, got, raised):
    gates = and_(f["room"], f["free"])
    if raised:
        ctx.check(and_(f["error"], not_(f["silence"])), "a condition error surfaces only when it is not silenced")
    elif f["error"] and not f["asked"]:
        ctx.check(not_(got), "a condition error never starts the task")
        ctx.check(or_(f["silence"], not_(gates), f["disabled"]), "a condition error that is not silenced surfaces")
    else:
        want = and_(gates, or_(f["asked"], and_(not_(f["disabled"]), f["state"])))
        ctx.check(iff(got, want), "started iff there is room, it may launch, and it was asked to or is enabled and due")


@harness("C13", FN, cases=CASES, samples=150)
def gate(ctx, case):
    """ensures  is_task_runnable  <=>  room and (multilaunch or not alive) and (asked or (enabled and condition))"""
    async def main():
        w, t, f = setup(ctx, case)
        got = raised = False
        try:
            got = w.scheduler.is_task_runnable(t)
        except RuntimeError:
            raised = True
        verdict(ctx, f, got, raised)
    drive(main())


@harness("C13", FN + [S + "run_cycle", S + "run_task", T + "_clean_run_stack"], cases=CASES, samples=120)
def cycle_starts(ctx, case):
    """ensures  one cycle starts the task exactly when the gate is open, and once"""
    async def main():
        started = []
        w, t, f = setup(ctx, case, started=started)
        raised = False
        try:
            await w.scheduler.run_cycle()
        except RuntimeError:
            raised = True
        n = started.count("t")
        ctx.check(n <= 1, "a task is started at most once per cycle")
        verdict(ctx, f, n == 1, raised)
    drive(main())


@harness("C13", FN + [S + "run_cycle", S + "run_task"], cases=[1, 2, 3], samples=100,
         bound="up to 3 process tasks due in the same cycle")
def limit_holds(ctx, n):
    """ensures  the starts of one cycle never take the number of live processes above the limit"""
    async def main():
        limit = ctx.int("limit", 0, None if ctx.symbolic else 60)
        w = World(ctx, clock=Clock(ctx, fixed=FIXED))
        put(w.session.config, max_process_count=limit, multilaunch=ctx.bool("multi"))
        log = []

        def more(task):
            run_stack(task).append(make_run("process", True, 0.0, log))
        started = []
        dues = [ctx.bool("due") for _ in range(n)]
        for i in range(n):
            w.probe(f"t{i}", started, execution="process", start_cond=Cond(dues[i]), permanent=True, after=more)
        o = w.probe("o", execution="process", permanent=True, priority=-1)
        before, runs = many_runs(ctx, "process", "others")
        run_stack(o).extend(runs)
        await w.scheduler.run_cycle()
        ctx.check(or_(len(started) == 0, before + len(started) <= limit), "the limit of parallel processes is never exceeded")
        due = sum(1 for d in dues if d)
        ctx.check(or_(len(started) == due, before + len(started) >= limit), "a due task is left out only when there is no room")
    drive(main())
