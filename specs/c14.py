"""C14 -- one scheduler cycle: every ordinary task is considered, highest priority first, and no task spoils it for the others."""
import asyncio
import datetime

from pyvc import harness, iff, and_, or_, not_, implies
from rocketry.exc import TaskInactionException, TaskTerminationException
from rocketry.args import argument
from specs.world import World, Clock, Cond, make_run, run_stack, drive, put

S = "core/schedule.py:Scheduler."
T = "core/task.py:Task."
FN = [S + "run_cycle", S + "run_task", S + "is_task_runnable", S + "check_task_cond", S + "tasks", S + "on_hold",
      T + "is_runnable"]
TRUSTED = ["Python's sorted() and the iteration of the session's task set",
           "specs/world.py: stand-ins of conditions, clock, log repository and of the start of a task"]
ASSUMPTIONS = ["up to 3 tasks per cycle (priorities arbitrary integers): bounded in the number of tasks"]
FIXED = datetime.datetime(2022, 1, 1)


def start_cycle(ctx, w):
    hold = ctx.bool("hold")
    if hold:
        w.scheduler.on_hold = True
    return hold


def draw(ctx, w, n, started, **kw):
    out = []
    for i in range(n):
        due, pr = ctx.bool(f"due{i}"), ctx.int(f"priority{i}", -10**6, 10**6)
        role = ctx.choice(f"role{i}", ["ordinary", "ordinary", "startup", "shutdown"][1:])
        t = w.probe(f"t{i}", started, execution="main", start_cond=Cond(due, log=None, tag=f"t{i}"),
                    on_startup=role == "startup", on_shutdown=role == "shutdown", **kw)
        put(t, priority=pr)
        out.append((t, due, pr, role))
    return out


def check_cycle(ctx, tasks, started, hold):
    for t, due, pr, role in tasks:
        n = started.count(t.name)
        if role != "ordinary":
            ctx.check(n == 0, "startup and shutdown tasks are not started in the cycle")
        elif hold:
            ctx.check(n == 0, "nothing is started while the scheduler is on hold")
        else:
            ctx.check(iff(n == 1, due), "a due ordinary task is started exactly once")
            ctx.check(n <= 1, "no task is started twice in a cycle")
    prio = {t.name: pr for t, due, pr, role in tasks}
    for a, b in zip(started, started[1:]):
        ctx.check(prio[a] >= prio[b], "higher priority first")


@harness("C14", FN, cases=[1], samples=80)
def one_task(ctx, n):
    "the body of the cycle for an arbitrary task"
    cycle(ctx, n)


@harness("C14", FN, cases=[2, 3], samples=150, bound="2 and 3 tasks in the session")
def several_tasks(ctx, n):
    cycle(ctx, n)


def cycle(ctx, n):
    async def main():
        w = World(ctx, clock=Clock(ctx, fixed=FIXED))
        started = []
        hold = start_cycle(ctx, w)
        ts = draw(ctx, w, n, started)
        before = w.scheduler.n_cycles
        await w.scheduler.run_cycle()
        check_cycle(ctx, ts, started, hold)
        ctx.check(w.scheduler.n_cycles == before + 1, "the cycle is counted")
    drive(main())


@harness("C14", FN, cases=[2, 3], samples=100, bound="2 and 3 tasks in the session")
def state_at_the_time(ctx, n):
    """a condition is looked at when it is the turn of its task: what the earlier tasks did in the same cycle is seen"""
    async def main():
        w = World(ctx, clock=Clock(ctx, fixed=FIXED))
        started = []

        class Now(Cond):
            def observe(self, **kw):
                return len(started) == 0

            def get_state(self, **kw):
                return len(started) == 0
        for i in range(n):
            t = w.probe(f"t{i}", started, execution="main", start_cond=Now())
            put(t, priority=ctx.int(f"priority{i}", -1000, 1000))
        await w.scheduler.run_cycle()
        ctx.check(len(started) == 1, "a later task sees that an earlier one was started in the same cycle")
    drive(main())


CHANGES = ["hold", "release", "disable", "ask", "due", "not due", "remove", "new"]


@harness("C14", FN + [T + "start_async", T + "_run_as_async"], cases=[(c, e) for c in CHANGES for e in ("main", "async", "cond")], samples=20, bound="three tasks in the session")
def changed_on_the_way(ctx, case):
    """what a task (or a condition) does to the scheduler or to later tasks in the middle of a cycle counts from then on"""
    change, where = case
    async def main():
        w = World(ctx, clock=Clock(ctx, fixed=FIXED))
        ran, state = [], {"b": change != "due", "c": True}

        class Now(Cond):
            def __init__(self, n):
                super().__init__(True)
                self.n = n

            def observe(self, **kw):
                if self.n == "a" and where == "cond":
                    apply()
                return True if self.n == "a" else state[self.n]

        def apply():
            if change == "hold":
                w.scheduler.on_hold = True
            elif change == "release":
                w.scheduler.on_hold = False
            elif change == "disable":
                ts["b"].disabled = True
            elif change == "ask":
                ts["b"].run()
            elif change == "due":
                state["b"] = True
            elif change == "not due":
                state["b"] = False
            elif change == "remove":
                pass
            elif change == "new":
                ts["d"] = w.task("d", start_cond=Cond(True), priority=100, body=lambda **kw: ran.append("d"))

        def body(n):
            def f(**kw):
                ran.append(n)
                if n == "a" and where != "cond":
                    apply()
            return f
        ts = {}
        pr = {}
        for n in "abc":
            pr[n] = ctx.int("p" + n, -100, 100)
            ts[n] = w.task(n, start_cond=Now(n), body=body(n), disabled=n == "b" and change == "ask", execution="async" if n == "a" and where == "async" else "main")
            put(ts[n], priority=pr[n])
        ctx.assume(pr["a"] > pr["b"])
        ctx.assume(pr["b"] > pr["c"])
        w.scheduler.n_cycles = 0
        await w.scheduler.run_cycle()
        for _ in range(4):
            await asyncio.sleep(0)
        if where == "async":
            # the function of a has its turn when the cycle waits (or is over): the others are as they were, or as changed
            ctx.check("a" in ran and ran.count("b") <= 1 and ran.count("c") <= 1, "no task is run twice")
            return
        want = {"hold": [], "release": ["b", "c"], "disable": ["c"], "ask": ["b", "c"], "due": ["b", "c"], "not due": ["c"], "remove": ["b", "c"], "new": ["b", "c"]}[change]
        first = [] if where == "cond" and change == "hold" and "a" not in ran else ["a"]
        ctx.check([x for x in ran if x != "d"] == first + want, "each task is started as things are at its turn", f"{change} {where}: {ran}")
        ctx.check(ran.count("d") <= 1, "a new task is run at most once")
        ctx.check(w.scheduler.n_cycles == 1, "the cycle is counted")
    drive(main())


@harness("C14", FN + [T + "start_async", T + "_run_as_async"], cases=["ok", "error", "inaction", "termination", "parameter", "condition"],
         samples=40)
def others_go_on(ctx, how):
    """whatever happens to one task (its function, parameters or condition fail, silenced as by default in production),
    the other due tasks of the cycle are run"""
    async def main():
        w = World(ctx, clock=Clock(ctx), silence_task_prerun=True, silence_cond_check=True)
        ran = []

        def body(**kw):
            ran.append("first")
            if how == "error":
                raise ValueError("failed")
            if how == "inaction":
                raise TaskInactionException("nothing to do")
            if how == "termination":
                raise TaskTerminationException("terminated")

        @argument()
        def bad():
            raise ValueError("no value")
        first = w.task("first", start_cond=Cond(True, error=how == "condition"), body=body,
                       parameters={"x": bad} if how == "parameter" else {})
        second = w.task("second", start_cond=Cond(True), body=lambda **kw: ran.append("second"))
        p, q = ctx.int("p", -1000, 1000), ctx.int("q", -1000, 1000)
        put(first, priority=p)
        put(second, priority=q)
        await w.scheduler.run_cycle()
        ctx.check(ran.count("second") == 1, "the other task is run whatever happens to the first")
        ctx.check(ran.count("first") == (0 if how in ("condition", "parameter") else 1), "the first task is run once")
        ctx.check(w.actions("second") == ["run", "success"], "and recorded")
        want = {"ok": ["run", "success"], "error": ["run", "fail"], "inaction": ["run", "inaction"],
                "termination": ["run", "terminate"], "parameter": ["run", "fail"], "condition": []}[how]
        ctx.check(w.actions("first") == want, "the first task's outcome is recorded")
    drive(main())
