"""C19 -- startup and shutdown: their order, and nothing is left running."""
import asyncio
import datetime
import os
import shlex
import subprocess
import sys

from pyvc import harness, iff, and_, or_, not_, implies
from rocketry.exc import SchedulerExit, SchedulerRestart
from rocketry.conditions import SchedulerCycles
from specs.world import World, Clock, Cond, ProbeTask, make_run, many_runs, run_stack, drive, put

S, T = "core/schedule.py:Scheduler.", "core/task.py:Task."
FN = [S + "serve", S + "startup", S + "shut_down", S + "run_shutdown_tasks", S + "_shut_down_tasks", S + "wait_task_alive", S + "terminate_all",
      S + "_restart", S + "check_shut_cond", T + "_terminate_all", T + "_check_termination", "session.py:Session.shut_down", "session.py:Session.restart"]
TRUSTED = ["specs/world.py: stand-ins of running processes, threads and asyncio tasks that end after some turns of the event loop or when ended, "
           "clock, log repository", "asyncio's event loop; os.execv, os.execve and subprocess.Popen are replaced by stand-ins that record the call"]
ASSUMPTIONS = ["threads and asyncio tasks end some time after they are told to", "KeyboardInterrupt and SystemExit are outside",
               "the loops of the shutdown carry no state of their own from turn to turn (wait_step proves one turn from an arbitrary state)"]
LEVEL = "other"
FIXED = datetime.datetime(2022, 1, 1)


# ---------------------------------------------------------------- one turn of the waiting loops, any number of live runs

@harness("C19", [S + "wait_task_alive", S + "n_alive"], cases=["process", "thread"], samples=30)
def wait_step(ctx, kind):
    """waiting for the tasks returns only when no run is alive, and as soon as that is so: one turn from an arbitrary state"""
    async def main():
        w = World(ctx, clock=Clock(ctx, fixed=FIXED))
        t = w.task("t", execution=kind)
        w.task("other")
        n, runs = many_runs(ctx, kind, "alive")
        run_stack(t)[:] = runs
        co = w.scheduler.wait_task_alive()
        for turn in range(2):
            try:
                co.send(None)
            except StopIteration:
                ctx.check(n <= 0, "the wait ends only when nothing is alive")
                return
            ctx.check(n > 0, "the wait does not go on when nothing is alive")
            n, runs = many_runs(ctx, kind, f"alive{turn}")
            run_stack(t)[:] = runs
        co.close()
    drive(main())


# ---------------------------------------------------------------- whole sessions

class Stop:
    "live runs end by themselves after some turns of the loop"

    def __init__(self):
        self.turn = 0

    async def tick(self):
        while True:
            await asyncio.sleep(0)
            self.turn += 1
            if self.turn > 400:
                raise RuntimeError("the scheduler does not stop")


def living(kind, world, stop, life, log):
    "a run that is alive until turn `life` of the loop, or until it is told to end"
    r = make_run(kind, True, world.session.get_time(), log, run_id="r")
    t = r.task
    state = {"told": None}

    def alive():
        if state["told"] is not None:
            return stop.turn < state["told"]
        return stop.turn < life
    if kind == "process":
        t.is_alive = alive

        def end():
            log.append("ended")
            state["told"] = 0
        t.terminate = t.kill = end
    elif kind == "thread":
        t.is_alive = alive

        def tell():
            if state["told"] is None:
                log.append("ended")
                state["told"] = stop.turn + 2
        r.event_terminate.set = tell
    return r, alive


class Body(ProbeTask):
    do: object = None

    async def execute(self, **kw):
        if self.do is not None:
            x = self.do()
            if x is not None:
                await x


def started(args, executable=None, shell=False, **k):
    """The program and arguments that a process begun so would have"""
    if shell:
        text = args if isinstance(args, str) else args[0]       # the rest are arguments of the shell itself
        return shlex.split(text)
    args = [args] if isinstance(args, str) else list(args)
    return [str(executable), *args[1:]] if executable is not None else args


ENDINGS = ["shut cond", "called", "twice", "forced", "called later twice", "exit", "restart", "restart flag", "cond error", "cycle hook", "startup hook"]
GRACEFUL = ["shut cond", "called", "restart", "restart flag"]


@harness("C19", FN, cases=[(e, k, i) for e in ENDINGS for k in ("process", "thread", "async", "real async", "none") for i in (False, True)], samples=6,
         bound="one live run, two startup and four shutdown tasks")
def session_ends(ctx, case):
    """however the session ends: startup tasks ran first, shutdown tasks run once after the last cycle, live runs are waited for (or ended),
    nothing is alive afterwards, and only then the scheduler restarts"""
    ending, kind, instant = case
    log, events, launched = [], [], []
    stop = Stop()
    real = subprocess.Popen, os.execv, os.execve, sys.argv

    def relaunch(*a, **k):
        launched.append((w.scheduler.n_alive, w.scheduler.is_alive, "s1" in events, started(*a, **k)))

    def execv(path, argv, env=None):        # what os.execl and the others end in
        relaunch(list(argv), executable=path)
    subprocess.Popen, os.execv, os.execve = relaunch, execv, execv
    sys.argv = ["the program.py", "--first", "", "second one"]

    async def main():
        nonlocal w
        w = World(ctx, clock=Clock(ctx, fixed=FIXED), instant_shutdown=instant, silence_cond_check=False, silence_task_prerun=False,
                  restarting=ctx.choice("restarting", ["relaunch", "replace", "fresh"]) if "restart" in ending else "relaunch")
        put(w.session.config, timeout=datetime.timedelta(days=1))
        life = ctx.choice("life", [0, 3, 30])
        permanent = ctx.choice("permanent", [False, True]) if kind not in ("none", "real async") else False
        bad = ctx.choice("shutdown trouble", ["none", "task", "condition", "hook", "post hook", "pre and post"]) if kind in ("process", "none") else "none"
        sched = w.scheduler
        n = 2

        between = ctx.choice("asked", ["in a cycle", "between cycles"]) == "between cycles" if ending in ("called", "twice", "forced", "restart flag") else False

        def ask():
            if ending in ("called", "twice", "called later twice"):
                w.session.shut_down()
            if ending == "twice":
                w.session.shut_down()
            if ending == "forced":
                w.session.shut_down(force=True)
            if ending == "restart flag":
                w.session.restart()

        async def ask_between():
            while sched.n_cycles is None or sched.n_cycles < n:
                await asyncio.sleep(0)
            ask()

        def ctl():
            events.append("cycle")
            n_now = events.count("cycle")
            if n_now == n:
                if not between:
                    ask()
                if ending == "exit":
                    raise SchedulerExit()
                if ending == "restart":
                    raise SchedulerRestart()
        Body(name="ctl", session=w.session, execution="main", start_cond=Cond(True), do=ctl)
        if ending == "shut cond":
            put(w.session.config, shut_cond=SchedulerCycles() >= n)
        if ending == "cond error":
            class Late(Cond):
                def observe(self, **kw):
                    if events.count("cycle") >= n - 1:
                        raise RuntimeError("condition failed")
                    return False
            w.task("bad", start_cond=Late(False), priority=-10)

        def hook():
            if events.count("cycle") >= n - 1:
                raise RuntimeError("hook failed")
        if ending == "cycle hook":
            w.session.hooks.scheduler_cycle.append(lambda: hook() if events.count("cycle") else None)
        if ending == "startup hook":
            def startup_hook():
                raise RuntimeError("hook failed")
            w.session.hooks.scheduler_startup.append(startup_hook)
        Body(name="u1", session=w.session, execution="main", on_startup=True, do=lambda: events.append("u1"))
        Body(name="u2", session=w.session, execution="main", on_startup=True, start_cond=Cond(False), do=lambda: events.append("u2"))
        s2 = ctx.choice("s2", [False, True]) if ending in ("called", "exit") else True

        def failing():
            events.append("s1")
            if bad == "task":
                raise SchedulerExit()
        Body(name="s1", session=w.session, execution="main", on_shutdown=True, priority=5, do=failing)
        Body(name="s2", session=w.session, execution="main", on_shutdown=True, start_cond=Cond(s2, error=bad == "condition"), do=lambda: events.append("s2"))
        Body(name="s3", session=w.session, execution="main", on_shutdown=True, disabled=True, do=lambda: events.append("s3"))
        Body(name="both", session=w.session, execution="main", on_shutdown=True, start_cond=Cond(False), do=lambda: events.append("both"))
        if bad in ("hook", "post hook", "pre and post"):
            def shutdown_hook():
                if bad == "hook":
                    raise RuntimeError("hook failed")
                yield
                if bad == "post hook":
                    raise RuntimeError("hook failed")
            w.session.hooks.scheduler_shutdown.append(shutdown_hook)
        alive = lambda: False   # noqa
        if kind in ("process", "thread", "async"):
            t = w.task("live", execution=kind, permanent=permanent)
            r, alive = living(kind, w, stop, life, log)
            if kind == "async":
                f = r.task
                f.done = lambda: not (f._valive and stop.turn < life)
                f.cancel = lambda msg=None: (log.append("ended"), setattr(f, "_valive", bool(f._valive and stop.turn < life)))[0] or True
                alive = lambda: not f.done()   # noqa
            run_stack(t)[:] = [r]
        elif kind == "real async":
            async def long():
                try:
                    for _ in range(life):
                        await asyncio.sleep(0)
                    events.append("finished")
                except asyncio.CancelledError:
                    events.append("cancelled")
                    raise
            t = Body(name="live", session=w.session, execution="async", priority=10, do=long, start_cond=Cond(True))
            t.multilaunch = False
        ticker = asyncio.ensure_future(stop.tick())
        if ending == "called later twice":
            async def again():
                while "s1" not in events:
                    await asyncio.sleep(0)
                await asyncio.sleep(0)
                w.session.shut_down()
            later = asyncio.ensure_future(again())
        error = None
        asker = asyncio.ensure_future(ask_between()) if between else None
        try:
            await w.scheduler.serve()
        except (Exception, asyncio.CancelledError) as e:
            error = e
        finally:
            if ticker.done():
                ctx.check(False, "the scheduler stops")
            ticker.cancel()
            if asker is not None:
                asker.cancel()
            if ending == "called later twice":
                later.cancel()
        ctx.check(sched.is_alive is False or sched.is_alive == False, "the scheduler is left not running")     # noqa
        ctx.check(sched.n_alive == 0 and not alive(), "nothing is left running")
        fatal = ending in ("cond error", "cycle hook", "startup hook")
        if fatal and bad == "none":
            ctx.check(isinstance(error, RuntimeError), "a fatal error is raised")
        elif bad == "none":
            ctx.check(error is None, "an ordinary end raises nothing", repr(error))
        else:
            expect = bad in ("pre and post",) and not fatal
            ctx.check((error is None) == expect, "trouble in the shutdown is raised", repr(error))
        if ending != "startup hook":
            ctx.check(events.count("u1") == 1 and events[0] == "u1" and "u2" not in events, "startup tasks run once and first")
            if ending not in ("cycle hook", "cond error"):
                ctx.check(events.count("cycle") == n, "no cycle is run after the end is asked for", str(events))
        else:
            ctx.check("cycle" not in events, "no cycle is run after a failed startup")
        if bad in ("none", "post hook", "pre and post"):
            ctx.check(events.count("s1") == 1 and events.count("s2") == (1 if s2 else 0), "shutdown tasks that may run are run once", str(events))
        ctx.check("s3" not in events and "both" not in events, "disabled shutdown tasks and those not due are not run")
        if "s1" in events and "cycle" in events:
            last = len(events) - 1 - events[::-1].index("cycle")
            ctx.check(events.index("s1") > last, "shutdown tasks run after the last cycle")
        # waited for or ended
        graceful = ending in GRACEFUL and not instant
        forced = instant or ending in ("forced", "twice", "exit") or fatal
        if kind in ("process", "thread", "async") and bad == "none":
            if graceful and not permanent:
                ctx.check(not log, "live runs are waited for")
            if life == 30 and ending != "called later twice":
                if permanent or forced:
                    ctx.check(len(log) >= 1, "live runs are ended")
            if ending == "called later twice" and life == 30:
                ctx.check(len(log) >= 1, "calling the shutdown again ends the live runs")
            if life == 0:
                ctx.check(not log, "finished runs are not ended")
        if kind == "real async" and bad == "none" and ending != "startup hook" and graceful:
            ctx.check("cancelled" not in events and "finished" in events, "live asyncio tasks are waited for")
        # restart
        if bad == "none":
            want = ending in ("restart", "restart flag")
            ctx.check(len(launched) == (1 if want else 0), "the scheduler restarts exactly when asked to")
            if want:
                ctx.check(launched[0][0] == 0 and not launched[0][1] and launched[0][2], "it restarts after the shutdown is complete")
                ctx.check(launched[0][3] == [sys.executable, *sys.argv], "the same program is begun with the same arguments", repr(launched[0][3]))
    w = None
    try:
        drive(main())
    finally:
        subprocess.Popen, os.execv, os.execve, sys.argv = real


@harness("C19", FN, cases=["shut cond", "called", "forced", "restart"], samples=6, bound="two sessions in a row")
def again(ctx, ending):
    """a scheduler that has ended can be started again: what ended the first session does not end (or force) the second"""
    events, log = [], []
    stop = Stop()
    real = subprocess.Popen, os.execv, os.execve, sys.argv
    subprocess.Popen = os.execv = os.execve = lambda *a, **k: events.append("relaunch")

    async def main():
        w = World(ctx, clock=Clock(ctx, fixed=FIXED), restarting="relaunch")
        put(w.session.config, timeout=datetime.timedelta(days=1), shut_cond=SchedulerCycles() >= 3)

        def ctl():
            events.append("cycle")
            if events.count("cycle") == 2:
                if ending == "called":
                    w.session.shut_down()
                if ending == "forced":
                    w.session.shut_down(force=True)
                if ending == "restart":
                    w.session.restart()
        Body(name="ctl", session=w.session, execution="main", start_cond=Cond(True), do=ctl)
        ticker = asyncio.ensure_future(stop.tick())
        await w.scheduler.serve()
        first = events.count("cycle")
        ctx.check(first == (3 if ending == "shut cond" else 2), "the first session ends when asked")
        t = w.task("live", execution="process")
        r, alive = living("process", w, stop, stop.turn + 12, log)
        run_stack(t)[:] = [r]
        if ctx.choice("hold", [False, True]):
            w.scheduler.on_hold = True
        await w.scheduler.serve()
        ctx.check(events.count("cycle") - first == 3, "the second session has its own end")
        ctx.check(not log and w.scheduler.n_alive == 0, "the second session waits for its runs")
        ticker.cancel()
    try:
        drive(main())
    finally:
        subprocess.Popen, os.execv, os.execve, sys.argv = real
