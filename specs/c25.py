"""C25 -- hooked functions run around what they are hooked to, every time."""
import asyncio
import datetime
import functools
import itertools

from pyvc import harness
from rocketry import Session, Rocketry
from rocketry.args import Task as TaskArg, Session as SessionArg, Config as ConfigArg
from rocketry.exc import TaskInactionException, TaskTerminationException, SchedulerRestart, SchedulerExit
from rocketry.tasks import FuncTask, CommandTask, CodeTask
from specs.world import World, Clock, Cond, ProbeTask, Syncs, drive, put

H, S, T = "core/hook.py:_Hooker.", "core/schedule.py:Scheduler.", "core/task.py:Task."
TRUSTED = ["specs/world.py: SyncThread/SyncProcess (threads and processes run inside start(); a process on a copy of the task), clock, log repository",
           "inspect.isgeneratorfunction, inspect.signature"]
ASSUMPTIONS = ["at most three hooks of each sort, a generator yields once", "the hooks do not fail", "for task execution: the parameters of the run can be formed",
               "hooks of a task in a process can be pickled", "the start and the cycles the second parts follow are not broken off by a crash of the scheduler"]
FIXED = datetime.datetime(2022, 1, 1)
EXECS = ["main", "async", "thread", "process"]
KINDS = ["plain", "gen", "partial", "partial gen"]
MIXES = [()] + [(k,) for k in KINDS] + list(itertools.product(["plain", "gen"], repeat=2)) + [("gen", "plain", "gen"), ("partial gen", "gen", "plain"), ("gen", "gen", "gen")]
OUTCOMES = {"returns": (None, None), "raises": (ValueError, "fail"), "inacts": (TaskInactionException, "inaction"),
            "terminates": (TaskTerminationException, "terminate"), "restart": (SchedulerRestart, "success"), "exit": (SchedulerExit, "success"),
            "cancelled": (asyncio.CancelledError, "terminate")}


def make_hook(kind, i, log, got):
    "a hook that notes its calls; got(**values of its arguments)"
    if "gen" in kind:
        def hook(tag, task=TaskArg(default=None), session=SessionArg(default=None)):
            log.append(("pre", i))
            got(task, session)
            sent = yield
            log.append(("post", i, sent))
    else:
        def hook(tag, task=TaskArg(default=None), session=SessionArg(default=None)):
            log.append(("pre", i))
            got(task, session)
    if "partial" in kind:
        return functools.partial(hook, tag=i)
    if "gen" in kind:
        def bare(task=TaskArg(default=None), session=SessionArg(default=None)):
            yield from hook(i, task, session)
    else:
        def bare(task=TaskArg(default=None), session=SessionArg(default=None)):
            hook(i, task, session)
    return bare


def around(mix, middle):
    "what is expected: (first parts in order, middle, second parts of the generators in order)"
    return [("pre", i) for i in range(len(mix))] + list(middle) + [("post", i) for i, k in enumerate(mix) if "gen" in k]


def short(log):
    return [e[:2] if e[0] in ("pre", "post") else e for e in log]


class Run(ProbeTask):
    how: object = "returns"

    def execute(self, **kwargs):
        self.body()
        if self.how != "returns":
            raise OUTCOMES[self.how][0]("as asked")
        return 1


@harness("C25", [H + "prerun", H + "postrun", T + "_run_as_async", T + "_run_as_main", T + "_run_as_thread", T + "_run_as_process", T + "run_as_process",
                 T + "_get_hooks", "session.py:Session.hook_task_execute"],
         cases=[(e, m) for e in EXECS for m in MIXES], samples=4, bound="at most three hooks, two runs")
def execution(ctx, case):
    "the hooks of task execution run around every run, whatever its outcome, and the second parts get what it raised"
    how, mix = case
    Syncs.on = True
    try:
        async def main():
            w = World(ctx, clock=Clock(ctx, fixed=FIXED), silence_task_prerun=False)
            log, args = [], []
            for i, k in enumerate(mix):
                h = make_hook(k, i, log, lambda task, session: args.append(task))
                ctx.check(w.session.hook_task_execute()(h) is h, "registering a hook gives the function back")
            t = Run(name="t", session=w.session, execution=how, body=lambda: log.append(("body",)))
            other = w.task("other")
            for _ in range(2):
                outcome = ctx.choice("outcome", list(OUTCOMES))
                t.__dict__["how"] = outcome
                del log[:], args[:]
                try:
                    await t.start_async()
                    for _ in range(6):
                        await asyncio.sleep(0)
                except (Exception, asyncio.CancelledError):
                    pass
                w.scheduler.handle_logs()
                ctx.check(short(log) == around(mix, [("body",)]), "first parts, the task, second parts, in order, once", f"{outcome}: {short(log)}")
                exc = OUTCOMES[outcome][0]
                for e in log:
                    if e[0] == "post":
                        ctx.check(isinstance(e[2], tuple) and len(e[2]) == 3 and e[2][0] is exc and (e[2][1] is None if exc is None else isinstance(e[2][1], exc)),
                                  "the second part gets the exception of the run, if any", f"{outcome}: {e[2]!r}")
                ctx.check(len(args) == len(mix) and all(a is not None and a.name == "t" and (a is t or how == "process") for a in args), "the hook gets the task")
                if how != "async" or outcome not in ("restart", "exit"):
                    ctx.check(t.status == (OUTCOMES[outcome][1] or "success"), "the run has its outcome", f"{outcome}: {t.status}")
        drive(main())
    finally:
        Syncs.on = False


@harness("C25", [S + "startup", S + "run_cycle", S + "shut_down", S + "serve", "session.py:Session.hook_startup", "session.py:Session.hook_shutdown",
                 "session.py:Session.hook_scheduler_cycle", "application.py:Rocketry.setup"],
         cases=[(m, k) for m in MIXES for k in ("startup", "cycle", "shutdown", "setup")], samples=4, bound="at most three hooks, at most three cycles")
def scheduler(ctx, case):
    """the hooks of the scheduler run around its start (before and after the start-up tasks), around each cycle and around its end (before and after the
    shutdown tasks), also when the scheduler is ended by an exit, a failure or a failing task"""
    mix, kind = case
    w = World(ctx, clock=Clock(ctx, fixed=FIXED), silence_task_prerun=True)
    log, args = [], []
    n = ctx.choice("cycles", [1, 3])
    boom = ctx.choice("ends by", ["condition", "exit", "shutdown task fails", "cycle fails"])
    app = Rocketry(session=w.session)
    for i, k in enumerate(mix):
        h = make_hook(k, i, log, lambda task, session: args.append(session))
        reg = {"startup": w.session.hook_startup, "cycle": w.session.hook_scheduler_cycle, "shutdown": w.session.hook_shutdown, "setup": app.setup}[kind]
        back = app.setup(h) if kind == "setup" and ctx.choice("form", [True, False]) else reg()(h)
        ctx.check(back is h, "registering a hook gives the function back")
    count = []

    def note(what):
        def f(**kw):
            log.append((what,))
            if what == "run":
                count.append(1)
                if boom == "exit" and len(count) == n:
                    raise SchedulerExit()
            if what == "end" and boom == "shutdown task fails":
                raise RuntimeError("fails")
        return f
    ProbeTask(name="first", session=w.session, body=note("start"), on_startup=True, execution="main")
    ProbeTask(name="last", session=w.session, body=note("end"), on_shutdown=True, execution="main")
    ProbeTask(name="task", session=w.session, body=note("run"), start_cond=Cond(True), execution="main")
    if boom == "cycle fails":
        put(w.session.config, silence_cond_check=False)

        class After(Cond):
            def observe(self, **kw):
                if len(count) == n:
                    raise RuntimeError("fails")
                return False
        ProbeTask(name="bad", session=w.session, start_cond=After(), execution="main", priority=-1)

    class Shut(Cond):
        def observe(self, **kw):
            return len(count) >= n
    w.session.config.shut_cond = Shut()
    err = None
    try:
        drive(w.scheduler.serve())
    except BaseException as e:           # noqa
        if type(e).__module__.startswith("pyvc"):
            raise
        err = e
    got = short(log)
    runs = [("run",)] * n
    if kind in ("startup", "setup"):
        want = around(mix, [("start",)]) + runs + [("end",)]
    elif kind == "cycle":
        want = [("start",)]
        for i in range(n):
            cyc = around(mix, [("run",)])
            if i == n - 1 and boom in ("exit", "cycle fails"):
                cyc = cyc[:len(mix) + 1]
            want += cyc
        want += [("end",)]
    else:
        want = [("start",)] + runs + around(mix, [("end",)])
    ctx.check(got == want, "the hooks run around, in order, once each time", f"{boom}: {got} instead of {want} ({err!r})")
    ctx.check(all(a is w.session for a in args), "the hooks get the session")


FORMS = ["custom", "func", "func by session", "decorator", "app", "app.cond", "command", "code", "create_task"]


@harness("C25", [T + "__init__", H + "prerun", H + "postrun", "session.py:Session.hook_task_init", "session.py:Session.create_task", "application.py:_AppMixin.task",
                 "tasks/func.py:FuncTask.__init__", "tasks/func.py:FuncTask.__call__"],
         cases=[(f, m) for f in FORMS for m in MIXES], samples=3, bound="at most three hooks, two tasks")
def creation(ctx, case):
    "the hooks of task creation of the session the task is made for run around its making"
    form, mix = case
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    app = Rocketry(session=w.session)
    default, other = ctx.choice("default", [True, False]), Session()
    log, args, wrong, there = [], [], [], []
    import rocketry
    old = rocketry.session
    try:
        (w.session if default else other).set_as_default()
        other.hook_task_init()(lambda: wrong.append(1))
        for i, k in enumerate(mix):
            h = make_hook(k, i, log, lambda task, session: (args.append((task, session)), there.append(len(w.session.tasks))))
            ctx.check(w.session.hook_task_init()(h) is h, "registering a hook gives the function back")
        for n in ("a", "b"):
            del log[:], args[:], there[:]
            before = len(w.session.tasks)

            def f():
                pass
            if form == "custom":
                ProbeTask(name=n, session=w.session)
            elif form == "func":
                FuncTask(f, name=n, session=w.session)
            elif form == "func by session":
                w.session.create_task(func=f, name=n)
            elif form == "decorator":
                FuncTask(name=n, session=w.session)(f)
            elif form == "app":
                app.task("daily", name=n)(f)
            elif form == "app.cond":
                app.task(name=n, func=f)
            elif form == "command":
                CommandTask(command="x", name=n, session=w.session)
            elif form == "code":
                CodeTask(code="x = 1", name=n, session=w.session)
            else:
                w.session.create_task(command="x", name=n)
            ctx.check(short(log) == around(mix, []), "the hooks run once for the task, in order", f"{short(log)}")
            t = w.session[n]
            ctx.check(len(args) == len(mix) and all(a is t for a, _ in args), "the hook gets the task")
            ctx.check(all(s is w.session for _, s in args), "the hook gets the session of the task")
            ctx.check(all(x == before for x in there), "the first part is run before the task is in the session")
            ctx.check(not wrong, "the hooks of another session are not run")
    finally:
        old.set_as_default()


@harness("C25", ["session.py:Session.hook_startup", "session.py:Session.hook_shutdown", "session.py:Session.hook_scheduler_cycle", "session.py:Session.hook_task_init",
                 "session.py:Session.hook_task_execute"], samples=6)
def apart(ctx, case=None):
    "a hook of one sort is not run for another, nor for another session"
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    other = Session()
    names = ["startup", "shutdown", "scheduler_cycle", "task_init", "task_execute"]
    name = ctx.choice("sort", names)
    log = []
    getattr(w.session, "hook_" + name)()(lambda: log.append(name))
    h = w.session.hooks
    for k in ("scheduler_startup", "scheduler_shutdown", "scheduler_cycle", "task_init", "task_execute"):
        ctx.check(len(getattr(h, k)) == (k.endswith(name)), "only its own sort has it", k)
        ctx.check(len(getattr(other.hooks, k)) == 0, "and no other session", k)
