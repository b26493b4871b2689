"""C16 -- every run is recorded with one start and one outcome."""
import asyncio
import datetime
import sys

from pyvc import harness, iff, and_, or_, not_, implies
from rocketry.exc import TaskInactionException, TaskTerminationException, SchedulerRestart, SchedulerExit
from rocketry.args import argument, Task as TaskArg
from rocketry.core.parameters import BaseArgument
from specs.world import World, Clock, Cond, ProbeTask, Syncs, SyncProcess, SyncThread, make_run, run_stack, drive, put, stamp, queue_name

S = "core/schedule.py:Scheduler."
T = "core/task.py:Task."
FN = [T + f for f in ("start_async", "_run_as_async", "_run_as_main", "run_as_thread", "_run_as_thread", "run_as_process", "_run_as_process",
                      "_lock_to_run_log", "log_running", "log_success", "log_failure", "log_inaction", "log_termination",
                      "log_record", "_set_status", "_get_last_action", "_handle_return", "get_run_id", "get_extra_params",
                      "_get_direct_params")] \
    + [S + "run_cycle", S + "run_task", S + "handle_logs", S + "_log_task", "core/hook.py:_Hooker.prerun", "core/hook.py:_Hooker.postrun"]
TRUSTED = ["specs/world.py: SyncThread/SyncProcess run a thread or process to its end inside start() (a process on a copy of the "
           "task); arbitrary interleavings of several runs are not explored", "clock, log repository (append-only list)"]
ASSUMPTIONS = ["the log storage accepts the records", "the function that names runs does not fail",
               "KeyboardInterrupt, killed processes and (in the main thread) SystemExit are outside"]

EXECS = ["main", "async", "thread", "process"]
# outcome of the function -> what is recorded
BODY = {"returns": "success", "raises": "fail", "inacts": "inaction", "terminates": "terminate",
        "restart": "success", "exit": "success", "sysexit": "fail", "cancelled": "terminate"}
FINISH = {"success": "succeeded", "fail": "failed", "inaction": "inaction", "terminate": "termination"}     # as process_finish has it
# failures around it -> what is recorded instead (None: the same as without it)
AROUND = {"nothing": None, "prerun hook": "fail", "parameter": "fail", "filter": "fail", "process_success": "fail",
          "process_failure": None, "process_finish": None, "postrun hook": None, "pre-parameter": "fail", "session parameter": "fail"}


class Run(ProbeTask):
    how: object = "returns"
    around: object = "nothing"
    value: object = None
    seen: object = None
    told: object = None

    def tell(self, *what):
        if self.told is not None:
            self.told.append(what)

    def act(self):
        if self.seen is not None:
            self.seen.append(self.name)
        if self.how == "raises":
            raise ValueError("failed")
        if self.how == "inacts":
            raise TaskInactionException("nothing to do")
        if self.how == "terminates":
            raise TaskTerminationException("terminated")
        if self.how == "restart":
            raise SchedulerRestart()
        if self.how == "exit":
            raise SchedulerExit()
        if self.how == "sysexit":
            sys.exit(1)
        if self.how == "cancelled":
            raise asyncio.CancelledError()
        return self.value

    def execute(self, **kwargs):
        return self.act()

    def boom(self, what):
        if self.around == what:
            raise RuntimeError(what)

    def postfilter_params(self, params):
        self.boom("filter")
        return params

    def process_success(self, output):
        self.tell("success", output)
        self.boom("process_success")

    def process_failure(self, *a):
        self.tell("failure", a[0])
        self.boom("process_failure")

    def process_finish(self, status):
        self.tell("finish", status)
        self.boom("process_finish")


class AsyncRun(Run):
    async def execute(self, **kwargs):
        await asyncio.sleep(0)
        return self.act()


@argument()
def bad_value():
    raise ValueError("no value")


class BadPre(BaseArgument):
    def get_value(self, *a, **k):
        return 1

    def stage(self, *a, **k):
        raise ValueError("no value")


def hooks(w, around):
    if around == "prerun hook":
        def pre(task=TaskArg()):
            raise RuntimeError("pre hook")
        w.session.hooks.task_execute.append(pre)
    else:
        def post(task=TaskArg()):
            yield
            if around == "postrun hook":
                raise RuntimeError("post hook")
        w.session.hooks.task_execute.append(post)


def expected(how, around, execution):
    "-> the recorded outcome"
    if around == "pre-parameter" and execution in ("main", "async"):
        around = "nothing"                                     # nothing is materialised beforehand
    if around in ("prerun hook", "parameter", "filter", "pre-parameter", "session parameter"):
        return "fail"
    if around == "process_success" and how in ("returns",):
        return "fail"
    return BODY[how]


def make(w, cls, execution, how, around, name="t", value=None, **kw):
    params = {}
    if around == "parameter":
        params["x"] = bad_value
    if around == "pre-parameter":
        params["x"] = BadPre()
    if around == "session parameter":
        w.session.parameters["y"] = bad_value
    return cls(name=name, session=w.session, execution=execution, how=how, around=around, value=value, parameters=params, **{"permanent": True, **kw})


def pairs(ctx, w, name, outcomes):
    "the records are a start and an outcome of each run, in that order"
    g = w.repo.get
    rows = w.repo.of(name)
    ids = []
    for r in rows:
        if g(r, "run_id") not in ids:
            ids.append(g(r, "run_id"))
    ctx.check(None not in ids, "every record names its run")
    ctx.check(len(ids) == len(outcomes), "one run id per run", lambda: (rows, outcomes))
    got = []
    for i in ids:
        mine = [r for r in rows if g(r, "run_id") == i]
        acts = [g(r, "action") for r in mine]
        ctx.check(len(acts) == 2 and acts[0] == "run", "one start and then one outcome per run", lambda: (acts, outcomes))
        got.append(acts[1])
        run, out = mine
        ctx.check(g(out, "start") == g(run, "start"), "the outcome has the start of its own run")
        ctx.check(and_(g(out, "end") >= g(out, "start"), g(out, "runtime") == g(out, "end") - g(out, "start")),
                  "the outcome's times: end not before start, run time their difference")
        ctx.check(and_(g(run, "created") >= g(run, "start"), g(out, "created") >= g(run, "created")), "records are timed in order")
        if acts[1] == "fail":
            ctx.check(bool(g(out, "has_exc")), "a failure carries its error")
    ctx.check(sorted(got) == sorted(outcomes), "the outcome is the one the run had", lambda: (got, outcomes))
    return rows


def plausible(execution, how):
    if how == "sysexit":
        return execution in ("thread", "process")
    return True


CASES = [(e, h, c) for e in EXECS for h in BODY if plausible(e, h) for c in ("def", "async def")]


async def once(w, t):
    try:
        await w.scheduler.run_cycle()
    except (SchedulerRestart, SchedulerExit):
        ctx_raised = True
    else:
        ctx_raised = False
    for _ in range(8):                                          # let async runs finish
        await asyncio.sleep(0)
    w.scheduler.handle_logs()
    return ctx_raised


@harness("C16", FN, cases=CASES, samples=12)
def one_run(ctx, case):
    """for every outcome of the function and every failure around it: one start, one outcome of the right kind, same run;
    the status, the last times and the return value agree with it"""
    execution, how, cls = case
    cls = Run if cls == "def" else AsyncRun
    around = ctx.choice("around", list(AROUND))
    as_dict, from_logs = ctx.choice("as_dict", [False, True]), ctx.choice("from_logs", [False, True])
    Syncs.on = True
    try:
        async def main():
            at_log = []
            w = World(ctx, as_dict=as_dict, silence_task_prerun=True, force_status_from_logs=from_logs,
                      log_fail=lambda r: r.action == "success" and at_log.append(w.session.returns.get(t, None)))
            hooks(w, around)
            seen, told = [], []
            value = object()
            t = make(w, cls, execution, how, around, value=value, seen=seen, told=told, start_cond=Cond(True))
            raised = await once(w, t)
            want = expected(how, around, execution)
            rows = pairs(ctx, w, "t", [want])
            ran = len(seen)
            early = around in ("prerun hook", "parameter", "filter", "session parameter") or (
                around == "pre-parameter" and execution in ("thread", "process"))
            ctx.check(ran == (0 if early else 1), "the function is run once")
            if early:
                ctx.check(told == [], "nothing is processed of a run that did not get to its function")
            elif how != "sysexit":
                ctx.check(told[-1:] == [("finish", FINISH[want])] and [x[0] for x in told].count("finish") == 1,
                          "the task's own processing is told the outcome at the end", lambda: told)
                ctx.check(("failure" in [x[0] for x in told]) == (want == "fail"), "a failure, and nothing else, is processed as such", lambda: told)
                if how in ("returns", "restart", "exit"):
                    ctx.check(told[0] == ("success", value if how == "returns" else None), "a success is processed with its return value", lambda: told)
                else:
                    ctx.check("success" not in [x[0] for x in told], "nothing but a success is processed as such", lambda: told)
            if around not in ("process_success", "process_finish", "postrun hook"):
                ctx.check(raised == (how in ("restart", "exit") and execution == "main" and not early), "restart and exit requests go on to the scheduler")
            ctx.check(t.status == want, "the task's status is the outcome")
            last = {"success": t.last_success, "fail": t.last_fail, "terminate": t.last_terminate, "inaction": t.last_inaction}
            ctx.check(t.last_run is not None, "the last run is known")
            for k, v in last.items():
                ctx.check((v is not None) == (k == want), "only the outcome's own last time is set")
            ctx.check(last[want] >= t.last_run, "the outcome is not before the start")
            ctx.check(t.last_crash is None, "no crash is recorded")
            got = w.session.returns.get(t, None)
            if want == "success" and how == "returns":
                ctx.check(got is value, "the return value is kept")
                ctx.check(at_log == [value], "the return value is there when the success is recorded")
            else:
                ctx.check(got is None, "no return value without a success")
            ctx.check(not t.is_alive(), "the run is over")
            ctx.check(not t.batches, "a request to run is used up")
        drive(main())
    finally:
        Syncs.on = False


@harness("C16", FN, cases=[(e, h) for e in EXECS for h in ("returns", "raises", "inacts", "terminates")], samples=12,
         bound="sequences of 3 runs of one task, asked with parameters or due")
def sequence(ctx, case):
    """consecutive runs of one task each get their own records; the outcome of one does not leak into the next"""
    execution, first = case
    Syncs.on = True
    try:
        async def main():
            w = World(ctx, silence_task_prerun=True)
            hooks(w, "nothing")
            t = make(w, Run, execution, first, "nothing")
            outcomes = []
            for k in range(3):
                t.how = first if k == 0 else ctx.choice(f"how{k}", ["returns", "raises", "inacts", "terminates"])
                t.around = "nothing" if k == 0 else ctx.choice(f"around{k}", ["nothing", "filter", "process_finish"])
                outcomes.append(expected(t.how, t.around, execution))
                t.run()
                await once(w, t)
                ctx.check(t.status == outcomes[-1], "the task's status is the latest outcome")
            pairs(ctx, w, "t", outcomes)
        drive(main())
    finally:
        Syncs.on = False


@harness("C16", FN, cases=[(a, b, x) for a in ("returns", "raises", "inacts", "terminates") for b in ("returns", "raises", "inacts", "terminates")
                           for x in ("nothing", "parameter", "filter")], samples=8, bound="2 overlapping runs of one async task")
def overlapping(ctx, case):
    """two runs of one task at the same time (multiple launches): each has its own start and outcome, also when the second
    fails before its function"""
    a, b, around = case
    async def main():
        w = World(ctx, silence_task_prerun=True, multilaunch=True)
        gate = [None, None]
        how = [a, b]
        n = []

        class Two(Run):
            async def execute(self, **kwargs):
                i = len(n)
                n.append(i)
                await gate[i]
                self.how = how[i]
                return self.act()
        t = make(w, Two, "async", "returns", "nothing")
        for i in range(2):
            gate[i] = asyncio.get_running_loop().create_future()
        order = ctx.choice("order", [(0, 1), (1, 0)])
        t.run()
        await once(w, t)
        if around == "parameter":
            t.run(x=bad_value)
        else:
            t.around = around
            t.run()
        await once(w, t)
        t.around = "nothing"
        for i in order:
            gate[i].set_result(None)
            for _ in range(6):
                await asyncio.sleep(0)
        pairs(ctx, w, "t", [expected(a, "nothing", "async"), expected(b, around, "async")])
        ctx.check(not t.is_alive(), "both runs are over")
    drive(main())


@harness("C16", FN + [T + "_terminate_run", T + "_terminate_all", T + "_check_termination"], cases=["waiting", "not begun", "finishing", "catches", "cleans up"], samples=20)
def terminated_async(ctx, when):
    """an async run that is ended: exactly one outcome, a termination unless the function got to its own outcome"""
    async def main():
        w = World(ctx, silence_task_prerun=True)
        put(w.session.config, timeout=datetime.timedelta(days=1))
        release = asyncio.get_running_loop().create_future()

        class Slow(Run):
            async def execute(self, **kwargs):
                try:
                    await release
                except asyncio.CancelledError:
                    if when == "catches":
                        return 1
                    if when == "cleans up":
                        raise ValueError("cleaning failed")
                    raise
        t = make(w, Slow, "async", "returns", "nothing", permanent=True)
        t.run()
        if when == "not begun":
            t.terminate()
            await w.scheduler.run_cycle()                       # started and ended in the same cycle
        else:
            await once(w, t)
            ctx.check(w.actions("t") == ["run"], "a live run has only its start")
            if when == "finishing":
                release.set_result(None)
            t.terminate()
            await once(w, t)
        want = {"waiting": ["terminate"], "not begun": ["terminate"], "catches": ["success"], "cleans up": ["fail"],
                "finishing": ["success", "terminate"]}[when]
        got = w.actions("t")
        ctx.check(len(got) == 2 and got[1] in want, "one outcome, a termination unless the function ended otherwise", lambda: got)
        pairs(ctx, w, "t", [got[1]])
        ctx.check(not t.is_alive(), "the run is over")
    drive(main())


@harness("C16", FN + [T + "_terminate_run", T + "_terminate_all", T + "_check_termination"], cases=["run", "success", "fail", "inaction", "terminate"], samples=20)
def terminated_process(ctx, sent):
    """a process that is ended: its outcome is the one it had already sent, or else a termination"""
    import logging
    async def main():
        w = World(ctx, silence_task_prerun=True)
        t = make(w, Run, "process", "returns", "nothing", permanent=True)
        log = []
        now = w.clock()
        r = make_run("process", True, now, log, run_id="r1")
        r.task.pid = 4711
        q = getattr(w.scheduler, queue_name(w.scheduler))

        def send(action):
            extra = dict(action=action, task_name="t", run_id="r1", start=now, end=now, runtime=0.0)
            if action == "success":
                extra["__return__"] = 5
            rec = logging.LogRecord("rocketry.task._process", logging.INFO, "f", 1, "m", (), None)
            rec.__dict__.update(extra)
            rec.process, rec.message, rec.exc_text = 4711, "m", None
            rec.created = w.clock()
            q.put(rec)
        run_stack(t).append(r)
        send("run")
        w.scheduler.handle_logs()
        ctx.check(w.actions("t") == ["run"], "the start is recorded")
        if ctx.choice("when", ["before", "at the time"]) == "before":
            if sent != "run":
                send(sent)
            w.scheduler.handle_logs()
        elif sent != "run":
            send(sent)
        await w.scheduler.terminate_task(t, reason="test")
        w.scheduler.handle_logs()
        want = sent if sent != "run" else "terminate"
        ctx.check(w.records("t") == [("run", "r1"), (want, "r1")], "one outcome: the one it had, or termination", lambda: w.records("t"))
        ctx.check(t.status == want, "the status is the outcome")
        ctx.check(len(log) == 1, "the process is ended")
    drive(main())


@harness("C16", ["log/log_record.py:TaskLogRecord.format_start", "log/log_record.py:TaskLogRecord.format_end", "log/log_record.py:TaskLogRecord.format_runtime"],
         cases=["TaskLogRecord", "TaskRunRecord"], samples=1, bound="the listed times")
def record_models(ctx, model):
    """records read through the record models: the times are those of the record, the run time is the time between them"""
    import rocketry.log as models
    cls = getattr(models, model, None)
    if cls is None:
        ctx.unsupported("no such record model")
    base = datetime.datetime(2022, 1, 1, 12, 30).timestamp()
    for start in (base, base + 0.25, base + 86400.5):
        for dur in (0.0, 0.5, 1.0, 59.0, 3600.0, 100000.25):
            r = cls(task_name="t", action="success", created=start + dur, start=start, end=start + dur, runtime=dur, message="m", exc_text=None, run_id="r")
            ctx.check(r.start.timestamp() == start and r.end.timestamp() == start + dur, "the times are those of the record")
            ctx.check(abs((r.end - r.start - r.runtime).total_seconds()) < 1e-5, "the run time is the time between start and end", str(r))
            ctx.check(r.task_name == "t" and r.action == "success" and r.created == start + dur, "the record is the record")
    r = cls(task_name="t", action="run", created=base, start=base, end=None, runtime=None, message="m", exc_text=None, run_id="r")
    ctx.check(r.end is None and r.runtime is None, "a start has no end")


@harness("C16", FN + [T + "__getstate__"], cases=[("thread", "refused"), ("process", "refused"), ("process", "unsendable")], samples=8,
         bound="three runs, of which some threads or processes cannot be begun")
def cannot_begin(ctx, case):
    """a thread or process that cannot be begun (the system refuses, or the task cannot be sent to it): its run is recorded as a failure, once,
    and the next runs are not affected"""
    execution, why = case
    import pickle
    Syncs.on = True
    real = SyncProcess.start, SyncThread.start
    bad = [False]

    def start(self):
        if bad[0] and why == "refused":
            raise OSError("no resources")
        if bad[0]:
            pickle.dumps(self._t.__self__)                     # as a process begun with "spawn" is
            raise pickle.PicklingError("cannot be pickled")
        return real[0 if execution == "process" else 1](self)
    if execution == "process":
        SyncProcess.start = start
    try:
        async def main():
            w = World(ctx, silence_task_prerun=True)
            t = make(w, Run, execution, "returns", "nothing", value=lambda: 1)
            outcomes = []
            for k in range(3):
                bad[0] = ctx.choice(f"bad{k}", [False, True])
                outcomes.append("fail" if bad[0] else "success")
                if execution == "thread":
                    SyncThread.start = start if bad[0] else real[1]
                t.run()
                await once(w, t)
                SyncThread.start = real[1]
                ctx.check(t.status == outcomes[-1], "the task's status is the latest outcome")
                ctx.check(not t.is_alive() and w.scheduler.n_alive == 0, "the run is over")
            pairs(ctx, w, "t", outcomes)
        drive(main())
    finally:
        SyncProcess.start, SyncThread.start = real
        Syncs.on = False
