"""C20 -- the records of process runs reach the task log once, in order, and the tasks follow them."""
import datetime
import logging
from queue import Empty

from pyvc import harness, iff, and_, or_, not_, implies
from rocketry.exc import TaskLoggingError, TaskSetupError
from rocketry.log import QueueHandler
from specs.world import World, Clock, Cond, ProbeTask, Syncs, make_run, run_stack, drive, put, stamp, log_record, set_queue

T, S = "core/task.py:Task.", "core/schedule.py:Scheduler."
FN = [S + "handle_logs", S + "_log_task", T + "log_record", T + "_handle_return"]
LOCK = [T + "start_async", T + "run_as_process", T + "_run_as_process", T + "_set_status", T + "_lock_to_run_log", T + "log_record", T + "_handle_return"]
TRUSTED = ["specs/world.py: log repository, clock; the queue between the processes delivers every record once, in the order of each process "
           "(assumed contract of multiprocessing.Queue)"]
ASSUMPTIONS = ["the loop of handle_logs carries no state of its own from record to record (step proves one record from an arbitrary state)"]
FIXED = datetime.datetime(2022, 1, 1)
LO, HI = datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1)
ACTIONS = ["run", "success", "fail", "inaction", "terminate"]
LAST = ["run", "success", "fail", "terminate", "inaction", "crash"]


class Feed:
    "the queue: gives the records one by one; `late`: times out that many times before a record"

    def __init__(self, items, late=0, then=()):
        self.items, self.late, self.then = list(items), late, list(then)
        self.gets = 0

    def get(self, block=True, timeout=None):
        self.gets += 1
        if self.gets > 200:
            raise RuntimeError("reads the queue for ever")
        if block and self.late > 0:
            self.late -= 1
            raise Empty
        if not self.items:
            raise Empty
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def put(self, x, *a, **k):
        "`then`: records of others sent right after the next one"
        self.items.append(x)
        self.items.extend(self.then)
        self.then = []

    put_nowait = put


def record(ctx, tag, name, action, at, run_id, pid, value=None, text=None):
    "a record as the process sends it"
    start, end, dur = ctx.datetime(f"{tag} start", LO, HI), ctx.datetime(f"{tag} end", LO, HI), ctx.int(f"{tag} runtime", 0, 10**6)
    r = log_record(name, action, stamp(at), run_id, pid=pid, level=logging.ERROR if action == "fail" else logging.INFO)
    r.start, r.end, r.runtime = stamp(start), stamp(end), dur
    if action == "success":
        r.__dict__["__return__"] = value
    if action == "fail" and text is not None:
        r.exc_text = text
        r.message = r.message + "\n" + text
    return r


def expected(r):
    return {k: getattr(r, k) for k in ("task_name", "action", "created", "run_id", "start", "end", "runtime", "exc_text")}


def same_row(w, row, exp):
    ok = True
    for k, v in exp.items():
        got = w.repo.get(row, k)
        ok = and_(ok, (got is v) or (got is not None and v is not None and got == v))
    return ok


def state(t):
    return dict({a: getattr(t, f"_last_{a}") for a in LAST}, status=t.status)


def prior(ctx, t, tag):
    "an arbitrary state of the task before"
    for a in LAST:
        if ctx.choice(f"{tag} had {a}", [False, True]) if a in ("run", "fail") else True:
            setattr(t, f"_last_{a}", stamp(ctx.datetime(f"{tag} last {a}", LO, HI)))
    t.status = ctx.choice(f"{tag} status", ["run", "fail", None])


def same_state(a, b):
    ok = True
    for k in a:
        ok = and_(ok, (a[k] is b[k]) or (a[k] is not None and b[k] is not None and a[k] == b[k]))
    return ok


def world(ctx, **kw):
    w = World(ctx, clock=Clock(ctx, fixed=FIXED), **kw)
    return w


class Worker(ProbeTask):
    how: object = "success"
    value: object = None

    def execute(self, **kw):
        if self.how == "fail":
            raise ValueError("the reason")
        return self.value


def begin(w, t, q):
    "the scheduler starts the process task: its records go to the queue"
    Syncs.on, Syncs.linger = True, True
    set_queue(w.scheduler, q)
    try:
        drive(t.start_async(log_queue=q))
    finally:
        Syncs.on, Syncs.linger = False, False


@harness("C20", FN, cases=[(a, d) for a in ACTIONS for d in (False, True)], samples=20, inductive=True)
def step(ctx, case):
    """one record from an arbitrary state: written once and unchanged, and its task (and run) follow it, nothing else does"""
    action, as_dict = case
    w = world(ctx, as_dict=as_dict)
    t, o = w.task("t", execution="process", **ctx.choice("setting", [{}, {"disabled": True}, {"on_shutdown": True}])), w.task("o", execution="process")
    prior(ctx, t, "t")
    prior(ctx, o, "o")
    before, other = state(t), state(o)
    mine, twin, foreign = (make_run("process", True, 0.0, []) for _ in range(3))
    for r, pid in ((mine, 11), (twin, 12), (foreign, 13)):
        r.task.pid = pid
        r.status = "run"
    run_stack(t).extend([mine, twin])
    run_stack(o).append(foreign)
    v, old = ctx.int("value", -5, 5), ctx.int("old value", -5, 5)
    w.session.returns[o] = old
    at = ctx.datetime("at", LO, HI)
    text = ctx.choice("traceback", [None, "Traceback: ValueError"])
    rec = record(ctx, "r", "t", action, at, "r1", 11, v, text)
    exp = expected(rec)
    q = Feed([rec])
    set_queue(w.scheduler, q)
    w.scheduler.handle_logs()
    ctx.check(not q.items, "every record is taken")
    ctx.check(len(w.repo.rows) == 1, "the record is written once")
    ctx.check(same_row(w, w.repo.rows[0], exp), "the record is written with its own task, action, times, run and error")
    ctx.check(not hasattr(rec, "__return__"), "the return value is not written to the log")
    want = dict(before)
    want[action] = stamp(at)
    want["status"] = action
    ctx.check(same_state(state(t), want), "the task follows the record")
    ctx.check(same_state(state(o), other), "other tasks do not follow it")
    ctx.check(mine.status == action and twin.status == "run" and foreign.status == "run", "the run follows the record, other runs do not")
    if action == "success":
        ctx.check(t in w.session.returns and w.session.returns[t] == v, "the return value is kept")
    else:
        ctx.check(t not in w.session.returns, "there is no return value without a success")
    ctx.check(w.session.returns[o] == old, "the return values of others are kept")


@harness("C20", FN + LOCK, cases=[(n, how) for n in (2, 3) for how in ("cycle", "start")], samples=40, bound="3 records of 2 tasks")
def sequence(ctx, case):
    """several records: all written once, in the order sent, each task ends with the state of its last record; also those found while
    another process task is starting, where those after the start are left for later"""
    n, how = case
    w = world(ctx)
    ts = {k: w.task(k, execution="process") for k in ("a", "b")}
    recs, values = [], {}
    for i in range(n):
        name = ctx.choice(f"task{i}", ["a", "b"])
        action = ctx.choice(f"action{i}", ["success", "fail"] if how == "start" else ["run", "success", "fail"])
        at = ctx.datetime(f"at{i}", LO, HI)
        v = ctx.int(f"value{i}", -5, 5)
        recs.append(record(ctx, f"r{i}", name, action, at, f"run{i}", 20 + i, v))
    exps = [expected(r) for r in recs]
    vals = [r.__dict__.get("__return__") for r in recs]
    if how == "cycle":
        set_queue(w.scheduler, Feed(recs))
        w.scheduler.handle_logs()
    else:
        new = Worker(name="new", session=w.session, execution="process", how=ctx.choice("outcome", ["success", "fail"]))
        new.value = ctx.int("own value", -5, 5)
        k = ctx.choice("started after", list(range(n + 1)))
        q = Feed(recs[:k], then=recs[k:], late=ctx.choice("late", [0, 1]))
        begin(w, new, q)
        ctx.check(len(w.repo.rows) >= k + 1 and w.actions("new")[:1] == ["run"], "the task runs once its start is recorded")
        w.scheduler.handle_logs()
        now = stamp(FIXED)
        rows = w.repo.of("new")
        ctx.check(w.actions("new") == ["run", new.how], "the new run has its records")
        own = [dict(task_name="new", action=w.repo.get(r, "action"), created=now) for r in rows]
        exps = exps[:k] + own[:1] + exps[k:] + own[1:]
        vals = vals[:k] + [None] + vals[k:] + [new.value if new.how == "success" else None]
        ts["new"] = new
    ctx.check(len(w.repo.rows) == len(exps), "every record is written once")
    for row, e in zip(w.repo.rows, exps):
        ctx.check(same_row(w, row, e), "in the order sent, unchanged")
    for name, t in ts.items():
        own = [(e, v) for e, v in zip(exps, vals) if e["task_name"] == name]
        ctx.check(t.status == (own[-1][0]["action"] if own else None), "the status is that of the latest record")
        for a in LAST:
            same = [e["created"] for e, _ in own if e["action"] == a]
            got = getattr(t, f"_last_{a}")
            ctx.check(got is None if not same else (got is not None and got == same[-1]), "the latest times are those of the latest records")
        ret = [v for e, v in own if e["action"] == "success"]
        ctx.check((t in w.session.returns) == bool(ret) and (not ret or w.session.returns[t] == ret[-1]), "the return value is the latest")


@harness("C20", FN + LOCK, cases=[(how, silent) for how in ("cycle", "start") for silent in (False, True)], samples=30, bound="3 records, one cannot be written")
def unwritable(ctx, case):
    """a record that cannot be written loses no other one and is not taken as a success"""
    how, silent = case
    bad = ctx.choice("bad", [0, 1, 2])
    w = world(ctx, log_fail=lambda r: r.run_id == f"run{bad}", silence_task_logging=silent)
    ts = {k: w.task(k, execution="process") for k in ("a", "b")}
    ts["new"] = Worker(name="new", session=w.session, execution="process")
    gone = how == "cycle" and ctx.choice("a is removed", [False, True])
    if gone:
        w.session.remove_task(ts.pop("a"))
    names = [ctx.choice(f"task{i}", ["a", "b"]) for i in range(3)]
    acts = [ctx.choice(f"action{i}", ["success", "fail"] if how == "start" or i else ["run", "success"]) for i in range(3)]
    recs = [record(ctx, f"r{i}", names[i], acts[i], ctx.datetime(f"at{i}", LO, HI), f"run{i}", 20 + i, 1) for i in range(3)]
    exps = [expected(r) for r in recs]
    errors = 0
    if how == "start":
        q = Feed(recs)
        try:
            begin(w, ts["new"], q)
        except TaskLoggingError:
            errors += 1
        ctx.check(w.actions("new")[:1] == ["run"] and not [r for r in q.items if r.task_name != "new"],
                  "the task is running even though another record could not be written")
        ctx.check(errors == 1, "the failed writing is raised")
        w.scheduler.handle_logs()
        exps += [dict(task_name="new", action=a) for a in ("run", "success")]
    else:
        q = Feed(recs)
        set_queue(w.scheduler, q)
        for _ in range(3):
            try:
                w.scheduler.handle_logs()
            except (TaskLoggingError, *((OSError,) if gone else ())):
                errors += 1
        ctx.check(errors == (0 if silent else 1), "the failed writing is raised unless silenced")
    want = [e for i, e in enumerate(exps) if i != bad]
    ctx.check(len(w.repo.rows) == len(want), "every other record is written once")
    for row, e in zip(w.repo.rows, want):
        ctx.check(same_row(w, row, e), "in the order sent, unchanged")
    for name in ("b",) if gone else ("a", "b"):
        own = [i for i in range(3) if names[i] == name]
        if own:
            last = own[-1]
            exp = acts[last] if last != bad or acts[last] == "run" else "fail"
            ctx.check(ts[name].status == exp, "a task whose outcome could not be logged has failed")


class Lost(Feed):
    def put(self, x, *a, **k):
        pass
    put_nowait = put


@harness("C20", FN + LOCK, cases=["cycle", "start"], samples=20, bound="3 records of 2 tasks, one of them removed")
def removed(ctx, how):
    """the records of a task that was removed while running are still written, and those of the others are not lost"""
    w = world(ctx, silence_task_logging=ctx.choice("silent", [False, True]))
    ts = {k: w.task(k, execution="process") for k in ("a", "b")}
    w.session.remove_task(ts["a"])
    recs = []
    for i in range(3):
        name, action = ctx.choice(f"task{i}", ["a", "b"]), ctx.choice(f"action{i}", ["success", "fail"])
        recs.append(record(ctx, f"r{i}", name, action, ctx.datetime(f"at{i}", LO, HI), f"run{i}", 20 + i, 1))
    exps = [expected(r) for r in recs]
    if how == "cycle":
        set_queue(w.scheduler, Feed(recs))
    else:
        new = Worker(name="new", session=w.session, execution="process")
        begin(w, new, Feed(recs))
        exps += [dict(task_name="new", action=a) for a in ("run", "success")]
    w.scheduler.handle_logs()
    ctx.check(len(w.repo.rows) == len(exps), "every record is written once")
    for row, e in zip(w.repo.rows, exps):
        ctx.check(same_row(w, row, e), "in the order sent, unchanged")
    own = [e["action"] for e in exps if e["task_name"] == "b"]
    ctx.check(ts["b"].status == (own[-1] if own else None), "the status is that of the latest record")
    ctx.check("a" not in w.session, "the task stays removed")


@harness("C20", LOCK, cases=["silent death", "slow"], samples=10, bound="3 time-outs of the queue")
def starting(ctx, how):
    """a process that dies before its start is recorded is a failed setup, one that is slow is waited for"""
    w = world(ctx)
    t = Worker(name="t", session=w.session, execution="process")
    late = ctx.choice("late", [1, 2, 3])
    q = Feed([], late=late) if how == "slow" else Lost([])
    Syncs.on, Syncs.linger = True, how == "slow"
    set_queue(w.scheduler, q)
    try:
        drive(t.start_async(log_queue=q))
        failed = False
    except TaskSetupError:
        failed = True
    finally:
        Syncs.on, Syncs.linger = False, False
    ctx.check(failed == (how == "silent death"), "a failed setup is raised exactly when the process died")
    if failed:
        ids = [i for _, i in w.records("t")]
        ctx.check(w.actions("t") == ["run", "fail"] and ids[0] == ids[1] and ids[0] is not None, "and recorded as a failed run, once", str(w.records("t")))
    else:
        ctx.check(w.actions("t") == ["run"] and t.status == "run", "a slow start is waited for")
        w.scheduler.handle_logs()
        ctx.check(w.actions("t") == ["run", "success"] and t.status == "success", "and its outcome follows")


@harness("C20", ["log/handlers.py:QueueHandler.prepare"], cases=["fail", "success", "run"], samples=10)
def sending(ctx, action):
    """what the process puts to the queue has everything of the record (its error as text) and can be pickled"""
    import pickle
    q = Feed([])
    h = QueueHandler(q)
    r = log_record("t", action, 12.5, "r1", pid=5)
    r.msg, r.args = "Task '%s' status: %s", ("t", action)
    if action == "fail":
        try:
            raise ValueError("the reason")
        except ValueError:
            import sys
            r.exc_info = sys.exc_info()
        r.exc_text = None
    if action == "success":
        r.__dict__["__return__"] = 7
    before = expected(r)
    own = dict(r.__dict__)
    h.emit(r)
    for k in ("msg", "args", "exc_info"):
        ctx.check(r.__dict__[k] is own[k], "the record itself is left as it was for other handlers")
    ctx.check(len(q.items) == 1, "one record is sent")
    s = q.items[0]
    s2 = pickle.loads(pickle.dumps(s))
    after = expected(s2)
    for k in before:
        if k != "exc_text":
            ctx.check(after[k] == before[k], "the record is unchanged")
    ctx.check(s2.message.startswith(f"Task 't' status: {action}"), "the message is formed")
    if action == "fail":
        ctx.check("the reason" in s2.exc_text and "ValueError" in s2.exc_text, "the error is sent as text")
    if action == "success":
        ctx.check(s2.__dict__["__return__"] == 7, "the return value is sent")


@harness("C20", FN + LOCK + [T + "run_as_process", T + "_run_as_process", T + "_set_status", S + "run_cycle"], samples=20,
         cases=[(a, b) for a in ("success", "fail") for b in ("success", "fail")], bound="two process tasks, two cycles")
def whole(ctx, case):
    """from the run to the log: process tasks run by the scheduler have their start and outcome in the log, once, under one run"""
    w = world(ctx, multilaunch=True, max_process_count=9)
    Syncs.on = True
    try:
        ts = [Worker(name=f"t{i}", session=w.session, execution="process", start_cond=Cond(True), how=how) for i, how in enumerate(case)]
        vals = [ctx.int(f"v{i}", -5, 5) for i in range(2)]
        for t, v in zip(ts, vals):
            t.value = v
        n = ctx.choice("cycles", [1, 2])

        async def main():
            for _ in range(n):
                await w.scheduler.run_cycle()
        drive(main())
    finally:
        Syncs.on = False
    for t, how, v in zip(ts, case, vals):
        recs = w.records(t.name)
        ctx.check([a for a, _ in recs] == ["run", how] * n, "the records are start, outcome for each run", str(recs))
        ids = [i for _, i in recs]
        ctx.check(all(ids[2 * i] == ids[2 * i + 1] for i in range(n)) and len(set(ids)) == n, "under one run each")
        ctx.check(t.status == how, "the status is the outcome")
        if how == "success":
            ctx.check(w.session.returns[t] == v, "the return value is kept")
        else:
            texts = [w.repo.get(r, "exc_text") for r in w.repo.of(t.name) if w.repo.get(r, "action") == "fail"]
            ctx.check(all(x and "the reason" in x for x in texts), "the error is in the log")
