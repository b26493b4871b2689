"""A session for the harnesses: real rocketry objects, with stand-ins only at the leaves

  * the clock              config.time_func (arbitrary, symbolic)
  * the log repository     Repo: the contract of redbird's filter_by/all/last/count on an append-only list
  * conditions             Cond: answers an arbitrary boolean, or raises
  * processes/threads/...  StubProcess, StubThread, StubFuture: alive or not, records termination

Everything between them (Session, Scheduler, Task, TaskRun, conditions, logging with TaskAdapter) is /repo's code.
"""
import asyncio
import copy
import datetime
import logging
import multiprocessing
import os
import queue
import threading
import warnings

from pyvc import and_, or_, not_, implies, if_, iff
from pyvc.ctx import EPOCH, US, Unsupported, PathAbort, AssumeFailed, ContractViolation

warnings.simplefilter("ignore")

import rocketry  # noqa
from rocketry import Session
from rocketry.core import BaseCondition
from rocketry.core.time.base import TimePeriod
from rocketry.pybox.time.interval import Interval
from rocketry.core.task import Task
try:
    from rocketry.core.task import TaskRun
except ImportError:                                   # pragma: no cover
    TaskRun = None
from redbird.oper import Operation  # noqa

SEC = 10**6


class _NoQueue(queue.Queue):
    "stand-in for multiprocessing.Queue (no feeder thread, same order)"

    def __init__(self, *a, **k):
        super().__init__()

    def close(self):
        pass


multiprocessing.Queue = _NoQueue
_RealThread = threading.Thread
_RealProcess = multiprocessing.Process


class Syncs:
    "while `on`, threads and processes run to their end inside start() (one schedule, deterministic)"
    on = False
    linger = False                  # a process is alive until it is terminated, though its target has returned
    pid = 500000


class SyncThread(_RealThread):
    _error = None

    def run(self):
        try:
            super().run()
        except BaseException as e:                    # noqa
            if not Syncs.on:
                raise
            self._error = e

    def start(self):
        super().start()
        if Syncs.on:
            self.join()
            if isinstance(self._error, (Unsupported, PathAbort, AssumeFailed, ContractViolation)):
                raise self._error


class SyncProcess(multiprocessing.Process):
    """A process that runs its target to the end inside start(), on a copy of the task (a process has its own memory):
    what the target does to the task, the run or the session is not seen by the parent, the records it puts are."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._t, self._a, self._k = target, args, dict(kwargs or {})
        Syncs.pid += 1
        self._vpid = Syncs.pid
        self._vstate = "new"

    pid = property(lambda self: self._vpid)
    exitcode = property(lambda self: 0 if self._vstate == "dead" else None)

    def __repr__(self):
        return "<process>"

    def is_alive(self):
        return self._vstate == "alive"

    def join(self, timeout=None):
        pass

    def terminate(self):
        self._vstate = "dead"

    kill = terminate

    def close(self):
        pass

    def start(self):
        self._vstate = "alive"
        clone = {}

        def cp(v):
            if isinstance(v, Task):
                if id(v) not in clone:
                    c = v.copy()
                    clone[id(v)] = c
                    ses = copy.copy(v.session)
                    ses.returns = copy.copy(v.session.returns)
                    c.__dict__["session"] = ses
                return clone[id(v)]
            if TaskRun is not None and isinstance(v, TaskRun):
                return copy.copy(v)
            return v
        target = self._t
        me = getattr(target, "__self__", None)
        if isinstance(me, Task):
            target = getattr(cp(me), target.__name__)
        args, kwargs = [cp(a) for a in self._a], {k: cp(v) for k, v in self._k.items()}
        th = SyncThread(target=target, args=args, kwargs=kwargs)
        pid = os.getpid
        os.getpid = lambda: self._vpid
        try:
            _RealThread.start(th)
            th.join()
        finally:
            os.getpid = pid
            if not Syncs.linger:
                self._vstate = "dead"
        if isinstance(th._error, (Unsupported, PathAbort, AssumeFailed, ContractViolation)):
            raise th._error

    def __del__(self):
        pass


threading.Thread = SyncThread
multiprocessing.Process = SyncProcess
import rocketry.core.task as _task_module
for _k, _v in list(vars(_task_module).items()):       # names bound before the stand-ins
    if _v is _RealThread:
        setattr(_task_module, _k, SyncThread)
    elif _v is _RealProcess:
        setattr(_task_module, _k, SyncProcess)


# ------------------------------------------------------------------ log

class Rec:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return f"Rec({self.__dict__})"


class Result:
    _stub = True
    def __init__(self, rows):
        self.rows = rows

    def all(self):
        return list(self.rows)

    def query(self):
        return iter(self.rows)

    def __iter__(self):
        return iter(self.rows)

    def last(self):
        return self.rows[-1] if self.rows else None

    def first(self):
        return self.rows[0] if self.rows else None

    def count(self):
        return len(self.rows)

    def limit(self, n):
        return self.rows[:n]


class Repo:
    _stub = True
    """The part of redbird the code relies on (assumed contract): records come back in the order they were added; a filter
    keeps the records whose fields satisfy every given value or operation."""

    def __init__(self, as_dict=False):
        self.rows = []
        self.as_dict = as_dict
        self.reads = 0

    def get(self, r, k):
        return r[k] if self.as_dict else getattr(r, k, None)

    def filter_by(self, **kw):
        self.reads += 1
        out = []
        for r in self.rows:
            ok = True
            for k, v in kw.items():
                x = self.get(r, k)
                c = v.evaluate(x) if isinstance(v, Operation) else (x == v)
                if not c:
                    ok = False
                    break
            if ok:
                out.append(r)
        return Result(out)

    def add(self, **kw):
        self.rows.append(dict(kw) if self.as_dict else Rec(**kw))

    def of(self, task_name):
        return [r for r in self.rows if self.get(r, "task_name") == task_name]


class LatestResult(Result):
    "the answer of a log of any length of which the latest records are known: only last()"

    def no(self, *a):
        raise Unsupported("more of the log than its latest record")
    all = query = __iter__ = first = count = limit = no


class LatestRepo(Repo):
    def filter_by(self, **kw):
        if set(kw) - {"task_name", "action"}:
            raise Unsupported("another query of the log")
        return LatestResult(super().filter_by(**kw).rows)


class Handler(logging.Handler):
    FIELDS = ("task_name", "action", "created", "run_id", "start", "end", "runtime", "exc_text")

    def __init__(self, repo, fail=None):
        super().__init__()
        self.repo = repo
        self.fail = fail                  # callable(record) -> bool: writing this record fails

    def emit(self, record):
        if self.fail is not None and self.fail(record):
            raise OSError("log storage failed")
        self.repo.add(message=record.getMessage(), has_exc=bool(record.exc_info), levelname=record.levelname,
                      **{f: getattr(record, f, None) for f in self.FIELDS})

    def handleError(self, record):
        raise


class Clock:
    "arbitrary times, not decreasing; a float number of seconds with whole microseconds"

    def __init__(self, ctx, lo=datetime.datetime(1990, 1, 1), hi=datetime.datetime(2100, 1, 1), fixed=None):
        self.ctx = ctx
        self.lo, self.hi = lo, hi
        self.dt = fixed
        self.frozen = fixed is not None
        self.n = 0

    def set(self, dt):
        self.dt = dt
        self.frozen = True

    def __call__(self):
        if not self.frozen or self.dt is None:
            new = self.ctx.datetime(f"t{self.n}", self.lo, self.hi)
            self.n += 1
            if self.dt is not None:
                if self.ctx.symbolic:
                    self.ctx.assume(new >= self.dt)
                elif new < self.dt:
                    new = self.dt
            self.dt = new
        return stamp(self.dt)


def stamp(dt):
    return dt.timestamp()


# ------------------------------------------------------------------ leaves

class Cond(BaseCondition):
    "a condition with an arbitrary answer; `error`: observing it raises"

    def __init__(self, state=True, error=False, log=None, tag=""):
        self.state, self.error, self.log, self.tag = state, error, log, tag

    def observe(self, **kw):
        if self.log is not None:
            self.log.append(self.tag)
        if self.error:
            raise RuntimeError(f"condition {self.tag} failed")
        return self.state

    def get_state(self, **kw):
        return self.observe()

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __str__(self):
        return f"<{self.tag}>"


class StubProcess(multiprocessing.Process):
    _stub = True

    def __init__(self, alive, log):
        self._alive, self._log = alive, log

    pid = -1

    def __repr__(self):
        return "<process>"

    def is_alive(self):
        return self._alive

    def terminate(self):
        self._log.append(self)
        self._alive = False

    def join(self, timeout=None):
        pass

    def __del__(self):
        pass


class StubThread(threading.Thread):
    _stub = True

    def __init__(self, alive, log):
        super().__init__()
        self._valive, self._log = alive, log

    def is_alive(self):
        return self._valive


class StubEvent:
    _stub = True

    def __init__(self, thread):
        self.thread = thread
        self.flag = False

    def set(self):
        self.flag = True
        self.thread._log.append(self.thread)

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        return True


class StubFuture(asyncio.Future):
    "an asyncio task; when cancelled it ends with CancelledError, or (swallows=True) handles the cancellation and returns"

    _stub = True

    def __init__(self, alive, log, swallows=False, error=None):
        super().__init__(loop=asyncio.get_event_loop())
        self._valive, self._vlog, self._sw, self._verr = alive, log, swallows, error

    def done(self):
        return not_(self._valive)

    def cancel(self, msg=None):
        self._vlog.append(self)
        return True

    def __await__(self):
        if False:
            yield
        if self._valive:
            self._valive = False
            if not self._sw:
                raise asyncio.CancelledError()
        elif self._verr is not None:
            raise self._verr

    __iter__ = __await__


class ProbeTask(Task):
    "a task whose body is given by the harness"
    body: object = None
    hooks_log: object = None

    class Config(Task.Config):
        extra = "allow"

    def execute(self, **kwargs):
        if self.body is not None:
            return self.body(**kwargs)

    def prefilter_params(self, params):
        return params

    def get_default_name(self, **kwargs):
        return "probe"


def run_stack(task):
    "the list of the live runs of the task, whatever it is called"
    st = getattr(task, "_run_stack", None)
    if st is None:
        priv = getattr(type(task), "__private_attributes__", {})
        own = [v for k, v in ((k, getattr(task, k, None)) for k in priv) if isinstance(v, list) and "run" in k]
        if len(own) != 1:
            raise Unsupported("the task has no run stack")
        st = own[0]
    return st


def queue_name(scheduler):
    "the attribute of the scheduler that holds the queue of records"
    names = [k for k, v in vars(scheduler).items() if isinstance(v, queue.Queue)]
    if len(names) != 1:
        raise Unsupported("the scheduler has no queue of records")
    return names[0]


def set_queue(scheduler, q):
    setattr(scheduler, queue_name(scheduler), q)


def make_run(kind, alive, start, log, run_id=None, swallows=False, error=None):
    if TaskRun is None:
        raise Unsupported("no TaskRun")
    if kind == "process":
        t = StubProcess(alive, log)
    elif kind == "thread":
        t = StubThread(alive, log)
    else:
        t = StubFuture(alive, log, swallows, error)
    r = TaskRun(start=start, task=t)
    r.run_id = run_id
    if kind == "thread":
        r.event_terminate = StubEvent(t)
        r.event_running = StubEvent(t)
        r.event_running.flag = True
    return r


class AggProcess(StubProcess):
    """Stands for any number of live process runs (symbolic mode only): is_alive() is their number, which is what any(),
    sum() and truth tests over the single runs would give."""


class AggThread(StubThread):
    pass


class AggFuture(StubFuture):
    def done(self):
        raise Unsupported("aggregate of async runs")


def many_runs(ctx, kind, name, start=0.0):
    "an arbitrary number of live runs -> (number, list of runs)"
    n = ctx.int(name, 0, None if ctx.symbolic else 40)
    if ctx.symbolic:
        r = make_run(kind, n, start, [])
        if kind == "async":
            r.task = AggFuture(n, [])
        return n, [r]
    return n, [make_run(kind, True, start, []) for _ in range(n)]


class StartProbe(ProbeTask):
    "a task that only records that it is started (and then has one more live run)"
    started: object = None
    after: object = None

    async def start_async(self, *args, **kwargs):
        self.started.append(self.name)
        if self.batches:
            self.batches.pop(0)
        if self.after is not None:
            self.after(self)


class World:
    def __init__(self, ctx, clock=None, as_dict=False, log_fail=None, **config):
        self.ctx = ctx
        self.clock = clock if clock is not None else Clock(ctx)
        self.repo = Repo(as_dict)
        for name in ("rocketry.task", "rocketry.task._process", "rocketry.scheduler"):
            lg = logging.getLogger(name)
            for k in ("makeRecord", "__rocketry_wrapped__"):
                lg.__dict__.pop(k, None)
            lg.propagate = False
            lg.handlers = []
        logging.getLogger("rocketry.task").handlers = [Handler(self.repo, log_fail)]
        logging.getLogger("rocketry.task").setLevel(logging.INFO)
        logging.getLogger("rocketry.scheduler").handlers = [logging.NullHandler()]
        logging.getLogger("rocketry.scheduler").setLevel(logging.CRITICAL + 1)
        config.setdefault("cycle_sleep", None)
        self.session = Session(config=dict(time_func=self.clock, **config))
        self.session._set_configs()
        self.scheduler = self.session.scheduler
        self.scheduler.n_cycles = 0

    def only_latest(self):
        "from now on the log answers only for latest records"
        repo = LatestRepo(self.repo.as_dict)
        repo.rows = self.repo.rows
        logging.getLogger("rocketry.task").handlers[0].repo = self.repo = repo

    def task(self, name="t", **kw):
        kw.setdefault("execution", "main")
        return ProbeTask(name=name, session=self.session, **kw)

    def probe(self, name="t", started=None, **kw):
        return StartProbe(name=name, session=self.session, started=started if started is not None else [], **kw)

    def records(self, name="t"):
        g = self.repo.get
        return [(g(r, "action"), g(r, "run_id")) for r in self.repo.of(name)]

    def actions(self, name="t"):
        return [a for a, _ in self.records(name)]


def log_record(task_name, action, created, run_id=None, pid=None, level=logging.INFO, **extra):
    "a log record as a run sends it"
    r = logging.LogRecord("rocketry.task._process", level, "f", 1, f"{task_name} {action}", (), None)
    r.__dict__.update(dict(action=action, task_name=task_name, run_id=run_id, start=created, end=created, runtime=0.0,
                           created=created, process=pid, message=f"{task_name} {action}", exc_text=None, **extra))
    return r


def feed(task, action, created, run_id=None, **extra):
    "let the task log a record of the given time (as for a run in a process): the log and the task's latest times know it"
    task.log_record(log_record(task.name, action, created, run_id, **extra))


class Span(TimePeriod):
    "an arbitrary period: membership of `now` and the window it rolls back to are given (contract of rollback: C03, C05, C07)"

    def __init__(self, left, right, inside):
        for k, v in dict(left=left, right=right, inside=inside).items():
            object.__setattr__(self, k, v)

    def __contains__(self, dt):
        return self.inside

    def rollback(self, dt):
        return Interval(self.left, self.right, closed="both")

    def rollforward(self, dt):
        raise Unsupported("rollforward of an abstract period")

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __str__(self):
        return "<span>"

    __repr__ = __str__


def put(obj, **fields):
    """set settings without pydantic's coercion, so that they can be symbolic (a symbolic flag splits only where the code
    looks at it)"""
    for k, v in fields.items():
        if k not in obj.__dict__:
            raise Unsupported(f"no field {k}")
        obj.__dict__[k] = v


def drive(coro):
    "run a coroutine to its end (and what it spawned)"
    async def main():
        ok = False
        try:
            r = await coro
            ok = True
            return r
        finally:
            me = asyncio.current_task()
            rest = [t for t in asyncio.all_tasks() if t is not me]
            if rest:
                if not ok:
                    for t in rest:
                        t.cancel()
                res = await asyncio.gather(*rest, return_exceptions=True)
                for r in res:
                    if isinstance(r, BaseException) and not isinstance(r, Exception) and not isinstance(r, asyncio.CancelledError):
                        raise r
    loop = asyncio.new_event_loop()
    loop.set_exception_handler(lambda *a: None)
    try:
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(main())
    finally:
        asyncio.set_event_loop(None)
        loop.close()


class AnyLog(Repo):
    """A log of any length: known by the latest record of each action and by whether there are records of the actions in the
    window looked at (how many does not matter to a test for none)."""

    def __init__(self, ctx, base, own, a, b, found):
        super().__init__()
        self.c, self.base, self.own, self.a, self.b, self.found = ctx, base, own, a, b, found

    def filter_by(self, **kw):
        acts = kw.get("action")
        if set(kw) - {"task_name", "action", "created"} or "created" not in kw or kw.get("task_name") != "t":
            self.c.unsupported("another query of the log")
        op = kw["created"]
        lo, hi = getattr(op, "start", None), getattr(op, "end", None)
        if lo is None or hi is None or type(op).__name__ not in ("BetweenOperation", "between", "Between"):
            self.c.unsupported("another query of the log")
        if not (lo == stamp(self.a)) or not (hi == stamp(self.b)):
            self.c.unsupported("another window of the log")
        rows = []
        for act in self.own:
            m = acts.evaluate(act) if isinstance(acts, Operation) else acts == act
            if m and self.found[act]:
                rows.append(Rec(action=act, created=stamp(self.a), task_name="t", run_id="x"))
                if self.c.choice("several", [False, True]):
                    rows.append(rows[-1])
        return Result(rows)


def any_history_of(ctx, w, t, own, now, a, b):
    """the log of t becomes one of any length; returns per action whether there are records of it in the window [a, b]"""
    import logging
    found = {}
    for act in own + ["crash"]:
        found[act] = False
        if not ctx.choice(f"has {act}", [False, True]):
            continue
        last = ctx.datetime(f"last {act}", datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1))
        ctx.assume(last <= now)
        feed(t, act, stamp(last))
        inside = ctx.bool(f"{act} in window")
        ctx.assume(implies(inside, last >= a))                    # the latest is not earlier than one in the window
        ctx.assume(implies(and_(a <= last, last <= b), inside))   # the latest itself
        found[act] = inside
    logging.getLogger("rocketry.task").handlers[0].repo = AnyLog(ctx, w.repo, own, a, b, found)
    return found
