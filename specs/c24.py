"""C24 -- a command task runs its command with its parameters, every time."""
import datetime
import subprocess

from pyvc import harness, iff, and_, or_, not_
from rocketry.args import Private, SimpleArg, FuncArg
from rocketry.tasks import CommandTask
from specs.world import World, Clock, Cond, Syncs, drive, put, stamp

LEVEL = "other"
C = "tasks/command.py:CommandTask."
FN = [C + "execute", C + "get_kwargs_popen", C + "parse_argform", C + "postfilter_params", "core/task.py:Task.start_async", "core/task.py:Task.prefilter_params",
      "core/task.py:Task._get_direct_params"]
TRUSTED = ["subprocess.Popen (a stand-in records the call and answers with an arbitrary outcome)", "specs/world.py: threads and processes run inside start()"]
ASSUMPTIONS = ["in a text command, values are put in double quotes as they are (a value with a double quote is outside)"]
FIXED = datetime.datetime(2022, 1, 1)
FORMS = {None: "--", "long": "--", "--": "--", "short": "-", "-": "-"}


class Pipe:
    "Popen: records how it is called"
    calls, plan = [], {}

    def __init__(self, command, **kw):
        if Pipe.plan.get("missing"):
            Pipe.calls.append((command if isinstance(command, str) else list(command), kw, []))
            raise FileNotFoundError("no such command")
        self.log = []
        Pipe.calls.append((command if isinstance(command, str) else list(command), kw, self.log))
        self.returncode = None

    def communicate(self, input=None, timeout=None):
        self.log.append(("communicate", timeout))
        if Pipe.plan.get("hangs") and not any(x == "kill" for x, _ in self.log):
            raise subprocess.TimeoutExpired("cmd", timeout)
        self.returncode = Pipe.plan.get("code", 0)
        return Pipe.plan.get("out", b"out"), Pipe.plan.get("err", b"the reason")

    def kill(self):
        self.log.append(("kill", None))

    terminate = kill

    def wait(self, timeout=None):
        return self.communicate(timeout=timeout)

    def poll(self):
        return self.returncode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def run_all(w, tasks, plan):
    Pipe.calls, Pipe.plan = [], plan
    real = subprocess.Popen
    subprocess.Popen = Pipe
    Syncs.on = True
    try:
        for t in tasks:
            try:
                drive(t.start_async())
            except Exception as e:           # as the scheduler does
                pass
            w.scheduler.handle_logs()
    finally:
        subprocess.Popen = real
        Syncs.on = False
    return Pipe.calls


def args_of(command, base):
    "the arguments added to the command: [(name, value as text)]"
    if isinstance(base, str):
        if not isinstance(command, str) or not command.startswith(base):
            return None
        rest, out = command[len(base):], []
        while rest:
            if not rest.startswith(" "):
                return None
            name, sep, rest = rest[1:].partition(' "')
            val, q, rest = rest.partition('"')
            if not sep or not q:
                return None
            out.append((name, val))
        return out
    if isinstance(command, str) or command[:len(base)] != base or (len(command) - len(base)) % 2:
        return None
    rest = command[len(base):]
    return list(zip(rest[::2], rest[1::2]))


BASES = {"text": "python3 -m x", "list": ["python3", "-m", "x y"], "one": ["python3"]}
SETS = [{}, {"a": 1}, {"a": "two words", "b": 2.5}, {"-c": "x = 1", "a": 0}, {"--long-name": True, "name": None}, {"x": Private("secret"), "y": SimpleArg(7)},
        {"x": FuncArg(lambda: 5)}]
VALUES = {"x": {0: "secret"}}


def plain(v):
    if isinstance(v, Private):
        return "secret"
    if isinstance(v, SimpleArg):
        return "7"
    if isinstance(v, FuncArg):
        return "5"
    return str(v)


@harness("C24", FN, cases=[(b, f, e) for b in BASES for f in FORMS for e in ("main", "thread", "process")], samples=8, bound="the listed commands and parameters, three runs")
def runs(ctx, case):
    """each run calls the command once, with its own parameters only, and leaves nothing for the next"""
    base, form, execution = case
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    w.session.parameters["session_wide"] = 1
    own = ctx.choice("parameters", SETS)
    kw = {} if form is None and ctx.choice("form", ["not given", "none"]) == "not given" else {"argform": form}
    timeout = ctx.choice("timeout", [None, 20, "2 min", "never"])
    shell, cwd, extra = ctx.choice("call", [(False, None, {}), (True, "/tmp", {}), (False, None, {"env": {"A": "1"}, "stdin": None})])
    cmd = BASES[base] if isinstance(BASES[base], str) else list(BASES[base])
    t = CommandTask(command=cmd, name="t", session=w.session, execution=execution, parameters=dict(own), timeout=timeout, shell=shell, cwd=cwd,
                    **({"kwds_popen": extra} if extra else {}), **kw)
    o = CommandTask(command="other", name="o", session=w.session, execution=execution)
    batch = ctx.choice("run parameters", [None, {"a": "batch"}, {"z": 9}])
    if batch is not None:
        t.run(**batch)
    calls = run_all(w, [t, o, t], {"out": b"result"})
    ctx.check(len(calls) == 3, "each run calls its command once")
    for i, (command, k, log) in enumerate(calls):
        if i == 1:
            ctx.check(command == "other" and k.get("shell") is False and not k.get("cwd"), "tasks do not disturb one another", str(command))
            continue
        want = dict(own)
        if i == 0 and batch is not None:
            want.update(batch)
        exp = sorted((n if n.startswith("-") else FORMS[form] + n, plain(v)) for n, v in want.items())
        got = args_of(command, BASES[base])
        ctx.check(got is not None and sorted(got) == exp, "the command is run with its parameters", f"{command!r} run {i}")
        ctx.check(k.get("shell") is shell and k.get("cwd") == cwd and all(k.get(x, 0) == v for x, v in extra.items()), "and as it was asked to be run")
        secs = {None: None, 20: 20, "2 min": 120, "never": None}[timeout]
        ctx.check([x for x, _ in log] == ["communicate"] and log[0][1] == secs, "it is waited for as long as its timeout says", str(log))
    ctx.check(t.command == BASES[base], "the command itself is unchanged")
    ctx.check(w.actions("t") == ["run", "success"] * 2 and t.status == "success", "the runs are recorded as successes", str(w.actions("t")))
    ctx.check(w.session.returns[t] == b"result", "the output is the return value")


@harness("C24", FN, cases=[(e, o) for e in ("main", "thread", "process") for o in ("code", "hangs", "missing")], samples=12, bound="the listed outcomes, two runs")
def outcomes(ctx, case):
    """a command that fails, takes too long or does not exist is a failed run, with the reason; nothing is left running"""
    execution, how = case
    code = ctx.choice("code", [1, 2, 127, 255, -9]) if how == "code" else 0
    err = ctx.choice("stderr", [b"the reason", b"the reason \xff\xfe", "the reason"])
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    t = CommandTask(command=["x"], name="t", session=w.session, execution=execution, timeout=5 if how == "hangs" else None)
    calls = run_all(w, [t, t], {"code": code, "err": err, "hangs": how == "hangs", "missing": how == "missing"})
    ctx.check(w.actions("t") == ["run", "fail"] * 2 and t.status == "fail", "the run has failed", str(w.actions("t")))
    ctx.check(t not in w.session.returns, "there is no return value")
    ctx.check(len(calls) == 2 and calls[0][0] == calls[1][0] == ["x"], "the command is run once each time")
    texts = [w.repo.get(r, "exc_text") or w.repo.get(r, "message") for r in w.repo.of("t") if w.repo.get(r, "action") == "fail"]
    if how == "code":
        ctx.check(all("the reason" in str(x) and str(code) in str(x) for x in texts if x and "Traceback" in str(x)), "with the reason")
    if how == "hangs":
        ctx.check(all([x for x, _ in log][:2] == ["communicate", "kill"] and [x for x, _ in log][-1] == "communicate" for _, _, log in calls), "the command is killed and waited for", str(calls))


@harness("C24", FN, cases=["main", "thread", "process"], samples=40)
def any_code(ctx, execution):
    """the run succeeds exactly when the command ends with 0, and is waited for exactly its timeout: for every code and timeout"""
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    t = CommandTask(command=["x"], name="t", session=w.session, execution=execution)
    td = ctx.timedelta("timeout", datetime.timedelta(0), datetime.timedelta(days=20))
    put(t, timeout=td)
    code = ctx.int("code", -255, 2**31)
    calls = run_all(w, [t], {"code": code})
    ctx.check(len(calls) == 1 and [x for x, _ in calls[0][2]] == ["communicate"], "the command is run once and waited for")
    ctx.check(calls[0][2][0][1] == td.total_seconds(), "as long as its timeout")
    ctx.check(iff(code == 0, t.status == "success") and w.actions("t") == ["run", t.status], "it succeeds exactly when the command does")


@harness("C24", FN, cases=["main", "thread", "process"], samples=1, bound="each setting changed once between two runs")
def changed(ctx, execution):
    """what is changed between two runs is in effect from the next run on, for that task only"""
    first = dict(command=["x"], cwd="/one", shell=False, timeout=datetime.timedelta(seconds=5), kwds_popen={"env": {"A": "1"}}, parameters={"p": 1}, argform="-")
    second = dict(command=["y", "z"], cwd="/two", shell=True, timeout=datetime.timedelta(seconds=9), kwds_popen={"env": {"B": "2"}}, parameters={"q": 2}, argform="long")

    def want(s):
        d = {"short": "-", "long": "--"}.get(s["argform"], s["argform"])
        return s["command"] + [x for k, v in s["parameters"].items() for x in (d + k, str(v))]
    for field in list(first) + [None]:
        w = World(ctx, clock=Clock(ctx, fixed=FIXED))
        t = CommandTask(name="t", session=w.session, execution=execution, **first)
        o = CommandTask(name="o", session=w.session, execution=execution, **first)
        now = dict(first)
        run_all(w, [t, o], {})
        for f in ([field] if field else list(first)):
            setattr(t, f, second[f])
            now[f] = second[f]
        calls = run_all(w, [t, o], {})
        ctx.check(len(calls) == 2, "each run calls its command once", str(field))
        for (command, k, log), s in zip(calls, (now, first)):
            ctx.check(command == want(s), "the command and the parameters of now", f"{field}: {command}")
            ctx.check(k.get("cwd") == s["cwd"] and k.get("shell") is s["shell"] and k.get("env") == s["kwds_popen"]["env"], "the settings of now", f"{field}: {k}")
            ctx.check(log == [("communicate", s["timeout"].total_seconds())], "the timeout of now", f"{field}: {log}")
        ctx.check(first["kwds_popen"] == {"env": {"A": "1"}} and first["command"] == ["x"], "what was given is unchanged", str(field))
