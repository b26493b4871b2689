"""C18 -- parameters reach a task by precedence, materialised for the run; private values stay hidden."""
import datetime

from pyvc import harness, iff, and_, or_, not_, implies
from rocketry.core import Parameters, Task
from rocketry.args import Arg, SimpleArg, FuncArg, Private, Return, Session as SessionArg, Task as TaskArg
from rocketry.tasks import FuncTask
from specs.world import World, Clock, Syncs, drive, put

T, P = "core/task.py:Task.", "core/parameters/parameters.py:Parameters."
FN = [T + "start_async", T + "get_extra_params", T + "_get_direct_params", T + "prefilter_params", T + "run", T + "run_as_thread",
      T + "run_as_process", T + "_run_as_async", P + "__or__", P + "materialize", P + "pre_materialize", P + "_get", P + "update",
      P + "_from_signature", "tasks/func.py:FuncTask.prefilter_params", "tasks/func.py:FuncTask.get_task_params", "tasks/func.py:FuncTask._set_descr",
      "args/builtin.py:Arg.get_value", "args/builtin.py:FuncArg.__call__", "args/builtin.py:FuncArg.stage", "args/builtin.py:Return.get_value",
      "args/secret.py:Private.get_value", "core/utils/meta.py:filter_keyword_args"]
TRUSTED = ["specs/world.py: SyncThread/SyncProcess (threads and processes run inside start()), clock, log repository",
           "inspect.signature, pickling of parameters to a real process"]
ASSUMPTIONS = ["the values are arbitrary integers; the names are x, y, z, type_", "arguments that fail are covered by C16"]
FIXED = datetime.datetime(2022, 1, 1)
EXECS = ["main", "async", "thread", "process"]
KINDS = ["plain", "simple", "private", "func", "func of arg", "func with value", "reference", "reference to private", "default of reference", "pipe", "returned"]
MISSING = object()


def value_of(ctx, w, kind, v, tag):
    "an argument of the given kind which stands for v"
    if kind == "plain":
        return v
    if kind == "simple":
        return SimpleArg(v)
    if kind == "private":
        return Private(v)
    if kind == "func":
        return FuncArg(lambda: v)
    key = f"src {tag}"
    if kind == "func of arg":
        w.session.parameters[key] = v
        return FuncArg(lambda a=Arg(key): a)
    if kind == "func with value":
        return FuncArg(lambda a=Arg("none", default=0): a, a=v)
    if kind == "reference":
        w.session.parameters[key] = SimpleArg(v)
        return Arg(key)
    if kind == "reference to private":
        w.session.parameters[key] = Private(v)
        return Arg(key)
    if kind == "default of reference":
        return Arg("no such", default=v)
    if kind == "pipe":
        w.session.parameters[key] = v
        return Arg("no such") >> Arg(key)
    w.session.returns[w.task(f"producer {tag}")] = v
    return Return(f"producer {tag}")


class Custom(Task):
    seen: object = None

    class Config(Task.Config):
        extra = "allow"

    def execute(self, x=MISSING, y=MISSING, z=MISSING, type_=MISSING):
        self.seen.append(dict(x=x, y=y, z=z, type_=type_))

    def get_default_name(self, **kw):
        return "custom"


def make(w, kind, execution, seen, sig, params):
    if kind == "custom":
        return Custom(name="t", session=w.session, execution=execution, seen=seen, parameters=params)
    if "x" in sig:
        def f(x=sig["x"], y=MISSING, z=MISSING, *, type_=MISSING):
            seen.append(dict(x=x, y=y, z=z, type_=type_))
    elif "type_" in sig:
        def f(x=MISSING, y=MISSING, z=MISSING, *, type_=sig["type_"]):
            seen.append(dict(x=x, y=y, z=z, type_=type_))
    else:
        def f(x=MISSING, y=MISSING, z=MISSING, *, type_=MISSING):
            seen.append(dict(x=x, y=y, z=z, type_=type_))
    return FuncTask(f, name="t", session=w.session, execution=execution, parameters=params)


async def go(t):
    import asyncio
    await t.start_async()
    for _ in range(6):
        await asyncio.sleep(0)


def same(got, want):
    if want is MISSING or got is MISSING:
        return got is want
    return not isinstance(got, (str, Parameters, Arg, Private, FuncArg)) and got == want


@harness("C18", FN, cases=[(c, e, k) for c in ("func", "custom") for e in EXECS for k in KINDS], samples=20)
def precedence(ctx, case):
    """for every set of sources that define a name: the function gets the value of the most specific one (batch, task, function, session),
    materialised; other names are not disturbed; nothing is left changed for the next run"""
    cls, execution, kind = case
    Syncs.on = True
    try:
        async def main():
            w = World(ctx, clock=Clock(ctx, fixed=FIXED), silence_task_prerun=False)
            put(w.session.config, param_materialize=ctx.choice("materialize", ["pre", "post"]) if "func" in kind else "post")
            name = ctx.choice("name", ["x", "type_"])
            sources = ["session", "function", "task", "batch"] if cls == "func" else ["session", "task", "batch"]
            have = [s for s in sources if ctx.choice(f"in {s}", [False, True])]
            vals = {s: ctx.int(f"value of {s}", 0, 10**6) for s in have}
            top = have[-1] if have else None
            args = {s: value_of(ctx, w, kind if s == top else "plain" if s != "task" else "private", vals[s], s) for s in have}
            y, z = ctx.int("y", 0, 10**6), ctx.int("z", 0, 10**6)
            w.session.parameters.update({"y": y, "unused": 1})
            if "session" in args:
                w.session.parameters[name] = args["session"]
            params = {"z": z}
            if "task" in args:
                params[name] = args["task"]
            sig = {name: args["function"]} if "function" in args else {}
            if "function" in args and top == "function" and kind == "plain":
                sig = {name: SimpleArg(vals["function"])}
            elif "function" in args and top != "function":
                sig = {name: SimpleArg(vals["function"])}
            seen = []
            t = make(w, cls, execution, seen, sig, params)
            before = (dict(t.parameters.items()), dict(w.session.parameters.items()))
            if "batch" in args:
                how = ctx.choice("asked", ["mapping", "keywords", "Parameters"])
                t.run(**{name: args["batch"]}) if how == "keywords" else t.run({name: args["batch"]}) if how == "mapping" else t.run(Parameters({name: args["batch"]}))
            await go(t)
            ctx.check(len(seen) == 1 and t.status in ("success", "run"), "the task is run with its parameters", f"{t.status} {len(seen)}")
            got = seen[0]
            ctx.check(same(got[name], vals[top] if top else MISSING), "the value of the most specific source is passed, as its value")
            ctx.check(and_(same(got["y"], y), same(got["z"], z)), "other parameters are passed as well")
            ctx.check(same(got["x" if name == "type_" else "type_"], MISSING), "nothing else is passed")
            after = (dict(t.parameters.items()), dict(w.session.parameters.items()))
            ok = True
            for b, a in zip(before, after):
                ok = ok and set(a) == set(b) and all(a[k] is b[k] for k in b)
            ctx.check(ok, "the parameters of the task and the session are left as they were")
            ctx.check(len(t.batches) == 0, "the batch is used up")
            await go(t)
            second = [s for s in have if s != "batch"]
            ctx.check(len(seen) == 2, "the task is run again")
            ctx.check(same(seen[1][name], vals[second[-1]] if second else MISSING), "the batch does not affect the next run")
        drive(main())
    finally:
        Syncs.on = False


@harness("C18", FN, cases=[(c, e, n) for c in ("func", "custom") for e in EXECS for n in (1, 2, 3)], samples=20, bound="up to 3 batches")
def batches(ctx, case):
    "every run consumes the oldest batch; then the task's own value is used"
    cls, execution, n = case
    Syncs.on = True
    try:
        async def main():
            w = World(ctx, clock=Clock(ctx, fixed=FIXED), silence_task_prerun=False)
            own = ctx.int("own", 0, 10**6)
            seen = []
            t = make(w, cls, execution, seen, {}, {"x": own})
            vals = []
            for i in range(n):
                has = ctx.choice(f"has {i}", [True, False])
                v = ctx.int(f"v{i}", 0, 10**6)
                t.run(x=v) if has else t.run()
                vals.append(v if has else own)
            for i in range(n + 1):
                await go(t)
            ctx.check(len(seen) == n + 1 and len(t.batches) == 0, "one run for each")
            ctx.check(and_(*[same(s["x"], v) for s, v in zip(seen, vals + [own])]), "each run has the oldest batch")
        drive(main())
    finally:
        Syncs.on = False


@harness("C18", FN + ["core/task.py:Task._handle_return"], cases=[(e, f) for e in EXECS for f in EXECS], samples=15, bound="3 runs")
def returns(ctx, case):
    "Return('a') is what a returned last, at the time of the run; function arguments are formed anew for every run"
    e1, e2 = case
    Syncs.on = True
    try:
        async def main():
            w = World(ctx, clock=Clock(ctx, fixed=FIXED), silence_task_prerun=False)
            vs = [ctx.int(f"v{i}", 0, 10**6) for i in range(2)]
            d = ctx.int("default", 0, 10**6)
            left, seen, n = list(vs), [], [0]

            def produce():
                return left.pop(0)

            def fresh():
                n[0] += 1
                return n[0]
            a = FuncTask(produce, name="a", session=w.session, execution=e1)
            b = FuncTask(lambda r, k: seen.append((r, k)), name="b", session=w.session, execution=e2 if e2 != "process" else "thread",
                         parameters={"r": Return(ctx.choice("by", ["a", a]), default=d), "k": FuncArg(fresh)})
            want = [d] + vs
            await go(b)
            for i in range(2):
                await go(a)
                if e1 == "process":
                    w.scheduler.handle_logs()
                await go(b)
            ctx.check(len(seen) == 3, "all runs are made")
            ctx.check(and_(*[same(s[0], v) for s, v in zip(seen, want)]), "the latest return value of the other task is passed")
            ctx.check([s[1] for s in seen] == [1, 2, 3], "function arguments are formed once for every run")
        drive(main())
    finally:
        Syncs.on = False


SECRETS = ["s3cr3t-word", 190723, b"s3cr3t-bytes", ["s3cr3t-item"]]


@harness("C18", ["args/secret.py:Private.get_value", "args/secret.py:Private.__repr__", P + "__getitem__", P + "get", P + "__repr__", P + "to_json"],
         cases=list(range(len(SECRETS))), samples=3, bound="secrets of four types")
def hidden(ctx, i):
    "no textual form or lookup outside a task shows a private value"
    secret = SECRETS[i]
    text = str(secret if not isinstance(secret, (bytes, list)) else "s3cr3t")
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    p = Parameters({"k": Private(secret), "open": 1})
    w.session.parameters = p if ctx.choice("session", [0, 1]) else Parameters(p)
    q = w.session.parameters | {"more": Private(secret)}
    shown = [repr(Private(secret)), str(Private(secret)), f"{Private(secret)}", repr(p), str(p), repr(q), str(q.to_json()), repr(dict(q)), repr(p["k"]),
             repr(p.get("k")), repr(list(p.values())), repr(list(p.items())), repr(p.copy()), repr(Parameters(type_=Private, k=secret)),
             str(Private(secret).get_value()), repr(w.session.parameters["k"]), str([Private(secret)]), "%s" % Private(secret)]
    ctx.check(all(text not in s for s in shown), "a private value is not shown", str([s for s in shown if text in s][:2]))
    seen = []
    t = FuncTask(lambda k: seen.append(k), name="t", session=w.session, execution="main")
    t()
    ctx.check(seen == [secret], "the task gets the private value")
    ctx.check(all(text not in str(vars(r)) for r in w.repo.rows), "the log of the task does not show it")


@harness("C18", ["args/builtin.py:FuncArg.stage", "args/builtin.py:FuncArg.get_value", P + "pre_materialize", T + "run_as_thread", T + "run_as_process"],
         cases=[(e, where) for e in EXECS for where in ("task", "session", "batch")], samples=10)
def when_formed(ctx, case):
    """the values of functions are formed once for each run: in the scheduler before the thread or process when 'pre' is asked for (by the argument,
    else by the session), otherwise in it"""
    execution, where = case
    Syncs.on = True
    try:
        async def main():
            w = World(ctx, clock=Clock(ctx, fixed=FIXED), silence_task_prerun=False)
            own, ses = ctx.choice("argument", [None, "pre", "post"]), ctx.choice("session", ["pre", "post"])
            put(w.session.config, param_materialize=ses)
            seen, formed, v = [], [], ctx.int("v", 0, 10**6)

            def form():
                formed.append(len(w.actions("t")))         # records of the run so far: none before the thread
                return v
            arg = FuncArg(form, materialize=own) if own else FuncArg(form)

            def body(x):
                seen.append(x)
            t = FuncTask(body, name="t", session=w.session, execution=execution, parameters={"x": arg} if where == "task" else {})
            if where == "session":
                w.session.parameters["x"] = arg
            for i in range(2):
                if where == "batch":
                    t.run(x=arg)
                n = len(w.actions("t"))
                await go(t)
                w.scheduler.handle_logs()
                ctx.check(len(seen) == i + 1 and len(formed) == i + 1, "the value is formed once for each run")
                ctx.check(same(seen[i], v), "the value is passed")
                if execution == "thread":
                    ctx.check((formed[i] == n) == ((own or ses) == "pre"), "it is formed before the thread or in it, as asked")
        drive(main())
    finally:
        Syncs.on = False


@harness("C18", ["args/builtin.py:EnvArg.get_value", "args/builtin.py:CliArg.get_value", "args/builtin.py:Task.get_value", "args/builtin.py:Session.get_value",
                 "args/builtin.py:Config.get_value"], cases=["env", "cli", "task", "session", "config"], samples=10)
def surroundings(ctx, kind):
    "arguments from the environment, the command line, the task, the session and its configuration"
    import os
    from rocketry.args import EnvArg, CliArg, Config
    w = World(ctx, clock=Clock(ctx, fixed=FIXED), silence_task_prerun=False)
    seen = []
    other = w.task("other")
    there, fallback = ctx.choice("there", [True, False]), ctx.choice("default", [True, False])
    kw = dict(default="fallback") if fallback else {}
    if kind == "env":
        os.environ.pop("PYVC_VAR", None)
        if there:
            os.environ["PYVC_VAR"] = "val"
        arg, want = EnvArg("PYVC_VAR", **kw), "val" if there else "fallback"
    elif kind == "cli":
        old = CliArg.cli_args
        CliArg.cli_args = ["prog", "--other", "x"] + (["--var", "val", "--last", "y"] if there else [])
        arg, want = CliArg("--var", **kw), "val" if there else "fallback"
    elif kind == "task":
        arg, want = (TaskArg("other"), other) if there else (TaskArg(), None)
        fallback = True
    elif kind == "session":
        arg, want, fallback = SessionArg(), w.session, True
    else:
        arg, want, fallback = Config(), w.session.config, True
    t = FuncTask(lambda x: seen.append(x), name="t", session=w.session, execution=ctx.choice("execution", ["main", "async"]), parameters={"x": arg})
    if kind == "task" and not there:
        want = t
    try:
        drive(go(t))
    except Exception:
        pass
    finally:
        os.environ.pop("PYVC_VAR", None)
        if kind == "cli":
            CliArg.cli_args = old
    if there or fallback:
        ctx.check(len(seen) == 1 and (seen[0] == want if isinstance(want, str) else seen[0] is want), "the argument is the named thing")
    else:
        ctx.check(not seen and t.status == "fail", "a missing one without a default fails the run")


@harness("C18", ["tasks/func.py:FuncTask.get_func", "tasks/func.py:FuncTask.execute", "tasks/func.py:FuncTask.get_task_params", "tasks/func.py:FuncTask.postfilter_params",
                 "tasks/func.py:FuncTask.process_finish", "tasks/func.py:get_module", "tasks/func.py:TempSysPath.__exit__"],
         cases=[(e, f) for e in EXECS for f in ("same", "changed")], samples=6, bound="two runs of a function in a file")
def from_file(ctx, case):
    """a function given by its file gets the arguments it asks for, as the file is when the run begins"""
    import os, shutil, sys, tempfile
    execution, how = case
    d = tempfile.mkdtemp(prefix="pyvc")
    old, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    path, Syncs.on = os.path.join(d, "script_of_task.py"), True
    try:
        def write(args, extra=""):
            with open(path, "w") as f:
                f.write(f"from rocketry.args import SimpleArg\n{extra}\ndef work({args}):\n    return dict(locals())\ndef main():\n    raise RuntimeError\n")

        async def main():
            w = World(ctx, clock=Clock(ctx, fixed=FIXED), silence_task_prerun=False)
            vals = {k: ctx.int(k, 0, 10**6) for k in ("session", "task", "batch")}
            w.session.parameters.update({"x": vals["session"], "y": vals["session"], "unused": 1})
            write("x, y, z=SimpleArg(7)")
            here, paths = os.getcwd(), list(sys.path)
            t = FuncTask(path=path, func_name="work", name="t", session=w.session, execution=execution, parameters={"y": vals["task"]})
            for i in range(2):
                want = {"x": vals["session"], "y": vals["task"], "z": 7}
                if i and how == "changed":
                    write("y, new=SimpleArg(8), *, x", "# changed")
                    want = {"x": vals["session"], "y": vals["task"], "new": 8}
                if ctx.choice(f"batch{i}", [False, True]):
                    t.run(x=vals["batch"])
                    want["x"] = vals["batch"]
                await go(t)
                w.scheduler.handle_logs()
                ctx.check(t.status == "success", "the run succeeds", str(w.actions("t")))
                got = w.session.returns[t]
                ctx.check(set(got) == set(want) and and_(*[same(got[k], v) for k, v in want.items()]), "it gets the arguments the function in the file asks for")
            ctx.check(sys.path == paths and os.getcwd() == here, "the import path is left as it was")
        drive(main())
    finally:
        Syncs.on = False
        sys.dont_write_bytecode = old
        shutil.rmtree(d, ignore_errors=True)


@harness("C18", ["tasks/func.py:FuncTask.kw_args", "tasks/func.py:FuncTask.prefilter_params", "core/task.py:Task.prefilter_params", "core/utils/meta.py:filter_keyword_args"],
         cases=[(s, e) for s in ("plain", "keyword", "variadic", "method", "custom variadic") for e in ("main", "async", "thread", "process")], samples=8)
def asked_only(ctx, case):
    """of the session's parameters a function receives just those it names (not all though it could take any, nor those that have the name of its *args or **kwargs);
    of the task's own, all"""
    sig, execution = case
    Syncs.on = True
    try:
        async def main():
            w = World(ctx, clock=Clock(ctx, fixed=FIXED), silence_task_prerun=False)
            seen = []
            a = ctx.int("a", 0, 10**6)
            where = ctx.choice("where", ["session", "task"])
            given = {"a": a, "args": (1,), "kwargs": {"b": 2}, "c": 3}
            if where == "session":
                for key, val in given.items():
                    w.session.parameters[key] = val
            params = {} if where == "session" else dict(a=a) if sig not in ("variadic", "custom variadic") else given

            def plain(a):
                seen.append((a, (), {}))

            def keyword(*, a):
                seen.append((a, (), {}))

            def variadic(a, *args, **kwargs):
                seen.append((a, args, kwargs))

            class Some:
                def method(self, a, *args):
                    seen.append((a, args, {}))

            class Variadic(Task):
                class Config(Task.Config):
                    extra = "allow"

                def execute(self, a, *args, **kwargs):
                    seen.append((a, args, kwargs))

                def get_default_name(self, **kw):
                    return "custom"
            if sig == "custom variadic":
                t = Variadic(name="t", session=w.session, execution=execution, parameters=params)
            else:
                f = {"plain": plain, "keyword": keyword, "variadic": variadic, "method": Some().method}[sig]
                t = FuncTask(f, name="t", session=w.session, execution=execution, parameters=params)
            await go(t)
            ctx.check(len(seen) == 1 and same(seen[0][0], a), "the function gets the argument it names", repr(seen))
            if len(seen) == 1:
                rest = {k: v for k, v in params.items() if k != "a"}
                ctx.check(not seen[0][1] and seen[0][2] == rest, "the function gets nothing else", repr(seen[0][1:]))
        drive(main())
    finally:
        Syncs.on = False
