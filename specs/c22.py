"""C22 -- the session keeps every task it was given, under one name, and finds, renames, removes and runs just the one asked for."""
import datetime
import itertools

from pyvc import harness, iff, and_, or_, not_
from rocketry import Rocketry, Grouper, Session
from rocketry.conds import daily, hourly
from rocketry.tasks import FuncTask, CommandTask
from specs.world import World, Clock, Cond, ProbeTask, StartProbe, Syncs, drive, put

LEVEL = "other"
S = "session.py:Session."
FN = [S + "add_task", S + "remove_task", S + "__getitem__", S + "__contains__", S + "get_task", S + "_get_task_name", S + "create_task", "core/task.py:Task.parse_name",
      "core/task.py:Task.validate_name", "core/task.py:Task.register", "core/task.py:Task.delete"]
TRUSTED = ["pydantic (its validators are called on creation and on assignment)"]
ASSUMPTIONS = ["names are texts of a small set (with the names the renaming makes); they are only compared and joined",
               "the link from a function to its task is only kept until the task is renamed (as the code says)",
               "giving a task the name of another one by assignment is outside for the policy 'ignore'"]
FIXED = datetime.datetime(2022, 1, 1)
NAMES = ["a", "b", "a - 1"]


def free(name, taken):
    "the name a task gets under the policy rename"
    new, n = name, 0
    while new in taken:
        n += 1
        new = f"{name} - {n}"
    return new


def agree(ctx, session, ghost, log):
    "the session has exactly the tasks of the ghost {name: task}, each found by name and by itself"
    ctx.check(len(session.tasks) == len(ghost) and all(any(t is x for x in session.tasks) for t in ghost.values()), "the session has exactly the tasks it was given", log)
    for n, t in ghost.items():
        try:
            ok = t.name == n and session[n] is t and session[t] is t and session.get_task(n) is t and n in session and t in session and t.session is session
        except Exception as e:
            ok, log = False, f"{log}: {e!r}"
        ctx.check(ok, "every task is found under its name", f"{log}: {n}")
    for n in set(NAMES + ["c", "a - 2", "A", ""]) - set(ghost):
        try:
            session[n]
            ok = False
        except KeyError:
            ok = n not in session
        except Exception as e:
            ok = False
        ctx.check(ok, "no task is found under a name that none has", f"{log}: {n}")


OPS = [("new", n) for n in NAMES] + [("name", i, n) for i in (0, 1) for n in NAMES + ["c"]] + [("remove", i, how) for i in (0, 1) for how in ("task", "name", "delete", "function")]


@harness("C22", FN, cases=[(p, d) for p in ("raise", "rename", "ignore") for d in ("probe", "function", "delayed", "command")], samples=1,
         bound="every sequence of up to four operations over two tasks and the listed names")
def history(ctx, case):
    """creating, renaming and removing tasks, in every order"""
    policy, kind = case
    depth = 3 if kind == "probe" else 2
    for seq in itertools.product(OPS, repeat=depth):
        one_history(ctx, policy, kind, (("new", "a"),) + seq)


def make(session, kind, name):
    "-> the task"
    before = set(session.tasks)
    if kind == "probe":
        return ProbeTask(name=name, session=session, execution="main"), None
    if kind == "function":
        f = lambda: None
        return session.create_task(func=f, name=name, execution="main"), None
    if kind == "command":
        return session.create_task(command="x", name=name, execution="main"), None

    def f():
        pass
    deco = session.create_task(name=name, execution="main")
    r = deco(f)
    assert r is f
    new = [t for t in session.tasks if not any(t is x for x in before)]
    return (new[0] if new else None), f


def one_history(ctx, policy, kind, seq):
    session = Session(config=dict(task_pre_exist=policy))
    ghost, made, funcs = {}, [], {}
    log = f"{policy} {kind} {seq}"
    for op in seq:
        if op[0] == "new":
            n = op[1]
            want = free(n, ghost) if policy == "rename" else n
            try:
                t, f = make(session, kind, n)
                err = None
            except (ValueError, KeyError) as e:
                t, f, err = None, None, e
            if n in ghost and policy == "raise":
                ctx.check(err is not None, "a task with the name of another is refused", log)
            elif n in ghost and policy == "ignore":
                ctx.check(err is None, "a task with the name of another is left out", log)
            else:
                ctx.check(err is None and t is not None and t.name == want, "a task is created under its name, or the next free one", f"{log}: {err or t}")
                ghost[want] = t
                made.append(t)
                if f is not None:
                    funcs[want] = f
        else:
            if op[1] >= len(made):
                return
            t = made[op[1]]
            old = next((k for k, v in ghost.items() if v is t), None)
            if old is None:
                return                          # removed before
            if op[0] == "name":
                n = op[2]
                if n == old or (policy == "ignore" and n in ghost):
                    return
                try:
                    t.name = n
                    err = None
                except ValueError as e:
                    err = e
                if n in ghost and policy == "raise":
                    ctx.check(err is not None, "a task is not renamed to the name of another", log)
                else:
                    want = free(n, ghost) if policy == "rename" else n
                    ctx.check(err is None, "a task is renamed", f"{log}: {err}")
                    funcs = {k: v for k, v in funcs.items() if k != old}
                    del ghost[old]
                    ghost[want] = t
            else:
                if op[2] == "function" and old not in funcs:
                    return
                if op[2] == "task":
                    session.remove_task(t)
                elif op[2] == "name":
                    session.remove_task(old)
                elif op[2] == "function":
                    session.remove_task(funcs[old])
                else:
                    t.delete()
                del ghost[old]
                funcs.pop(old, None)
        agree(ctx, session, ghost, log)
        for n, f in funcs.items():
            try:
                ok = session[f] is ghost[n] and f in session
            except Exception as e:
                ok = False
            ctx.check(ok, "a task is found by its function", log)


@harness("C22", ["core/task.py:Task.parse_name", "core/task.py:Task.validate_name"], samples=60, cases=["raise", "rename", "ignore"],
         bound="up to 30 tasks with the name and its numbered forms taken")
def next_free(ctx, policy):
    """the name chosen is free, whichever numbered forms are taken"""
    taken = ctx.int("taken", 0, 30)
    gap = ctx.int("gap", 0, 31)
    session = Session(config=dict(task_pre_exist="raise"))
    names = ["t"] + [f"t - {i}" for i in range(1, int(taken))]
    names = [n for i, n in enumerate(names[:int(taken)]) if i != int(gap)]
    own = {n: ProbeTask(name=n, session=session, execution="main") for n in names}
    session.config.task_pre_exist = policy
    try:
        t, err = ProbeTask(name="t", session=session, execution="main"), None
    except ValueError as e:
        t, err = None, e
    clash = "t" in own
    if clash and policy == "raise":
        ctx.check(err is not None and len(session.tasks) == len(own), "refused")
    elif clash and policy == "ignore":
        ctx.check(err is None and len(session.tasks) == len(own) and all(session[n] is x for n, x in own.items()), "left out")
    else:
        ctx.check(err is None and t.name == free("t", own) and t.name not in own and session[t.name] is t and len(session.tasks) == len(own) + 1, "the next free name", f"{names} {t}")
    ctx.check(all(session[n] is x for n, x in own.items()), "the other tasks keep their names")


# ---------------------------------------------------------------- groups

GRP = ["application.py:_AppMixin.include_grouper", S + "add_task", "core/task.py:Task.parse_name"]


@harness("C22", GRP, cases=list(itertools.product([None, "", "x", "g."], ["raise", "rename", "ignore"])), samples=1,
         bound="one or two groups of up to three tasks with the listed names")
def groups(ctx, case):
    """a group's tasks are included under their prefixed names, with the group's condition, execution and parameters"""
    prefix, policy = case
    sets = [(), ("a",), ("a", "b"), ("a", "xa", "xxa"), ("xa", "a"), ("b", "x")]
    for app_names, group_names, cond, execution in itertools.product([(), ("a",), ("xa", "g.a"), ("b", "q")], sets, (False, True), (None, "thread")):
        w = World(ctx, clock=Clock(ctx, fixed=FIXED), task_pre_exist=policy)
        app = Rocketry(session=w.session)
        own = {}
        for n in app_names:
            own[n] = w.task(n, start_cond=Cond(True), execution="main")
        app.params(p=1, q="app")
        gc = Cond(True, tag="group")
        group = Grouper(prefix=prefix, start_cond=gc if cond else None, execution=execution)
        group.params(p=2, r="group")
        mine = {}
        for i, n in enumerate(group_names):
            mine[n] = ProbeTask(name=n, session=group.session, start_cond=Cond(True, tag=n), execution="main" if i == 1 else None)
        log = f"{case} {app_names} {group_names}"
        try:
            app.include_grouper(group)
            err = None
        except (KeyError, ValueError) as e:
            err = e
        ghost = dict(own)
        clash = [n for n in group_names if (prefix or "") + n in own]
        if clash and policy == "raise":
            ctx.check(err is not None, "a group with a task named as another is refused", log)
            ctx.check(all(w.session[n] is t and t.name == n for n, t in own.items()), "and the tasks there were are kept", log)
            continue
        ctx.check(err is None, "the group is included", f"{log}: {err}")
        names = {t.name for t in w.session.tasks}
        left_out = 0
        for n in group_names:
            t, full = mine[n], (prefix or "") + n
            if full in own and policy == "ignore":
                left_out += 1
                ctx.check(not any(t is x for x in w.session.tasks), "a task named as another is left out", log)
                continue
            ctx.check(any(t is x for x in w.session.tasks), "every task of the group is in the session", f"{log}: {n}")
            if full in own:
                ctx.check(t.name.startswith(full + " - ") and t.name not in own, "renamed if the name is taken", f"{log}: {t.name}")
            else:
                ctx.check(t.name == full, "under its name with the prefix", f"{log}: {t.name}")
            ctx.check(w.session[t.name] is t and t.session is w.session, "and belongs to it", log)
            ctx.check(t.execution == ("main" if group_names.index(n) == 1 else execution), "its own execution, or else the group's", log)
            for a, b in itertools.product((True, False), repeat=2):
                leaf_states(t.start_cond, n, a)
                leaf_states(t.start_cond, "group", b)
                ctx.check(t.start_cond.observe(task=t, session=w.session) == ((a and b) if cond else a), "it starts when its condition and the group's hold", log)
        ctx.check(len(names) == len(w.session.tasks) == len(own) + len(group_names) - left_out, "no two tasks have the same name, and none is lost", log)
        ctx.check(all(w.session[n] is t and t.name == n and t.execution == "main" for n, t in own.items()), "the tasks there were are unchanged", log)
        ctx.check(dict(w.session.parameters) == {"p": 2, "q": "app", "r": "group"}, "the parameters are joined", log)


def leaf_states(cond, tag, state):
    "set the answer of the leaves of the condition with the tag"
    if isinstance(cond, Cond):
        if cond.tag == tag:
            cond.state = state
        return
    for c in getattr(cond, "subconditions", ()):
        leaf_states(c, tag, state)


@harness("C22", GRP, samples=1, bound="two groups")
def two_groups(ctx):
    """several groups in one app: the same names under different prefixes, a condition per group"""
    for order in itertools.permutations(range(3)):
        w = World(ctx, clock=Clock(ctx, fixed=FIXED))
        app = Rocketry(session=w.session)
        gs = [Grouper(prefix="m."), Grouper(prefix="e.", start_cond=Cond(False, tag="group")), Grouper()]
        ts = [[ProbeTask(name=n, session=g.session, start_cond=Cond(True, tag=n)) for n in ("a", "b")] for g in gs]
        for i in order:
            app.include_grouper(gs[i])
        ctx.check({t.name for t in w.session.tasks} == {"m.a", "m.b", "e.a", "e.b", "a", "b"}, "all tasks are there")
        for pre, row in zip(("m.", "e.", ""), ts):
            for n, t in zip("ab", row):
                ctx.check(w.session[pre + n] is t and t.start_cond.observe(task=t, session=w.session) == (pre != "e."), "each with the condition of its group")


# ---------------------------------------------------------------- running by hand

RUN = [S + "run"]


@harness("C22", RUN, cases=[(n, o, e) for n in ((), ("a",), ("b", "c"), ("a", "b", "c")) for o in (False, True) for e in (None, "main", "thread")], samples=6,
         bound="four tasks, one of them disabled, one run by hand")
def by_hand(ctx, case):
    """Session.run runs the given tasks only, and leaves every task as it was"""
    letters, obey, execution = case
    called = {"a": "a", "b": "ab", "c": "abc", "d": "b"}       # names of which some are parts of others
    names = [called[n] for n in letters]
    Syncs.on = True
    try:
        boom = ctx.choice("failing", [None, "a", "cond", "hook", "startup hook"])
        w = World(ctx, clock=Clock(ctx, fixed=FIXED))
        ran = []

        def body(n):
            def f(**kw):
                ran.append(n)
                if boom == n:
                    raise RuntimeError("fails")
            return f
        conds = {n: Cond(True) for n in "abcd"}
        conds["b"] = Cond(False)
        ts = {n: ProbeTask(name=called[n], session=w.session, body=body(n), start_cond=conds[n], execution="main" if n != "c" else "thread", priority=ord(n)) for n in "abcd"}
        ts["d"].disabled = True
        shut = Cond(False)
        w.session.config.shut_cond = shut
        before = {n: dict(t.__dict__) for n, t in ts.items()}
        shut0 = w.session.config.shut_cond
        if boom == "hook":
            @w.session.hook_shutdown()
            def hook():
                raise RuntimeError("hook")
        elif boom == "startup hook":
            @w.session.hook_startup()
            def startup_hook():
                raise RuntimeError("hook")
        elif boom == "cond":
            conds["a"].error = True
            for t in ts.values():
                leaf_err(t.start_cond, t.name)
        err = None
        try:
            w.session.run(*names, obey_cond=obey, **({} if execution is None else {"execution": execution}))
        except Exception as e:
            err = e
        if boom in (None, "a"):
            ctx.check(err is None, "the run ends by itself", repr(err))
            want = [n for n in letters if not obey or n != "b"]
            ctx.check(sorted(ran) == sorted(want), "exactly the given tasks are run, once", f"{ran}")
            for n in "abcd":
                ctx.check(ts[n].status == ((("fail" if boom == n else "success")) if n in want else None), "their outcome is kept", n)
        else:
            ctx.check(set(ran) <= set(letters), "no other task is run")
        for n, t in ts.items():
            now = dict(t.__dict__)
            for k in ("disabled", "execution", "name", "start_cond", "end_cond", "priority", "parameters", "timeout", "session"):
                ctx.check(now[k] is before[n][k] or now[k] == before[n][k], "every task is left as it was", f"{n}.{k}")
            ctx.check(not t.batches, "no run is left waiting", n)
        ctx.check(w.session.config.shut_cond is shut0 or w.session.config.shut_cond == shut0, "the shut condition is left as it was")
        ctx.check(set(w.session.tasks) == set(ts.values()), "and so are the tasks")
    finally:
        Syncs.on = False


def leaf_err(cond, name):
    if name == "a" and isinstance(cond, Cond):
        cond.error = True
