"""C21 -- a condition text means the boolean expression it spells, its phrases the conditions they name."""
import datetime
import itertools
import random
import re

from pyvc import harness, iff, and_, or_, not_, implies
from rocketry.conditions import (TaskFailed, TaskSucceeded, TaskFinished, TaskTerminated, TaskInacted, TaskStarted, TaskRunning, SchedulerStarted,
                                 SchedulerCycles, IsPeriod, ParamExists, IsEnv, FuncCond, DependSuccess, DependFailure, DependFinish)
from rocketry.conditions import api
from rocketry.core import BaseCondition
from rocketry.core.condition import All, Any, Not
from rocketry.core.time.base import TimePeriod
from rocketry.parse import parse_condition, parse_time
from rocketry.time import TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek, TimeOfMonth, TimeDelta, always, never
from specs.world import World, Clock, Cond, put, feed, stamp

LEVEL = "other"
FN = ["parse/utils/string_parser.py:InstructionParser.__call__", "parse/utils/string_parser.py:InstructionParser._assemble",
      "parse/utils/string_parser.py:InstructionParser._assemble_oper", "parse/utils/string_parser.py:InstructionParser._split_operations",
      "pybox/string/parse/closure.py:ClosureParser.to_list", "pybox/container/visitor.py:Visitor.reduce",
      "parse/_condition/condition_item.py:parse_condition_item", "parse/_condition/string.py:_parse_all", "parse/_condition/string.py:_parse_any",
      "parse/_condition/string.py:_parse_not", "core/condition/base.py:All.observe", "core/condition/base.py:Any.observe", "core/condition/base.py:Not.observe"]
PH = ["parse/_setup_cond_parsers.py:_from_period_task_has", "parse/_condition/condition_item.py:parse_condition_item", "time/construct.py:get_between"]
TRUSTED = ["re of the standard library", "specs/world.py: log repository, clock"]
ASSUMPTIONS = ["texts are concrete: every text up to the stated length is tried; the truth values of its phrases are arbitrary",
               "phrases: a text and the API give conditions of the same structure, or (if not) of the same truth on the sampled histories; the API "
               "conditions themselves are covered by C08-C12"]
FIXED = datetime.datetime(2022, 1, 1)


# ---------------------------------------------------------------- the grammar (oracle)

def read(tokens):
    "or := and ('|' and)*; and := not ('&' not)*; not := '~' not | '(' or ')' | atom -> tree or None"
    pos = 0

    def peek():
        return tokens[pos] if pos < len(tokens) else None

    def p_or():
        nonlocal pos
        t = p_and()
        while t is not None and peek() == "|":
            pos += 1
            r = p_and()
            t = ("|", t, r) if r is not None else None
        return t

    def p_and():
        nonlocal pos
        t = p_not()
        while t is not None and peek() == "&":
            pos += 1
            r = p_not()
            t = ("&", t, r) if r is not None else None
        return t

    def p_not():
        nonlocal pos
        k = peek()
        if k == "~":
            pos += 1
            r = p_not()
            return ("~", r) if r is not None else None
        if k == "(":
            pos += 1
            r = p_or()
            if r is None or peek() != ")":
                return None
            pos += 1
            return r
        if k is None or k in "&|)":
            return None
        pos += 1
        return k
    t = p_or()
    return t if t is not None and pos == len(tokens) else None


def truth(tree, env):
    if isinstance(tree, str):
        return env[tree]
    if tree[0] == "~":
        return not_(truth(tree[1], env))
    f = and_ if tree[0] == "&" else or_
    return f(truth(tree[1], env), truth(tree[2], env))


ATOMS = ["a", "is b", "c"]


def setting(ctx, atoms):
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    env = {k: ctx.bool(k) for k in atoms}
    for k, v in env.items():
        w.session._cond_parsers[k] = lambda v=v: Cond(v)
    return w, w.task("t"), env


SPACES = ["", " ", "pad", "\n  "]


def spell(tokens, sp):
    if sp == "pad":
        return "  " + "  ".join(tokens) + " "
    return sp.join(tokens)


def decide(ctx, w, t, env, tokens, sp):
    s = spell(tokens, sp)
    tree = read(tokens)
    try:
        cond = parse_condition(s, session=w.session)
    except Exception as e:
        ctx.check(tree is None, "an expression is understood", f"{s!r}: {e!r}")
        return
    if tree is None:
        ctx.check(False, "what is not an expression is refused", repr(s))
        return
    ctx.check(iff(cond.observe(task=t, session=w.session), truth(tree, env)), "the text means the expression", repr(s))


def texts(n, first):
    toks = ["a", "is b", "&", "|", "~", "(", ")"]
    for rest in itertools.product(toks, repeat=n - 1):
        yield (first,) + rest


@harness("C21", FN, cases=[(n, f) for n in (1, 2, 3, 4) for f in ("a", "is b", "&", "|", "~", "(", ")")] + [(5, f) for f in ("a", "~", "(")], samples=2,
         bound="all texts of up to 4 tokens (5 when beginning with a phrase, ~ or parenthesis)")
def every_text(ctx, case):
    """every sequence of tokens: understood exactly when it is an expression, and then with its meaning"""
    n, first = case
    w, t, env = setting(ctx, ATOMS[:2])
    for i, tokens in enumerate(texts(n, first)):
        for sp in ([SPACES[i % 4]] if n > 3 else SPACES):
            if sp == "" and any(x[-1:].isalpha() and y[:1].isalpha() for x, y in zip(tokens, tokens[1:])):
                continue
            decide(ctx, w, t, env, tokens, sp)


def trees(n):
    "all expressions of n phrases, with or without a negation at each node"
    def gen(lo, hi):
        if hi - lo == 1:
            base = [ATOMS[lo % 3]]
        else:
            base = [(op, l, r) for m in range(lo + 1, hi) for op in "&|" for l in gen(lo, m) for r in gen(m, hi)]
        return base + [("~", b) for b in base]
    return gen(0, n)


def tokens_of(tree, full, level=0):
    "level: 0 or, 1 and, 2 not"
    if isinstance(tree, str):
        return ["(", tree, ")"] if full == "all" else [tree]
    mine = {"|": 0, "&": 1, "~": 2}[tree[0]]
    if tree[0] == "~":
        out = ["~"] + tokens_of(tree[1], full, 2)
    else:
        out = tokens_of(tree[1], full, mine) + [tree[0]] + tokens_of(tree[2], full, mine)
    if mine < level or full:
        out = ["("] + out + [")"]
    return out


@harness("C21", FN, cases=[(f, s) for f in (False, True, "all") for s in range(4)], samples=1,
         bound="all expressions of up to 3 phrases with negations anywhere, a sample of those of 4 and 5 phrases")
def every_expression(ctx, case):
    """every expression, with as few or as many parentheses as there can be"""
    full, sp = case
    w, t, env = setting(ctx, ATOMS)
    rnd = random.Random(7)
    big = trees(4)
    for tree in trees(1) + trees(2) + trees(3) + [rnd.choice(big) for _ in range(60)]:
        tokens = tokens_of(tree, full)
        ctx.check(iff(truth(read(tokens), env), truth(tree, env)), "oracle")
        decide(ctx, w, t, env, tokens, SPACES[sp])


# ---------------------------------------------------------------- phrases

def shape(x, depth=0):
    "what a condition or period is made of"
    if depth > 8:
        return "..."
    for name in ("get_cond",):
        if isinstance(x, BaseCondition) and hasattr(x, name):
            x = getattr(x, name)()
    if isinstance(x, (BaseCondition, TimePeriod)):
        if isinstance(x, (All, Any)):
            return (type(x).__name__, [shape(y, depth + 1) for y in (x.subconditions if isinstance(x, BaseCondition) else x.periods)])
        if type(x).__name__ in ("All", "Any") and hasattr(x, "periods"):
            return (type(x).__name__, [shape(y, depth + 1) for y in x.periods])
        d = {k: shape(v, depth + 1) for k, v in sorted(vars(x).items()) if k not in ("_str", "session", "_session")}
        return (type(x).__name__, d)
    if isinstance(x, (list, tuple)):
        return [shape(y, depth + 1) for y in x]
    if isinstance(x, dict):
        return {k: shape(v, depth + 1) for k, v in sorted(x.items())}
    if callable(x):
        return getattr(x, "__qualname__", str(type(x)))
    return x


def truths(ctx, conds):
    "the truth of the conditions on some histories"
    out = []
    rnd = random.Random(3)
    for i in range(40):
        now = datetime.datetime(2022, 3, 8, 12, 10, 20) + datetime.timedelta(seconds=rnd.choice([0, 7, 600, 5000, 40000, 86400 * 3, 86400 * 20]))
        w = World(ctx, clock=Clock(ctx, fixed=now))
        ts = [w.task(n) for n in ("me", "x", "y")]
        hist = sorted((now - datetime.timedelta(seconds=rnd.choice([1, 15, 50, 900, 4000, 20000, 90000, 400000])), rnd.choice(ts),
                       rnd.choice(["run", "success", "fail", "terminate", "inaction"])) for _ in range(rnd.randrange(5))) if False else []
        for _ in range(rnd.randrange(6)):
            hist.append((now - datetime.timedelta(seconds=rnd.choice([1, 15, 50, 900, 4000, 20000, 90000, 400000])), rnd.randrange(3),
                         rnd.choice(["run", "success", "fail", "terminate", "inaction"])))
        for at, k, act in sorted(hist):
            feed(ts[k], act, stamp(at))
        w.scheduler.startup_time = now - datetime.timedelta(seconds=rnd.choice([10, 590, 610, 5000]))
        w.scheduler.n_cycles = rnd.randrange(6)
        w.session.parameters["env"] = rnd.choice(["test", "prod"])
        row = []
        for c in conds:
            try:
                row.append(bool(c.observe(task=ts[0], session=w.session, scheduler=w.scheduler)))
            except Exception as e:
                row.append(type(e).__name__)
        out.append(row)
    return out


PER = {"minute": ("this minute", TimeOfMinute, "15", "45"), "hour": ("this hour", TimeOfHour, "15:00", "45:00"), "day": ("today", TimeOfDay, "10:00", "22:30"),
       "week": ("this week", TimeOfWeek, "Tue", "Friday"), "month": ("this month", TimeOfMonth, "3rd", "15th")}
EXEC = {"minute": (api.minutely, "minutely"), "hour": (api.hourly, "hourly"), "day": (api.daily, "daily"), "week": (api.weekly, "weekly"), "month": (api.monthly, "monthly")}
ACTS = {"failed": TaskFailed, "succeeded": TaskSucceeded, "finished": TaskFinished, "terminated": TaskTerminated, "inacted": TaskInacted, "started": TaskStarted}


def phrases():
    out = []
    for k, (this, cls, a, b) in PER.items():
        for name, per in (("", cls(None, None)), (f" between {a} and {b}", cls(a, b)), (f" between {b} and {a}", cls(b, a)), (f" after {a}", cls(a, None)), (f" before {b}", cls(None, b)),
                          (f" starting {a}", cls.starting(a)), (f" on {a}", cls(a, time_point=True))):
            for act, c in ACTS.items():
                out.append((f"has {act} {this}{name}", c(period=per)))
                out.append((f"task 'x' has {act} {this}{name}", c(task="x", period=per)))
        for name, per in ((f"between {a} and {b}", cls(a, b)), (f"after {a}", cls(a, None)), (f"before {b}", cls(None, b))) + (
                ((f"on {a}", cls(a, time_point=True)),) if k in ("week", "month") else ()):
            out.append((f"time of {k} {name}", IsPeriod(period=per)))
        wr, word = EXEC[k]
        out += [(word, wr), (f"{word} between {a} and {b}", wr.between(a, b)), (f"{word} after {a}", wr.after(a)), (f"{word} before {b}", wr.before(b)),
                (f"{word} starting {a}", wr.starting(a)), (f"{word} on {a}", wr.on(a))]
    for act, c in ACTS.items():
        out += [(f"has {act}", c()), (f"task 'x' has {act}", c(task="x"))]
        for p in ("past 2 hours", "in past 2 hours"):
            out += [(f"has {act} {p}", c(period=TimeDelta("2 hours"))), (f"task 'x' has {act} {p}", c(task="x", period=TimeDelta("2 hours")))]
    out += [("secondly", api.secondly), ("every 10 seconds", api.every("10 seconds")), ("every 1 hour, 30 minutes", api.every("1 hour, 30 minutes")),
            ("cron 1 2 * * *", api.cron("1 2 * * *")), ("always", IsPeriod(period=always)), ("never", IsPeriod(period=never)),
            ("while task 'x' is running", TaskRunning(task="x")), ("task 'x' is running", TaskRunning(task="x")),
            ("scheduler has run over 10 minutes", Not(SchedulerStarted(period=TimeDelta("10 minutes")))),
            ("scheduler started 10 minutes ago", SchedulerStarted(period=TimeDelta("10 minutes"))),
            ("scheduler has more than 3 cycles", SchedulerCycles() > 3), ("scheduler has less than 3 cycles", SchedulerCycles() < 3),
            ("scheduler has 3 cycles", SchedulerCycles() == 3), ("env 'test'", IsEnv("test")),
            ("param 'p' exists", ParamExists("p")), ("param 'p', 'q' exists", ParamExists("p", "q")), ("param 'p' is 'v'", ParamExists(p="v")),
            ("true", api.true), ("false", api.false), ("always true", api.true), ("always false", api.false)]
    for word, one, all_, any_ in (("", api.after_success, api.after_all_success, api.after_any_success), (" succeeded", api.after_success, api.after_all_success, api.after_any_success),
                                  (" failed", api.after_fail, api.after_all_fail, api.after_any_fail), (" finished", api.after_finish, api.after_all_finish, api.after_any_finish)):
        out += [(f"after task 'x'{word}", one("x")), (f"after tasks 'x', 'y'{word}", all_("x", "y")), (f"after any tasks 'x', 'y'{word}", any_("x", "y"))]
    return out


@harness("C21", PH, cases=list(range(8)), samples=1, bound="the phrases of the documentation, one or two values of each")
def every_phrase(ctx, part):
    """each phrase is the condition of the API with the same name, alone and in an expression"""
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    for i, (s, want) in enumerate(phrases()):
        if i % 8 != part:
            continue
        got = parse_condition(s, session=w.session)
        same = shape(got) == shape(want)
        if not same:
            rows = truths(ctx, [got, want])
            same = all(r[0] == r[1] for r in rows)
        ctx.check(same, "the phrase is the condition it names", f"{s!r}: {shape(got)} not {shape(want)}")
        both = parse_condition(f"~({s}) & ({s} | true)", session=w.session)
        parts = getattr(both, "subconditions", None)
        if parts is not None and len(parts) == 2:
            inner = getattr(parts[0], "condition", None)
            ok = inner is not None and shape(inner) == shape(want)
        else:
            ok = False
        if not ok:
            rows = truths(ctx, [both, want])
            ok = all(r[0] == (r[1] if isinstance(r[1], str) else (not r[1])) for r in rows)
        ctx.check(ok, "also in an expression", s)


@harness("C21", ["conditions/parameter.py:ParamExists._from_list", "conditions/parameter.py:ParamExists.get_state", "conditions/parameter.py:IsEnv.get_state",
                 "conditions/scheduler.py:SchedulerCycles.get_measurement"], samples=40)
def session_phrases(ctx):
    """phrases on the session: its parameters, environment and cycles"""
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    t = w.task("t")
    has, val, env = ctx.choice("has", [(), ("pq",), ("pq", "r"), ("r",), ("p", "q")]), ctx.choice("value", ["v", "w"]), ctx.choice("env", ["test", "prod", None])
    for k in has:
        w.session.parameters[k] = val
    if env:
        w.session.parameters["env"] = env
    n = ctx.int("cycles", 0, 10**6)
    w.scheduler.n_cycles = n
    obs = lambda s: parse_condition(s, session=w.session).observe(task=t, session=w.session)
    ctx.check(obs("param 'pq' exists") == ("pq" in has), "param exists")
    ctx.check(obs("param 'pq', 'r' exists") == ("pq" in has and "r" in has), "params exist")
    ctx.check(obs("param 'r' is 'v'") == ("r" in has and val == "v"), "param is")
    ctx.check(obs("env 'test'") == (env == "test"), "env")
    ctx.check(iff(obs("scheduler has more than 12 cycles"), n > 12), "more cycles")
    ctx.check(iff(obs("scheduler has less than 12 cycles"), n < 12), "less cycles")
    ctx.check(iff(obs("scheduler has 12 cycles"), n == 12), "cycles")
    ctx.check(iff(obs("scheduler has 12 cycles | env 'test' & ~param 'r' exists"), or_(n == 12, env == "test" and "r" not in has)), "together")
    ctx.check(parse_condition(True).observe() is True and parse_condition(False).observe() is False, "booleans")
    c = Cond(True)
    ctx.check(parse_condition(c, session=w.session) is c, "a condition is itself")


@harness("C21", ["conditions/func.py:FuncCond._set_parsing", "conditions/func.py:FuncCond._recreate", "conditions/func.py:FuncCond.observe",
                 "parse/_condition/condition_item.py:parse_condition_item"], cases=["text", "pattern", "several"], samples=20)
def custom_phrases(ctx, how):
    """phrases of custom conditions mean their function, with the values in the text; several uses do not disturb one another"""
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    t = w.task("t")
    truth_of = {k: ctx.bool(k) for k in ("home", "work", "none")}
    if how == "text":
        @FuncCond(syntax="is foo", session=w.session)
        def foo():
            return truth_of["none"]
        c = parse_condition("is foo", session=w.session)
        d = parse_condition("~is foo", session=w.session)
        ctx.check(iff(c.observe(task=t, session=w.session), truth_of["none"]), "the phrase is the function")
        ctx.check(iff(d.observe(task=t, session=w.session), not_(truth_of["none"])), "its negation")
        try:
            parse_condition("is foo", session=World(ctx, clock=Clock(ctx, fixed=FIXED)).session)
            known = True
        except Exception:
            known = False
        ctx.check(not known, "a phrase belongs to its session")
    else:
        syn = re.compile(r"is at (?P<place>.+)") if how == "pattern" else ctx.choice("as", [list, tuple, set])(["is out", re.compile(r"is at (?P<place>.+)")])

        @FuncCond(syntax=syn, session=w.session)
        def at(place="none"):
            return truth_of[place]
        c1, c2 = parse_condition("is at home", session=w.session), parse_condition("is at work", session=w.session)
        e = parse_condition("is at home & ~is at work", session=w.session)
        h, k = truth_of["home"], truth_of["work"]
        ctx.check(iff(c2.observe(task=t, session=w.session), k), "the value is that of the text")
        ctx.check(iff(c1.observe(task=t, session=w.session), h), "the value is that of the text")
        ctx.check(iff(e.observe(task=t, session=w.session), and_(h, not_(k))), "also in an expression")
        if how == "several":
            ctx.check(iff(parse_condition("is out", session=w.session).observe(task=t, session=w.session), truth_of["none"]), "every syntax is known")


@harness("C21", FN, cases=["all", "any", "not", "not all"], samples=1, bound="the listed texts over one phrase that stands for a combined condition")
def standing_phrases(ctx, kind):
    """a phrase may stand for a combined condition: each text over it means its expression, and reading texts changes neither the phrase nor what
    was read before"""
    w, t, env = setting(ctx, ATOMS)
    a, b = env["a"], env["is b"]
    cond = {"all": All(Cond(a), Cond(b)), "any": Any(Cond(a), Cond(b)), "not": Not(Cond(a)), "not all": Not(All(Cond(a), Cond(b)))}[kind]
    env["p"] = {"all": and_(a, b), "any": or_(a, b), "not": not_(a), "not all": not_(and_(a, b))}[kind]
    w.session._cond_parsers["p"] = cond
    read_ = []
    for text in ["p", "p & c", "c & p", "p | c", "c | p", "~p", "~p & c", "p & p", "p | p", "p & c & is b", "p | c | is b", "(p | c) & a", "(p & c) | a", "~(p & c)", "p"]:
        tree = read(re.findall(r"is b|[a-z]|[&|~()]", text))
        read_.append((text, parse_condition(text, session=w.session), tree))
        ctx.check(iff(read_[-1][1].observe(task=t, session=w.session), truth(tree, env)), "the text means the expression", text)
    for text, c, tree in read_:
        ctx.check(iff(c.observe(task=t, session=w.session), truth(tree, env)), "and still does after other texts are read", text)


# ---------------------------------------------------------------- time texts

class Per(TimePeriod):
    def __init__(self, v):
        object.__setattr__(self, "v", v)

    def __contains__(self, dt):
        return self.v

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


@harness("C21", FN[:6] + ["parse/_time/time_item.py:parse_time_item", "parse/_time/string.py:_parse_all", "parse/_time/string.py:_parse_any"],
         cases=[(f, s) for f in (False, True) for s in range(4)], samples=1, bound="all expressions of up to 3 phrases")
def time_texts(ctx, case):
    """a time text is the union and intersection it spells"""
    full, sp = case
    w = World(ctx, clock=Clock(ctx, fixed=FIXED))
    env = {k: ctx.bool(k) for k in ATOMS}
    before = dict(w.session._time_parsers)
    try:
        for k, v in env.items():
            w.session._time_parsers[k] = Per(v)
        for tree in trees(1) + trees(2) + trees(3):
            if "~" in str(tree):
                continue
            s = spell(tokens_of(tree, full), SPACES[sp])
            p = parse_time(s, session=w.session)
            ctx.check(iff(bool(FIXED in p), truth(tree, env)), "the text means the expression", repr(s))
        for mk, v in ((lambda: Per(env["a"]) & Per(env["is b"]), and_(env["a"], env["is b"])), (lambda: Per(env["a"]) | Per(env["is b"]), or_(env["a"], env["is b"]))):
            w.session._time_parsers["p"] = mk()
            for s, want in [("p", v), ("p & c", and_(v, env["c"])), ("p | c", or_(v, env["c"])), ("c & p", and_(v, env["c"])), ("c | p", or_(v, env["c"])), ("p", v)]:
                ctx.check(iff(bool(FIXED in parse_time(s, session=w.session)), want), "also over a combined period, which is left as it was", s)
    finally:
        w.session._time_parsers.clear()
        w.session._time_parsers.update(before)
