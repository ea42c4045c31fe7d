"""C43-C46: what an actor shows of itself: keyed states, its log, its networks' build, and questions about its states."""
from __future__ import annotations

import ast
import itertools
from fractions import Fraction

from ..api import Ctx, prop
from ..model import AnalysisBroken, Class
from ..value import ABSENT, Obj, Raised, Scope, T, explore, term
from .data_rules import sym, user_class


def probe(it, prog, code, **names):
    """Run a user's statements (the last one may be an expression: its value is returned) on the given objects."""
    sc = Scope(module=prog.cls("UpstageBase").module)
    sc.update(names)
    body = ast.parse(code).body
    for s in body[:-1]:
        it.stmt(s, sc)
    if isinstance(body[-1], ast.Expr):
        return it.ev(body[-1].value, sc)
    it.stmt(body[-1], sc)
    return None


def distinct(key, it):
    """Different unknowns are different; nothing unknown is None."""
    if key[0] in ("eq", "is") and all(x[0] in ("sym", "const", "obj") for x in key[1:]):
        return key[1] == key[2]
    if key[0] == "isnone" or key[0] == "in" and key[1][0] == "const" and key[2][0] == "fstr":
        return False
    return None


def outcome(r):
    if r.outcome == "return":
        return r.value
    return ("raises", r.value.cls.name if isinstance(r.value.cls, Class) else str(r.value.cls).split(".")[-1])


def flat(it, v):
    """A comparable form of what a probe gave."""
    if isinstance(v, dict):
        return ("dict", *sorted(((k, flat(it, x)) for k, x in v.items()), key=repr))
    if isinstance(v, (list, tuple)):
        return ("seq", *(flat(it, x) for x in v))
    if isinstance(v, (T, Obj)) or v is None or isinstance(v, (str, int, bool, Fraction)):
        return v
    try:
        return ("seq", *(flat(it, x) for x in it.items(v)))
    except Exception:
        return v


def same(it, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(it, x, y) for x, y in zip(a, b))
    if isinstance(a, Obj) or isinstance(b, Obj):
        return a is b
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------- C43
def keyed(ctx, prog, kind, rule, cases):
    """cases: (what, code, expected value, contents afterwards or None when unchanged)"""
    K = prog.cls(f"{kind}State")
    Ship = user_class(prog, "Ship", prog.cls("Actor"))
    Info = user_class(prog, "Info", None, ("one", "two"))
    Deep = user_class(prog, "Deep", None, ("one",))
    f = prog.method(K, "__get__")
    for what, code, want, after, types in cases:
        box = {}

        def th(it):
            st = it.construct(K, [], {"valid_types": Info if kind == "Dataclass" else it.glob(prog.cls("UpstageBase").module, "float") if types else None})
            st.attrs["name"] = "s"
            # the field types are numbers
            v = {"p": sym("p"), "q": sym("q")} if kind == "Dictionary" else Obj(Info, {"one": sym("p"), "two": sym("q")}, "info")
            a = Obj(Ship, {"s": v, "_state_histories": {}, "_mimic_states": {}, "_state_listener": None}, "ship")
            box.update(v=v, a=a)
            other = Obj(Info, {"one": sym("p"), "two": sym("q")}, "another info")
            third = Obj(Info, {"one": sym("p"), "two": sym("x")}, "a third info")
            read = lambda it2, args, kw: it2.call(it2.getattr(st, "__get__"), [a], {})  # noqa: E731
            write = lambda it2, args, kw: it2.call(it2.getattr(st, "__set__"), [a, *args], {})  # noqa: E731
            rec = lambda it2, args, kw: box.setdefault("rec", []).append(args)  # noqa: E731
            box["rec"] = []

            def put(it2, args, kw):
                del a.attrs["s"]
                it2.call(it2.getattr(st, "__set__"), [a, *args], {})
                box["v"] = a.attrs.get("s")
            return flat(it, probe(it, prog, code, read=read, write=write, put=put, v=v, new=sym("new"), equal=dict(v) if isinstance(v, dict) else other,
                                  less={"p": sym("p")} if isinstance(v, dict) else third, p=sym("p"), q=sym("q")))
        rs = explore(prog, th, oracle=distinct, intercept={
            ("attr", "env"): lambda it, o: Obj("env", {"now": sym("now")}), ("attr", "stage"): lambda it, o: Obj("stage", {}),
            "dataclasses.fields": lambda it, a, k: [Obj("Field", {"name": n, "type": it.glob(prog.cls("UpstageBase").module, "float")}) for n in ("one", "two")],
            "dataclasses.is_dataclass": lambda it, a, k: isinstance(a[0], Obj) and (a[0].cls.name in ("Info", "Deep") or isinstance(a[0].cls, Class) and
                                                                                     a[0].cls.find("__dataclass_fields__") is not None),
            "isinstance": numbers})
        ctx.paths_n += len(rs)
        why = None
        for r in rs:
            ctx.functions |= r.it.used
            got = outcome(r)
            w = want(box) if callable(want) else want
            w = flat(r.it, w) if not (isinstance(w, tuple) and w[:1] == ("raises",)) else w
            if r.conds:
                why = f"depends on {r!r}"
            elif not same(r.it, got, w):
                why = f"gives {got!r}, not {w!r}"
            else:
                v = box["v"]
                cont = dict(v) if isinstance(v, dict) else {k: x for k, x in v.attrs.items() if not k.startswith("//")}
                need = after if after is not None else ({"p": sym("p"), "q": sym("q")} if kind == "Dictionary" else {"one": sym("p"), "two": sym("q")})
                if list(cont) != list(need) or any(not same(r.it, cont[k], need[k]) for k in need) or box["a"].attrs["s"] is not v:
                    why = f"leaves {cont!r} in the state, not {need!r}"
            if why:
                break
        ctx.check(not why, rule, f"{kind}State: {what}", f"`{code}` {why}" if why else "", f.loc)


def numbers(it, v, c):
    """A text is no number, an unknown is one."""
    n = getattr(c, "name", None)
    if isinstance(v, T) and n in ("float", "int"):
        return True
    return None


@prop("C43")
def c43(ctx: Ctx):
    prog = ctx.prog
    ctx.rule("C43.read", "reading through the state answers from the object it holds", 15)
    ctx.rule("C43.live", "what was read earlier shows later writes", 3)
    ctx.rule("C43.write", "a fitting value is stored under its key or field, nothing else changes", 4)
    ctx.rule("C43.refuse", "a missing key or field, a value of a wrong type and a second object are refused and change nothing", 8)
    P, Q, N = sym("p"), sym("q"), sym("new")
    A = lambda n: ("raises", n)  # noqa: E731
    keyed(ctx, prog, "Dictionary", "C43.read", [
        ("item", "read()['p']", P, None, 0), ("last item", "read()['q']", Q, None, 0),
        ("in", "'q' in read()", True, None, 0), ("not in", "'zz' in read()", False, None, 0), ("value is no key", "'p' not in read()", False, None, 0),
        ("len", "len(read())", 2, None, 0), ("iterate", "[k for k in read()]", ["p", "q"], None, 0), ("list", "list(read())", ["p", "q"], None, 0),
        ("keys", "list(read().keys())", ["p", "q"], None, 0), ("values", "list(read().values())", [P, Q], None, 0),
        ("items", "[(k, x) for k, x in read().items()]", [("p", P), ("q", Q)], None, 0),
        ("equal", "read() == equal", True, None, 0), ("not equal", "read() == less", False, None, 0), ("differ", "read() != less", True, None, 0), ("not differ", "read() != equal", False, None, 0),
        ("no dictionary", "read() == 3", False, None, 0), ("itself", "read() == read()", True, None, 0), ("raw", "read().raw_object() is v", True, None, 0),
        ("default of a key that is there", "read().setdefault('p', new)", P, None, 0),
        ("order as written", "v['a'] = new\nlist(read()), list(read().keys()), list(read().values())", (["p", "q", "a"], ["p", "q", "a"], [P, Q, N]), {"p": P, "q": Q, "a": N}, 0),
        *((f"a key holding {x}", f"v['p'] = {x}\n('p' in read(), len(read()), read()['p'], list(read().values())[0], list(read())[0], read().setdefault('p', new))", (True, 2, y, y, "p", y), {"p": y, "q": Q}, 0)
          for x, y in (("None", None), ("0", 0), ("''", ""), ("False", False))),
        ("nothing held", "v.clear()\n(len(read()), list(read()), list(read().items()), 'p' in read(), read() == {}, read() == equal)", (0, [], [], False, True, False), {}, 0)])
    keyed(ctx, prog, "Dictionary", "C43.live", [
        ("earlier reads", "d = read()\nread()['p'] = new\n(d['p'], len(d))", (N, 2), {"p": N, "q": Q}, 0),
        ("the object itself", "d = read()\nd.raw_object()['p'] = new\nd['p']", N, {"p": N, "q": Q}, 0),
        ("equality after a write", "d = read()\nd['p'] = new\nd == equal", False, {"p": N, "q": Q}, 0)])
    keyed(ctx, prog, "Dictionary", "C43.write", [
        ("item", "read()['q'] = new", None, {"p": P, "q": N}, 0), ("new item", "read()['r'] = new", None, {"p": P, "q": Q, "r": N}, 0),
        ("typed item", "read()['q'] = new", None, {"p": P, "q": N}, 1), ("nothing", "read()['q'] = None", None, {"p": P, "q": None}, 0),
        ("the first object", "put({'b': new, 'a': None, 'c': 0})\nlist(read())", ["b", "a", "c"], {"b": N, "a": None, "c": 0}, 0), ("an empty first object", "put({})\nlen(read())", 0, {}, 0),
        ("default of a new key", "read().setdefault('r', new)", N, {"p": P, "q": Q, "r": N}, 0), ("text key", "read()[''] = new", None, {"p": P, "q": Q, "": N}, 0)])
    keyed(ctx, prog, "Dictionary", "C43.refuse", [
        ("missing item", "read()['zz']", A("KeyError"), None, 0), ("wrong type", "read()['p'] = 'text'", A("TypeError"), None, 1), ("wrong type for a new key", "read()['r'] = 'text'", A("TypeError"), None, 1),
        ("wrong default", "read().setdefault('r', 'text')", A("TypeError"), None, 1), ("a second object", "write({'p': new})", A("SimulationError"), None, 0),
        ("an equal second object", "write(equal)", A("SimulationError"), None, 0), ("a second object after an empty one", "v.clear()\nwrite({'p': new})", A("SimulationError"), {}, 0)])
    keyed(ctx, prog, "Dataclass", "C43.read", [
        ("field", "read().one", P, None, 0), ("last field", "read().two", Q, None, 0), ("equal", "read() == equal", True, None, 0), ("not equal", "read() == less", False, None, 0),
        ("differ", "read() != less", True, None, 0), ("not differ", "read() != equal", False, None, 0), ("no dataclass", "read() == 3", False, None, 0), ("itself", "read() == read()", True, None, 0),
        ("raw", "read().raw_object() is v", True, None, 0)])
    keyed(ctx, prog, "Dataclass", "C43.live", [
        ("earlier reads", "d = read()\nread().one = new\n(d.one, d.two)", (N, Q), {"one": N, "two": Q}, 0),
        ("the object itself", "d = read()\nd.raw_object().two = new\nd.two", N, {"one": P, "two": N}, 0)])
    keyed(ctx, prog, "Dataclass", "C43.write", [
        ("field", "read().two = new", None, {"one": P, "two": N}, 0), ("two fields", "d = read()\nd.two = new\nd.one = q", None, {"one": Q, "two": N}, 0)])
    keyed(ctx, prog, "Dataclass", "C43.refuse", [
        ("missing field", "read().zz", A("AttributeError"), None, 0), ("new field", "read().zz = new", A("AttributeError"), None, 0), ("wrong type", "read().one = 'text'", A("TypeError"), None, 0),
        ("nothing", "read().two = None", A("TypeError"), None, 0), ("a second object", "write(less)", A("SimulationError"), None, 0), ("an equal second object", "write(equal)", A("SimulationError"), None, 0)])


# ---------------------------------------------------------------- C44
def text_of(t):
    """The pieces of a text, in order."""
    if isinstance(t, str):
        return [t]
    t = t.t if isinstance(t, T) else t
    if t[0] == "fstr":
        return [y for x in t[1:] for y in text_of(x)]
    if t[0] == "text":
        return text_of(t[1])
    if t[0] == "bin" and t[1] == "+":
        return text_of(t[2]) + text_of(t[3])
    if t[0] == "const":
        return [str(t[1])] if t[1] != "" else []
    return [t]


@prop("C44")
def c44(ctx: Ctx):
    prog = ctx.prog
    K = prog.cls("Actor")
    Ship = user_class(prog, "Ship", K)
    ctx.rule("C44.log", "each message is added once, at the end, with the simulation time, and only when logging is on", 20)
    ctx.rule("C44.read", "the log is given out as it is", 4)
    ctx.rule("C44.caller", "a logged call names the method and its caller", 2)
    ctx.rule("C44.now", "the written time is the simulation time, by day and time of day for known units", 12)
    f = prog.method(K, "log")
    own, stage_set = (None, True, False), (None, True, False)
    for on, mine, st in itertools.product((True, False), own, stage_set):
        for msgs, old, still in ((("m",), 1, False), (("",), 1, False), (("m", "m"), 1, False), (("a", "", "b"), 1, False), (("m", "m", "a", "m"), 1, True), (("m", "before"), 3000, False)):
            c = f"logging {'on' if on else 'off'}, times {mine}, stage {st}{', at one time' if still else ''}{', after many' if old > 1 else ''}: {' then '.join(x or 'an empty text' for x in msgs)}"
            box = {}

            def th(it):
                env = Obj("env", {"now": sym("now0")})
                stage = {} if st is None else {"debug_log_time": st}
                it.intercept[("attr", "env")] = lambda it, o: env
                it.intercept[("attr", "stage")] = lambda it, o: stage
                it.intercept[("attr", "pretty_now")] = lambda it, o: T(("written", term(env.attrs["now"])), "str")
                a = Obj(Ship, {"name": "ship", "_debug_logging": on, "_debug_log_time": mine, "_debug_log": [(sym("t"), "before")] * old}, "ship")
                box["a"] = a
                out = []
                for i, m in enumerate(msgs):
                    env.attrs["now"] = sym(f"now{0 if still else i}")
                    out.append(it.call(it.getattr(a, "log"), [m], {}))
                return out, it.call(it.getattr(a, "log"), [], {}), it.call(it.getattr(a, "get_log"), [], {})
            rs = explore(prog, th, oracle=distinct, intercept={})
            ctx.paths_n += len(rs)
            why = None
            timed = mine if mine is not None else st is not False
            for r in rs:
                ctx.functions |= r.it.used
                if r.conds or r.outcome != "return":
                    why = f"gives {r!r}"
                    break
                log = list(box["a"].attrs["_debug_log"])
                want = [(sym("t"), ["before"])] * old + ([(sym(f"now{0 if still else i}"), m) for i, m in enumerate(msgs)] if on else [])
                if len(log) != len(want) or any(x[0] != y[0] for x, y in zip(log, want)):
                    why = f"the log of {len(log)} messages ends in {log[-5:]!r}"
                for i, (x, y) in enumerate(zip(log[old:], want[old:])):
                    ps = text_of(x[1])
                    w = [("written", ("sym", f"now{0 if still else i}"))] if timed else []
                    gotw = [q for q in ps if isinstance(q, tuple)]
                    txt = "".join(q for q in ps if isinstance(q, str))
                    if gotw != w or (txt.strip() if timed else txt) != y[1] or (w and ps[0] != w[0]):
                        why = why or f"the message {y[1]!r} is logged as {x[1]!r}"
                ctx.check(not why, "C44.log", c, why or "", f.loc)
                for g in r.value[1:]:
                    if not isinstance(g, list) or [list(x) for x in g] != [list(x) for x in box["a"].attrs["_debug_log"]]:
                        why = why or f"{g!r} is given out"
                if on and msgs == ("a", "", "b"):
                    ctx.check(not why, "C44.read", c, why or "", f.loc)
            if why and "gives" in why:
                ctx.bad("C44.log", c, why, f.loc)
    g = prog.method(K, "_log_caller")
    for given in (True, False):
        box = {}

        def th(it):
            a = Obj(Ship, {"name": "ship"}, "ship")
            box["m"] = []
            it.call(it.getattr(a, "_log_caller"), [T(("sym", "method"), "str")], {"caller_name": T(("sym", "caller"), "str") if given else None})
        rs = explore(prog, th, oracle=distinct, intercept={
            f.qual: lambda it, a, k: box["m"].append(a[1] if len(a) > 1 else k.get("msg")),
            prog.func("get_caller_info").qual: lambda it, a, k: T(("sym", "caller"), "str")})
        ctx.paths_n += len(rs)
        for r in rs:
            ctx.functions |= r.it.used
            ps = text_of(box["m"][0]) if len(box["m"]) == 1 and r.outcome == "return" else []
            ctx.check([x for x in ps if isinstance(x, tuple)] == [("sym", "method"), ("sym", "caller")], "C44.caller", f"caller {'given' if given else 'looked up'}",
                      f"logs {box['m']!r}", g.loc)
    pretty(ctx, prog, Ship)


HOURS = {"s": Fraction(1, 3600), "min": Fraction(1, 60), "hr": Fraction(1)}
SPELL = {"s": "s", "seconds": "s", "second": "s", "min": "min", "minute": "min", "minutes": "min", "hr": "hr", "hour": "hr", "hours": "hr", "HR": "hr", "Hours": "hr", "MIN": "min"}


def pretty(ctx, prog, Ship):
    f = prog.method(prog.cls("UpstageBase"), "pretty_now")
    times = [Fraction(0), Fraction(1, 4), Fraction(25), Fraction(95, 4), Fraction(24), Fraction(1000), Fraction(48), Fraction(3, 2)]
    for unit in [None, "absent", *SPELL, "ticks", "Eons", "day"]:
        for per_day in (None, 7):
            for h in times:
                std = SPELL.get(unit, "hr" if unit in (None, "absent") else None)
                now = h / HOURS[std] if std else h
                c = f"unit {unit}, {per_day or 'no'} units a day, now {float(now):g}"
                box = {}

                def th(it):
                    stage = {} if unit == "absent" else {"time_unit": unit}
                    if per_day:
                        stage["daily_time_count"] = per_day
                    it.intercept[("attr", "env")] = lambda it, o: Obj("env", {"now": now})
                    it.intercept[("attr", "stage")] = lambda it, o: stage
                    return it.getattr(Obj(Ship, {"name": "ship"}, "ship"), "pretty_now")
                rs = explore(prog, th, intercept={"time.gmtime": lambda it, a, k: T(("gmtime", a[0])), "time.strftime": lambda it, a, k: T(("clock", a[1].t[1], a[0]))
                                                  if len(a) > 1 and isinstance(a[1], T) and a[1].t[0] == "gmtime" else None})
                ctx.paths_n += len(rs)
                why = None
                for r in rs:
                    ctx.functions |= r.it.used
                    if r.conds or r.outcome != "return":
                        why = f"gives {r!r}"
                        break
                    ps = text_of(r.value)
                    nums = numbers_in(r.value)
                    clock = [x for x in ps if isinstance(x, tuple) and x[0] == "clock"]
                    if std:
                        day = h // 24
                        sec = (h - 24 * day) * 3600
                        if len(clock) != 1 or clock[0][2] != "%H:%M:%S" or abs(clock[0][1] - sec) > Fraction(1, 1000):
                            why = f"the time of day is {clock!r} and not second {sec}"
                        elif nums != [day]:
                            why = f"day {nums} is written, not {day}"
                    else:
                        day = now // per_day if per_day else None
                        want = [day, now - per_day * day] if per_day else [now]
                        if clock or nums != want:
                            why = f"writes {nums}, not {want}"
                        elif str(unit) not in "".join(str(x) for x in ps):
                            why = "the unit is not named"
                    if why:
                        break
                ctx.check(not why, "C44.now", c, why or "", f.loc)


def numbers_in(v):
    """The numbers written in a text."""
    out = []

    def go(t):
        if isinstance(t, (int, Fraction)) and not isinstance(t, bool):
            out.append(Fraction(t))
        elif isinstance(t, tuple) and t and t[0] == "const":
            if not isinstance(t[1], (str, bool)) and t[1] is not None:
                out.append(Fraction(t[1]))
        elif isinstance(t, tuple) and t and t[0] in ("fstr", "text"):
            for x in t[1:]:
                go(x)
    go(v.t if isinstance(v, T) else v)
    return out


# ---------------------------------------------------------------- C45
@prop("C45")
def c45(ctx: Ctx):
    prog = ctx.prog
    F, N, A = prog.cls("TaskNetworkFactory"), prog.cls("TaskNetwork"), prog.cls("Actor")
    Ship = user_class(prog, "Ship", A)
    ctx.rule("C45.build", "the helpers describe the tasks and links their name says", 8)
    ctx.rule("C45.make", "every network made is a new one, idle, with the tasks and links of its factory and the name asked for", 3)
    ctx.rule("C45.add", "a network is added under its own name with an empty queue, or refused when the name is taken", 4)
    ctx.rule("C45.name", "a suggested name is the factory's when free, else a new one made from it", 6)
    ctx.rule("C45.start", "starting runs the named network on the actor, from the task given", 2)
    mk = {n: user_class(prog, n, prog.cls("Task")) for n in ("Cook", "Eat", "Nap", "Wash")}
    end = prog.cls("TerminalTask")

    def description(it, o):
        ls = o.attrs["task_links"]
        return o.attrs["name"], dict(o.attrs["task_classes"]), {k: (it.getattr(x, "default"), list(it.items(it.getattr(x, "allowed")))) for k, x in ls.items()}

    def run(how, args, judge, rule, c, loc, **ic):
        rs = explore(prog, how, oracle=distinct, intercept=ic)
        ctx.paths_n += len(rs)
        why = None
        for r in rs:
            ctx.functions |= r.it.used
            why = f"gives {r!r}" if r.conds else judge(r)
            if why:
                break
        ctx.check(not why, rule, c, why or "", loc)

    shapes = [("from_single_looping", 1), ("from_single_terminating", 1)] + [(h, n) for h in ("from_ordered_terminating", "from_ordered_loop") for n in (1, 2, 3, 4)]
    for helper, n in shapes:
        f = prog.method(F, helper)
        names = list(mk)[:n]

        def th(it):
            o = it.call(it.getattr(F, helper), ["the net", mk[names[0]] if "single" in helper else [mk[x] for x in names]], {})
            return description(it, o)

        def judge(r):
            if r.outcome != "return":
                return f"gives {r!r}"
            nm, tasks, links = r.value
            if nm != "the net":
                return f"the network's name is {nm!r}"
            more = [k for k in tasks if k not in names]
            if any(tasks.get(x) is not mk[x] for x in names):
                return f"the tasks are {tasks!r}"
            if "loop" in helper:
                nxt = dict(zip(names, names[1:] + names[:1]))
                if more:
                    return f"there are further tasks {more}"
            else:
                if len(more) != 1 or tasks[more[0]] is not end:
                    return f"the further tasks are {more}, not one terminal task"
                nxt = dict(zip(names, names[1:] + more))
            for x in names:
                if links.get(x) != (nxt[x], [nxt[x]]):
                    return f"after {x} comes {links.get(x)}, not {nxt[x]} only"
            if set(links) - set(names) - set(more) or any(links.get(x, (None, []))[1] for x in more):
                return f"the links are {links!r}"
            return None
        run(th, None, judge, "C45.build", f"{helper} of {n}", f.loc)

    f = prog.method(F, "make_network")
    for other in (None, "other", ""):
        def th(it):
            tasks, links = {"Cook": mk["Cook"]}, {"Cook": Obj(prog.cls("TaskLinks"), {"default": None, "allowed": []}, "links")}
            o = it.construct(F, ["the net", tasks, links], {})
            ns = [it.call(it.getattr(o, "make_network"), [], {"other_name": other} if other is not None else {}) for _ in range(2)]
            return o, tasks, links, ns

        def judge(r):
            if r.outcome != "return":
                return f"gives {r!r}"
            o, tasks, links, (a, b) = r.value
            if a is b or not all(isinstance(x, Obj) and x.cls is N for x in (a, b)):
                return "the same network is given twice"
            for x in (a, b):
                if x.attrs.get("name") != (other if other is not None else "the net"):
                    return f"the network's name is {x.attrs.get('name')!r}"
                if any(dict(x.attrs[k]) != v or any(x.attrs[k][i] is not v[i] for i in v) for k, v in (("task_classes", tasks), ("task_links", links))):
                    return "its tasks or links are others"
                if any(x.attrs.get(k) is not None for k in ("_current_task_name", "_current_task_inst", "_current_task_proc")):
                    return "it has a current task"
            shared = [k for k, v in a.attrs.items() if isinstance(v, (list, dict, set, Obj)) and v is b.attrs.get(k) and k not in ("task_classes", "task_links")]
            if shared:
                return f"two networks share {shared[0]}"
            if o.attrs["name"] != "the net":
                return "the factory is renamed"
            return None
        run(th, None, judge, "C45.make", f"other name {other!r}", f.loc)

    f = prog.method(A, "add_task_network")
    for there in ((), ("x",), ("net",), ("x", "net")):
        box = {}

        def th(it):
            a = Obj(Ship, {"name": "ship", "_task_networks": {k: Obj("network", {"name": k}) for k in there}, "_task_queue": {k: ["Cook"] for k in there}}, "ship")
            n = it.construct(N, ["net", {}, {}], {})
            box.update(a=a, n=n, old=dict(a.attrs["_task_networks"]))
            it.call(it.getattr(a, "add_task_network"), [n], {})
            it.getattr(a, "_task_queue")["net"].append("probe")

        def judge(r):
            nets, qs = box["a"].attrs["_task_networks"], box["a"].attrs["_task_queue"]
            if "net" in there:
                if outcome(r) != ("raises", "SimulationError"):
                    return f"a second network of the name is taken: {r!r}"
                if nets != box["old"] or any(q != ["Cook"] for q in qs.values()):
                    return "refusing changes the networks or queues"
                return None
            if r.outcome != "return":
                return f"gives {r!r}"
            if set(nets) != {*there, "net"} or nets["net"] is not box["n"] or any(nets[k] is not box["old"][k] for k in there):
                return f"the networks are {nets!r}"
            if qs != {**{k: ["Cook"] for k in there}, "net": ["probe"]}:
                return f"the queues are {qs!r}"
            return None
        run(th, None, judge, "C45.add", f"next to {', '.join(there) or 'none'}", f.loc)

    f = prog.method(A, "suggest_network_name")
    for there in ((), ("net",), ("x",), ("net_1",), ("net", "net_1"), ("net", "net_2"), ("net", "net_1", "net_2", "net_3"), ("net", "net_0", "net_1")):
        def th(it):
            a = Obj(Ship, {"name": "ship", "_task_networks": {k: Obj("network", {"name": k}) for k in there}}, "ship")
            o = it.construct(F, ["net", {}, {}], {})
            return it.call(it.getattr(a, "suggest_network_name"), [o], {}), o, a

        def judge(r):
            if r.outcome != "return":
                return f"gives {r!r}"
            v, o, a = r.value
            if v in there or not isinstance(v, str) or not v.startswith("net") or ("net" not in there and v != "net"):
                return f"suggests {v!r}"
            if o.attrs["name"] != "net" or set(a.attrs["_task_networks"]) != set(there):
                return "asking changes something"
            return None
        run(th, None, judge, "C45.name", f"next to {', '.join(there) or 'none'}", f.loc)

    f = prog.method(A, "start_network_loop")
    for first in (None, "Cook"):
        box = {}

        def th(it):
            box["calls"] = []
            loop = prog.method(N, "loop")
            it.intercept[loop.qual] = lambda it, a, k: box["calls"].append((a[0], {**dict(zip(("actor", "init_task_name"), a[1:])), **k}))
            a = Obj(Ship, {"name": "ship", "_task_networks": {k: it.construct(N, [k, {}, {}], {}) for k in ("x", "net", "y")}}, "ship")
            box["a"] = a
            return it.call(it.getattr(a, "start_network_loop"), ["net"] + ([first] if first else []), {})

        def judge(r):
            if r.outcome != "return":
                return f"gives {r!r}"
            a = box["a"]
            want = {"actor": a, "init_task_name": first}
            cs = box["calls"]
            if len(cs) != 1 or cs[0][0] is not a.attrs["_task_networks"]["net"] or {"init_task_name": None, **cs[0][1]} != want:
                return f"runs {cs!r}"
            return None
        run(th, None, judge, "C45.start", f"from {first or 'the queue'}", f.loc)


# ---------------------------------------------------------------- C46
@prop("C46")
def c46(ctx: Ctx):
    prog = ctx.prog
    A = prog.cls("Actor")
    Ship = user_class(prog, "Ship", A)
    ctx.rule("C46.states", "the states are named in their order, with the values they have now", 3)
    ctx.rule("C46.match", "the first declared state of the kind having all the attributes asked for is found, or none", 12)
    ctx.rule("C46.detect", "the one detectability state is found, none when there is none, and two are refused", 4)
    ctx.rule("C46.short", "the shortcuts activate exactly what they are given", 2)
    ctx.rule("C46.way", "the remaining waypoints are the state's own", 2)
    ctx.rule("C46.nucleus", "the nucleus is the one listening, and asking for none is an error", 2)
    ctx.rule("C46.marker", "a task's marker and its time are those last set, none once cleared", 3)
    ctx.rule("C46.value", "a finished get gives the item it got, an unfinished one or one of an amount is an error", 5)

    def run(how, judge, rule, c, loc, oracle=distinct, **ic):
        rs = explore(prog, how, oracle=oracle, intercept=ic)
        ctx.paths_n += len(rs)
        why = None
        for r in rs:
            ctx.functions |= r.it.used
            why = f"gives {r!r}" if r.conds else judge(r)
            if why:
                break
        ctx.check(not why, rule, c, why or "", loc)

    def declared(it, *specs):
        """(name, class, attributes) of each state"""
        out = {}
        for n, cls, at in specs:
            out[n] = Obj(prog.cls(cls), {"name": n, **at}, f"state {n}")
        return out

    # names and values
    for names in ((), ("b",), ("b", "a", "c")):
        def th(it):
            ds = declared(it, *((n, "State", {}) for n in names))
            a = Obj(Ship, {"name": "ship", "_state_defs": ds, **{n: sym(f"stored for {n}") for n in names}}, "ship")
            live = {n: sym(f"value of {n}") for n in names}
            for n in names:
                it.intercept["attr", n] = lambda it, o, n=n: live[n]
            x = it.getattr(a, "states"), it.getattr(a, "state_values")
            if names:
                live[names[0]] = sym("later")
            return (*x, it.getattr(a, "state_values"))

        def judge(r):
            if r.outcome != "return":
                return f"gives {r!r}"
            st, v1, v2 = r.value
            if list(r.it.items(st)) != list(names):
                return f"names {st!r}"
            for v, first in ((v1, None), (v2, sym("later"))):
                want = {n: sym(f"value of {n}") for n in names}
                if first is not None and names:
                    want[names[0]] = first
                if not isinstance(v, dict) or list(v) != list(names) or v != want:
                    return f"values {v!r}, not {want!r}"
            return None
        run(th, judge, "C46.states", f"{len(names)} states", prog.method(A, "states").loc)

    # matching
    f = prog.method(A, "_get_matching_state")
    shelf = [("plain", "State", {"modes": "radio"}), ("odd", "ResourceState", {}), ("one", "CommunicationStore", {"modes": "radio", "kind": 1}), ("two", "CommunicationStore", {"modes": "cell", "kind": 1}),
             ("three", "CommunicationStore", {"modes": "radio", "kind": 2})]
    cases = [("CommunicationStore", None, "one"), ("ResourceState", None, "odd"), ("State", None, "plain"), ("LinearChangingState", None, None),
             ("CommunicationStore", {"modes": "radio"}, "one"), ("CommunicationStore", {"modes": "cell"}, "two"), ("CommunicationStore", {"modes": "radio", "kind": 2}, "three"),
             ("CommunicationStore", {"kind": 2, "modes": "radio"}, "three"), ("CommunicationStore", {"modes": "cell", "kind": 2}, None), ("CommunicationStore", {"zz": "radio"}, None),
             ("ResourceState", {"modes": "cell"}, "two"), ("CommunicationStore", {"modes": "light"}, None), ("CommunicationStore", {}, "one"), ("CommunicationStore", {"zz": None}, None),
             ("CommunicationStore", {"kind": None}, None), ("CommunicationStore", {"kind": 0}, None), ("CommunicationStore", {"modes": ""}, None)]
    for cls, at, want in cases:
        def th(it):
            a = Obj(Ship, {"name": "ship", "_state_defs": declared(it, *shelf), **{n: sym(n) for n, _, _ in shelf}}, "ship")
            return it.call(it.getattr(a, "_get_matching_state"), [prog.cls(cls)] + ([at] if at is not None else []), {})
        run(th, lambda r: None if r.outcome == "return" and r.value == want else f"gives {outcome(r)!r}, not {want!r}", "C46.match",
            f"{cls} with {at if at is not None else 'anything'}", f.loc)
    f = prog.method(A, "_get_detection_state")
    for kinds in (("State",), ("State", "DetectabilityState"), ("DetectabilityState", "State", "LinearChangingState"), ("DetectabilityState", "State", "DetectabilityState"), ()):
        n = [f"s{i}" for i, k in enumerate(kinds) if k == "DetectabilityState"]

        def th(it):
            a = Obj(Ship, {"name": "ship", "_state_defs": declared(it, *((f"s{i}", k, {}) for i, k in enumerate(kinds)))}, "ship")
            return it.call(it.getattr(a, "_get_detection_state"), [], {})
        run(th, lambda r: (None if r.outcome == "raise" else f"gives {r!r}") if len(n) > 1 else None if r.outcome == "return" and r.value == (n[0] if n else None) else f"gives {outcome(r)!r}",
            "C46.detect", " and ".join(kinds) or "no states", f.loc)

    # shortcuts
    for short, kw in (("activate_linear_state", {"state": "fuel", "rate": sym("rate")}), ("activate_location_state", {"state": "place", "speed": sym("speed"), "waypoints": [sym("w1"), sym("w2")]})):
        f = prog.method(A, short)
        box = {}

        def th(it):
            box["calls"] = []
            t = Obj("Task", {}, "task")
            box["kw"] = {**kw, "task": t}
            it.intercept[prog.method(A, "activate_state").qual] = lambda it, a, k: box["calls"].append((a, k))
            a = Obj(Ship, {"name": "ship"}, "ship")
            box["a"] = a
            return it.call(it.getattr(a, short), [], box["kw"])
        run(th, lambda r: None if r.outcome == "return" and len(box["calls"]) == 1 and box["calls"][0][0] == [box["a"]] and box["calls"][0][1] == box["kw"] else f"activates with {box['calls']!r}",
            "C46.short", short, f.loc)
    f = prog.method(A, "get_remaining_waypoints")
    for k in ("Cartesian", "Geodetic"):
        K = prog.cls(f"{k}LocationChangingState")
        box = {}

        def th(it):
            ds = declared(it, ("home", "State", {}), ("place", K.name, {}), ("other", K.name, {}))
            w = [sym("w1"), sym("w2")]
            it.intercept[prog.method(K, "_get_remaining_waypoints").qual] = lambda it, a, k: w if a[0] is ds["place"] and a[1] is box["a"] else [sym("wrong")]
            box["a"] = Obj(Ship, {"name": "ship", "_state_defs": ds}, "ship")
            return it.call(it.getattr(box["a"], "get_remaining_waypoints"), ["place"], {})
        run(th, lambda r: None if r.outcome == "return" and list(r.it.items(r.value)) == [sym("w1"), sym("w2")] else f"gives {outcome(r)!r}", "C46.way", k, f.loc)
    f = prog.method(A, "get_nucleus")
    for has in (True, False):
        box = {"n": Obj("Nucleus", {}, "nucleus")}

        def th(it):
            return it.call(it.getattr(Obj(Ship, {"name": "ship", "_state_listener": box["n"] if has else None}, "ship"), "get_nucleus"), [], {})
        run(th, lambda r: (None if r.outcome == "return" and r.value is box["n"] else f"gives {outcome(r)!r}") if has else None if outcome(r) == ("raises", "SimulationError") else f"gives {outcome(r)!r}",
            "C46.nucleus", "a nucleus" if has else "none", f.loc)

    # markers
    K = prog.cls("Task")
    acts = {n: T(("sym", n)) for n in ("one", "two")}
    for steps in ("", "a", "ab", "a-", "a-b", "aa"):
        def th(it):
            env = Obj("env", {"now": sym("never")})
            it.intercept[("attr", "env")] = lambda it, o: env
            t = it.construct(K, [], {})
            for i, s in enumerate(steps):
                env.attrs["now"] = sym(f"now{i}")
                if s == "-":
                    it.call(it.getattr(t, "clear_marker"), [], {})
                else:
                    it.call(it.getattr(t, "set_marker"), [s], {})
            env.attrs["now"] = sym("asked")
            return it.call(it.getattr(t, "get_marker"), [], {}), it.call(it.getattr(t, "get_marker_time"), [], {})
        want = (steps[-1], sym(f"now{len(steps) - 1}")) if steps and steps[-1] != "-" else (None, None)
        run(th, lambda r: None if r.outcome == "return" and tuple(r.value) == want else f"gives {outcome(r)!r}, not {want!r}", "C46.marker", steps or "never set", prog.method(K, "get_marker").loc,
            **{"simpy.Environment": lambda it, a, k: Obj("env")})

    # what a get got
    G = prog.cls("Get")
    f = prog.method(G, "get_value")
    for kind, state in (("Store", "asked"), ("Store", "pending"), ("Store", "done"), ("Store", "nothing"), ("Container", "done"), ("FilterStore", "done"), ("Store", "rehearsed"), ("Store", "rehearsing")):
        box = {}

        def th(it):
            it.intercept[("attr", "env")] = lambda it, o: Obj("env", {"now": 1})
            c = user_class(prog, "Depot", None)
            c.mro = [c, *(["simpy.FilterStore"] if kind == "FilterStore" else []), "simpy." + ("Container" if kind == "Container" else "Store")]
            place = Obj(c, {}, "place")
            g = it.construct(G, [place], {})
            ev = Obj("event", {"triggered": state in ("done", "nothing"), "processed": state in ("done", "nothing"), "ok": True}, "event")
            if state in ("done", "nothing"):
                ev.attrs["value"] = sym("item") if state == "done" else None
            g.attrs["_request_event"] = None if state in ("asked", "rehearsed", "rehearsing") else ev
            it.intercept[("attr", "rehearsing")] = lambda it, o: state.startswith("rehears")
            it.intercept[("attr", "done_rehearsing")] = lambda it, o: state == "rehearsed"
            return it.call(it.getattr(g, "get_value"), [], {})
        want = ("raises", "SimulationError")
        if kind != "Container":
            want = {"done": sym("item"), "nothing": None, "rehearsed": "planning"}.get(state, want)

        def judge(r):
            o = outcome(r)
            if want == "planning":
                return None if r.outcome == "return" and o is r.it.glob(G.module, "PLANNING_FACTOR_OBJECT") else f"gives {o!r}"
            return None if o == want and type(o) is type(want) else f"gives {o!r}, not {want!r}"
        run(th, judge, "C46.value", f"{kind} {state}", f.loc)
