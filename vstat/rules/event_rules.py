"""C15 cancelling and making events, C16 rehearsing events, C41 named events, C42 waits."""
from __future__ import annotations

from ..api import Ctx, prop
from ..engine import (FALSE, NONE, SELF, TRUE, attr, call_name, contains, is_attr, last_name, show, strip_iter)
from ..model import AnalysisBroken
from .h import (C, LOGS, P, calls_of, completes, ctor_of, exc_name, facts, isnone, par, params, peq, raises, sub, truthy)
from .script import Env, env_term, is_env

REQ = attr(SELF, "_request_event")
SIMEV = attr(SELF, "_simpy_event")
EVENTS = attr(SELF, "events")
E1, E2, P3 = env_term("E", 1), env_term("E", 2), env_term("P", 3)


class EventEnv(Env):
    """Sub-events of a multi-event: two package events and a process; nothing is chosen."""
    KINDS = {"E": ("BaseEvent", "UpstageBase"), "P": ("Process",)}

    def __init__(self, prog, rehearsing=None):
        super().__init__(99, prog)
        self.rehearsing = rehearsing

    def choices(self, kind, what, st):
        return None

    def cond(self, key, st):
        if key[0] == "truthy":
            t = key[1]
            if call_name(t) in ("hasattr",) and len(t[2]) == 2 and is_env(t[2][0]):
                return t[2][0][1] == "E"
            if t in (attr(SELF, "_rehearsing"), attr(SELF, "rehearsing")) and self.rehearsing is not None:
                return self.rehearsing
        return super().cond(key, st)


def multi_heap(*evs):
    return {EVENTS: ("tuple", *evs)}


RESOURCES = ("put_location", "get_location", "resource")


def is_loc(t):
    return isinstance(t, tuple) and t and t[0] == "attr" and t[1] == SELF and t[2] in RESOURCES


def makes_real(e):
    """The event touches the real simulation: a resource operation, a simpy event or its triggering."""
    if e.kind != "call" or e.raised:
        return None
    if e.recv is not None and is_loc(e.recv):
        return f"{e.name} on the real {e.recv[2]}"
    if e.recv is not None and is_attr(e.recv, "env") and e.name in ("timeout", "process", "event", "schedule", "run", "step", "any_of", "all_of"):
        return f"{e.name} on the environment"
    if e.fn and e.fn[0] == "ext" and e.fn[1].split(".")[-1] in ("Event", "Timeout", "AnyOf", "AllOf", "Process"):
        return f"makes a real {e.fn[1]}"
    if e.name in ("as_event", "succeed", "fail") and e.recv is not None:
        return f"{e.name} of {show(e.recv)}"
    return None


def made_call(p, v):
    return next((e for e in p.events if e.kind == "call" and not e.raised and e.value == v), None)


def event_classes(prog):
    base = prog.cls("BaseEvent")
    multi = prog.cls("MultiEvent")
    return base, multi


@prop("C15")
def c15(ctx: Ctx):
    prog = ctx.prog
    ctx.rule("C15.once", "making an event real happens once, at the place and with the arguments given, and later requests return the same one", 4)
    # (class, expected creation)
    spec = {
        "Wait": lambda p, e: e.recv is not None and is_attr(e.recv, "env") and e.name == "timeout",
        "Put": lambda p, e: e.recv == attr(SELF, "put_location") and e.name == "put" and e.args == (attr(SELF, "put_object"),) and not e.kwargs,
        "Get": lambda p, e: e.recv == attr(SELF, "get_location") and e.name == "get" and e.args == (("star", attr(SELF, "get_args")),)
        and e.kwargs == {"**": attr(SELF, "get_kwargs")},
    }
    spec["FilterGet"] = spec["Get"]
    for cn, want in spec.items():
        c = prog.cls(cn)
        f = prog.method(c, "as_event")
        ps = ctx.paths(f, c, implicit=False)

        def chk(p, want=want):
            if p.outcome == "raise" and exc_name(p.value) == "AssertionError":
                return None
            if p.outcome != "return":
                return f"ends with {p.outcome} {show(p.value)}"
            made = [e for e in p.events if makes_real(e)]
            fs = facts(p)
            fld = [k[1] for k in fs if k[0] == "isnone" and is_attr(k[1], k[1][2] if k[1][0] == "attr" else "", SELF)]
            if not fld:
                return "does not ask whether the event was made already"
            f0 = fld[0]
            if fs[isnone(f0)]:
                if len(made) != 1 or not want(p, made[0]):
                    return "does not make exactly the event that was described", made[0].loc if made else f.loc
                if p.heap.get(f0) != made[0].value:
                    return "does not keep the event that was made"
                if p.value != made[0].value:
                    return f"returns {show(p.value)}"
                return None
            if made:
                return "makes the event again", made[0].loc
            if p.value != f0:
                return f"returns {show(p.value)} although the event was made already"
            return None

        ctx.each_path("C15.once", f"{cn}.as_event", f, ps, chk, "making the event")

    # composite events
    ctx.rule("C15.multi", "an any/all is made of all its sub-events in order (processes as they are), as AnyOf / AllOf, and kept for its cancel", 2)
    for cn, kind in (("Any", "AnyOf"), ("All", "AllOf")):
        c = prog.cls(cn)
        f = prog.method(c, "as_event")
        ps = ctx.paths(f, c, implicit=False, heap=multi_heap(E1, E2, P3), oracle=EventEnv(prog), opaque={"any_of", "all_of"})

        def chk(p, kind=kind):
            if p.outcome == "raise" and exc_name(p.value) == "AssertionError":
                return None
            if p.outcome != "return":
                return f"ends with {p.outcome} {show(p.value)}"
            e = made_call(p, p.value)
            if e is None:
                return f"returns {show(p.value)}"
            if e.name not in (kind, {"AnyOf": "any_of", "AllOf": "all_of"}[kind]):
                return f"makes a {e.name}", e.loc
            lst = e.args[-1] if e.args else e.arg(None, "events")
            its = e.items(lst) if lst is not None else None
            want = (("call", attr(E1, "as_event"), (), ()), ("call", attr(E2, "as_event"), (), ()), P3)
            if its is None or tuple(its) != want:
                return f"is made of {[show(x) for x in its] if its is not None else '?'}", e.loc
            if p.heap.get(SIMEV) != p.value:
                return "the condition is not kept for a later cancel"
            return None

        ctx.each_path("C15.multi", f"{cn}.as_event", f, ps, chk, "making the condition")

    # cancelling
    ctx.rule("C15.cancel", "cancelling a request that is not made or already received does nothing, a queued one is withdrawn from its queue, and one granted but not received is given back", 4)
    for cn in ("Put", "Get", "FilterGet", "ResourceHold"):
        c = prog.cls(cn)
        f = prog.method(c, "cancel")
        ps = ctx.paths(f, c, implicit=False, oracle=EventEnv(prog, rehearsing=False))

        def chk(p, cn=cn):
            if p.outcome == "raise" and exc_name(p.value) in ("AssertionError", "SimulationError"):
                return None
            if p.outcome != "return":
                return f"ends with {p.outcome} {show(p.value)}"
            fs = facts(p)
            none = fs.get(isnone(REQ), fs.get(truthy(REQ)) is False or None)
            done = fs.get(truthy(attr(REQ, "processed")))
            trig = fs.get(truthy(attr(REQ, "triggered")))
            acts = [e for e in p.events if e.kind == "call" and not e.raised and (
                makes_real(e) or (e.recv == REQ and e.name in ("cancel", "succeed", "fail")))]
            with_ = [e for e in acts if e.recv == REQ and e.name == "cancel"]
            other = [e for e in acts if e not in with_]
            if none or done:
                return ("acts on a request that is not pending", acts[0].loc) if acts else None
            if trig is False:
                if len(with_) != 1 or other:
                    return "a queued request is not exactly withdrawn", (other or with_)[0].loc if acts else f.loc
                return None
            if trig is None:
                return "does not tell a granted request from a queued one"
            if cn == "Put":
                return None
            if cn == "ResourceHold":
                isreq = next((v for k, v in fs.items() if k[0] in ("is", "eq") and set(k[1:]) == {REQ, attr(SELF, "_request")}), None)
                stage = next((v for k, v in fs.items() if k[0] == "eq" and attr(SELF, "_stage") in k[1:]), None)
                gave = len(other) == 1 and other[0].recv == attr(SELF, "resource") and other[0].name == "release" and \
                    other[0].args in ((attr(SELF, "_request"),), (REQ,))
                if isreq is False and not other:
                    return None
                if (isreq or isreq is None and stage is not None) and gave:
                    return None
                if gave and isreq is None and stage is None:
                    return "releases without asking whether the request or its release was pending", other[0].loc
                if stage is not None and not other:
                    return None
                return "the granted resource is not released", other[0].loc if other else f.loc
            cont = next((v for k, v in fs.items() if k[0] == "isinst" and k[1] in (REQ, attr(SELF, "get_location"))), None)
            gave = len(other) == 1 and other[0].recv == attr(SELF, "get_location") and other[0].name == "put"
            if not gave or len(other[0].args) != 1:
                return "what was taken is not put back once", other[0].loc if other else f.loc
            a = other[0].args[0]
            if a not in (attr(REQ, "amount"), attr(REQ, "value")):
                return f"puts back {show(a)}", other[0].loc
            if a == attr(REQ, "value") and cont is True and any(k[0] == "isinst" and last_name(k[2]) in ("ContainerGet", "Container") for k in fs):
                return "puts an item into a container", other[0].loc
            if a == attr(REQ, "amount") and cont is False:
                return "puts an amount into a store", other[0].loc
            return None

        ctx.each_path("C15.cancel", f"{cn}.cancel", f, ps, chk, "cancelling the request")
        # both containers and stores must be reached
        if cn in ("Get", "FilterGet"):
            vals = {e.args[0] for p in ps for e in p.events if e.kind == "call" and e.name == "put" and e.args}
            ctx.check(attr(REQ, "value") in vals, "C15.cancel", f"{cn}.cancel item", "items taken from a store are not put back", f.loc)

    ctx.rule("C15.all", "cancelling an any/all defuses and ends its condition and cancels every one of its events, reporting a failing cancel", 2)
    for cn in ("Any", "All"):
        c = prog.cls(cn)
        f = prog.method(c, "cancel")
        ps = ctx.paths(f, c, implicit=False, heap=multi_heap(E1, P3, E2), oracle=EventEnv(prog),
                       raising=lambda e: e.name == "cancel" and e.recv is not None and is_env(e.recv))

        def chk(p):
            fs = facts(p)
            if fs.get(isnone(SIMEV)):
                return None if p.outcome == "raise" else "cancelling a condition that was never made is silent"
            failed = [e for e in p.events if e.kind == "call" and e.raised]
            cans = [e.recv for e in p.events if e.kind == "call" and e.name == "cancel" and e.recv is not None and is_env(e.recv)]
            if failed:
                return None if p.outcome in ("raise", "exc") else ("a failing cancel is silent", failed[0].loc)
            if p.outcome != "return":
                return f"ends with {p.outcome} {show(p.value)}"
            if cans != [E1, E2] and sorted(map(repr, cans)) != sorted(map(repr, [E1, E2])):
                return f"cancels {[show(x) for x in cans]} of two events and a process"
            if not any(e.kind == "write" and e.target == attr(SIMEV, "defused") and e.value == TRUE for e in p.events):
                return "the condition is not defused"
            trig = fs.get(truthy(attr(SIMEV, "triggered")))
            ends = [e for e in p.events if e.kind == "call" and e.recv == SIMEV and e.name in ("fail", "succeed")]
            if trig is False and len(ends) != 1:
                return "the pending condition is not ended"
            if trig is None and ends:
                return "ends a condition that may have triggered already", ends[0].loc
            if trig and ends:
                return "ends a condition that has triggered already", ends[0].loc
            return None

        ctx.each_path("C15.all", f"{cn}.cancel", f, ps, chk, "cancelling the condition")

    ctx.rule("C15.wait", "cancelling a wait or an event defuses it; an event still pending is ended, one that succeeded is left alone", 2)
    f = prog.method("Wait", "cancel")

    def wchk(p):
        if p.outcome == "raise" and exc_name(p.value) == "AssertionError":
            return None
        if any(e.kind == "catch" for e in p.events):
            return None
        if not any(e.kind == "write" and e.target == attr(SIMEV, "defused") and e.value == TRUE for e in p.events):
            return "the timeout is not defused"
        return None if p.outcome == "return" else f"ends with {p.outcome}"

    ctx.each_path("C15.wait", "Wait.cancel", f, ctx.paths(f, prog.cls("Wait")), wchk, "cancelling the wait")
    f = prog.method("Event", "cancel")
    EV = attr(SELF, "_event")

    def echk(p):
        if any(e.kind == "catch" for e in p.events):
            return None if p.outcome in ("raise", "exc") else "a failing cancel is silent"
        fs = facts(p)
        trig, dfz = fs.get(truthy(attr(EV, "triggered"))), fs.get(truthy(attr(EV, "defused")))
        acts = [e for e in p.events if e.kind == "call" and e.recv == EV and e.name in ("succeed", "fail")]
        if any(e.raised for e in acts):
            return None
        if trig and dfz is False:
            return ("an event that succeeded is ended again", acts[0].loc) if acts or p.outcome != "return" else None
        if trig is None and dfz is None:
            return "does not ask whether the event has triggered"
        if trig:
            return None
        if len(acts) != 1:
            return "the pending event is not ended"
        if acts[0].name == "fail":
            return "the cancelled event fails, and with it every condition that waits for it"
        if not any(e.kind == "write" and e.target == attr(EV, "defused") and e.value == TRUE for e in p.events):
            return "the event is not defused"
        return None if p.outcome == "return" else f"ends with {p.outcome}"

    ctx.each_path("C15.wait", "Event.cancel", f, ctx.paths(f, prog.cls("Event")), echk, "cancelling the event")

    # resource holds
    ctx.rule("C15.hold", "a resource hold requests first and releases that request second; releasing before the request was granted, or a third use, raises")
    c = prog.cls("ResourceHold")
    f = prog.method(c, "as_event")
    st, rq, rs = attr(SELF, "_stage"), attr(SELF, "_request"), attr(SELF, "resource")

    def hchk(p):
        fs = facts(p)

        def at(v):
            return fs.get(("eq", *sorted((st, C(v)), key=repr)))

        real = [e for e in p.events if makes_real(e)]
        if at("request"):
            if p.outcome != "return" or len(real) != 1 or real[0].recv != rs or real[0].name != "request" or \
                    real[0].args != (("star", attr(SELF, "resource_args")),) or real[0].kwargs != {"**": attr(SELF, "resource_kwargs")}:
                return "the first use does not request the resource as described"
            v = real[0].value
            if p.value != v or p.heap.get(REQ) != v or p.heap.get(rq) != v:
                return "the request is not returned and kept"
            return None if p.heap.get(st) == C("release") else "the next use would not release"
        if at("release"):
            granted = fs.get(truthy(attr(rq, "processed")))
            if p.outcome == "raise":
                if granted and fs.get(truthy(rq)) and exc_name(p.value) != "AssertionError":
                    return "a granted resource cannot be released"
                return ("releases and raises", real[0].loc) if real else None
            if not granted:
                return "releases a request that may not have been granted"
            if len(real) != 1 or real[0].recv != rs or real[0].name != "release" or real[0].args != (rq,):
                return "the second use does not release the request"
            v = real[0].value
            if p.value != v or p.heap.get(REQ) != v:
                return "the release is not returned and kept"
            return None if p.heap.get(st) not in (None, C("release"), C("request")) else "the hold could be released again"
        return None if p.outcome == "raise" and not real else "a third use does not raise"

    ctx.each_path("C15.hold", "ResourceHold.as_event", f, ctx.paths(f, c, implicit=False), hchk, "resource hold")
    # initial stage
    f = prog.method(c, "__init__")
    ctx.each_path("C15.hold", "ResourceHold.__init__", f, ctx.paths(f, c, implicit=False),
                  lambda p: None if p.outcome != "return" or p.heap.get(st) == C("request") else "does not start with the request", "resource hold")


# ---------------------------------------------------------------------------
def flags(ctx):
    """What an event says of its rehearsal, from its making to its end."""
    from .. import value as V
    from .data_rules import user_class
    prog = ctx.prog
    ctx.rule("C16.flags", "an event says it is being rehearsed from the start of its rehearsal on, and that it is done once it ended completely", 20)
    base = prog.cls("BaseEvent")
    for name in ("Event", "Wait", "Put", "Get", "FilterGet", "ResourceHold", "Any", "All"):
        K = prog.cls(name)
        for steps, want in (((), (False, False)), (("start",), (True, False)), (("start", "end"), (True, True)), (("start", "fail"), (True, False)),
                            (("start", "end", "start"), (True, False)), (("start", "end", "start", "fail"), (True, False))):
            def th(it):
                it.intercept[("attr", "env")] = lambda it, o: V.Obj("simpy.Environment", {"now": 1})
                depot = user_class(prog, "Depot", None)
                depot.mro = [depot, *(["simpy.Resource"] if name == "ResourceHold" else ["simpy.FilterStore", "simpy.Store"])]
                place = V.Obj(depot, {}, "place")
                args = {"Event": [], "Wait": [V.T(("sym", "long"), "num")], "Put": [place, V.T(("sym", "what"))], "Get": [place], "FilterGet": [place, V.T(("sym", "which"))], "ResourceHold": [place]}.get(name)
                if args is None:
                    args = [it.construct(prog.cls("Event"), [], {}), it.construct(prog.cls("Wait"), [V.T(("sym", "long"), "num")], {})]
                e = it.construct(K, args, {})
                for s in steps:
                    if s == "start":
                        it.call(it.getattr(e, "_start_rehearsal"), [], {})
                    else:
                        it.call(it.getattr(e, "_finish_rehearsal"), [], {"complete": s == "end"})
                return it.getattr(e, "rehearsing"), it.getattr(e, "done_rehearsing")
            why = None
            for r in V.explore(prog, th, oracle=lambda k, it: False if k[0] in ("isnone", "lt", "le", "isinst", "is") else None):
                if r.outcome != "return" or tuple(r.value) != want:
                    why = f"says {r.value!r}, not {want!r}"
            ctx.check(not why, "C16.flags", f"{name} {' then '.join(steps) or 'new'}", why or "", (prog.method(K, "__init__") or prog.method(base, "__init__")).loc)

    ctx.rule("C16.hold", "rehearsing a resource hold takes the stated time for the request and none for the release, alone or among other events", 4)
    K = prog.cls("ResourceHold")
    for group in (None, "Any", "All"):
        for steps in (1, 2):
            def th(it):
                it.intercept[("attr", "env")] = lambda it, o: V.Obj("simpy.Environment", {"now": 1})
                depot = user_class(prog, "Depot", None)
                depot.mro = [depot, "simpy.Resource"]
                hold = it.construct(K, [V.Obj(depot, {}, "place")], {"rehearsal_time_to_complete": 4})
                out = []
                for _ in range(steps):
                    e = hold if group is None else it.construct(prog.cls(group), [hold], {})
                    out.append(it.items(it.call(it.getattr(e, "rehearse"), [], {}))[0])
                return out
            want, why = [4, 0][:steps], None
            for r in V.explore(prog, th, oracle=lambda k, it: False if k[0] in ("isnone", "isinst", "is") else None):
                if r.outcome != "return" or r.value != want:
                    why = f"takes {r.value!r}, not {want!r}"
            ctx.check(not why, "C16.hold", f"{group or 'alone'} {'request and release' if steps == 2 else 'request'}", why or "", prog.method(K, "calculate_time_to_complete").loc)


@prop("C16")
def c16(ctx: Ctx):
    prog = ctx.prog
    base, multi = event_classes(prog)
    ctx.rule("C16.real", "rehearsing touches no store, container or resource and makes or triggers no real event", 7)
    ctx.rule("C16.time", "a rehearsal takes the event's stated time (any: the least, all: the greatest of its events' times)", 7)
    ctx.rule("C16.value", "events and store gets return the planned value, everything else nothing", 6)
    ctx.rule("C16.done", "a rehearsed event is complete; the events of an any/all are complete exactly if their time is within its time", 7)
    PFO = None
    stated = attr(SELF, "rehearsal_time_to_complete")
    for c in prog.subclasses(base, strict=True):
        if c.is_sub(multi) or c.name == "BaseRequestEvent":
            continue
        f = prog.method(c, "rehearse")
        ps = ctx.paths(f, c, implicit=False)
        real = None
        isstore = [a for a in ("is_store",)]

        def chk_real(p):
            for e in p.events:
                r = makes_real(e)
                if r:
                    return r, e.loc
            return None

        def chk_time(p, c=c):
            if p.outcome != "return":
                return None
            v = p.value
            if v[0] != "tuple" or len(v) != 3:
                return f"returns {show(v)}"
            if c.name == "ResourceHold":
                fs = facts(p)
                rel = fs.get(("eq", *sorted((attr(SELF, "_stage"), C("request")), key=repr)))
                if rel is False:
                    return None if v[1] in (C(0.0), C(0)) else f"giving back takes {show(v[1])}"
                if rel is None:
                    return "does not tell getting from giving back"
            return None if peq(v[1], stated) else f"takes {show(v[1])}"

        def chk_val(p, c=c):
            if p.outcome != "return" or p.value[0] != "tuple":
                return None
            v = p.value[2]
            planned = v[0] in ("glob", "ext") and last_name(v).split(".")[-1] == "PLANNING_FACTOR_OBJECT" or v == ("glob", "constants", "PLANNING_FACTOR_OBJECT")
            if c.name == "Event":
                return None if planned else f"returns {show(v)}"
            if c.is_sub(prog.cls("Get")):
                store = next((pol for t, pol in p.conds() if t[0] == "truthy" and t[1][0] == "attr" and t[1][2].endswith("is_store")
                              or t[0] == "isinst" and last_name(t[2]) == "Store"), None)
                if store is None:
                    return "does not tell stores from containers"
                return None if (planned if store else v == NONE) else f"returns {show(v)} for a {'store' if store else 'container'}"
            return None if v == NONE else f"returns {show(v)}"

        def chk_done(p):
            if p.outcome != "return":
                return None
            if p.heap.get(attr(SELF, "_rehearsing")) != TRUE:
                return "the event is not marked as rehearsing"
            return None if p.heap.get(attr(SELF, "_done_rehearsing")) == TRUE else "the event is not marked as done"

        ctx.each_path("C16.real", f"{c.name}.rehearse", f, ps, chk_real, "rehearsal")
        ctx.each_path("C16.time", f"{c.name}.rehearse", f, ps, chk_time, "time of the rehearsal")
        ctx.each_path("C16.value", f"{c.name}.rehearse", f, ps, chk_val, "value of the rehearsal")
        ctx.each_path("C16.done", f"{c.name}.rehearse", f, ps, chk_done, "completion in a rehearsal")
        g = prog.method(c, "is_complete")
        ctx.each_path("C16.done", f"{c.name}.is_complete", g, ctx.paths(g, c, implicit=False, oracle=EventEnv(prog, rehearsing=True)),
                      lambda p: None if p.outcome == "raise" or p.value in (attr(SELF, "_done_rehearsing"), attr(SELF, "done_rehearsing"))
                      else f"answers {show(p.value)} in a rehearsal", "completion in a rehearsal")
    for cn, agg in (("Any", "min"), ("All", "max")):
        c = prog.cls(cn)
        f = prog.method(c, "rehearse")
        ps = ctx.paths(f, c, implicit=False, heap=multi_heap(E1, E2), oracle=EventEnv(prog))
        times = [("call", attr(e, "calculate_time_to_complete"), (), ()) for e in (E1, E2)]

        def total(p, t):
            """t is min/max over exactly the two times"""
            if t[0] != "call" or t[1] != ("builtin", agg):
                return False
            args = []
            for a in t[2]:
                src = a[2][0] if a[0] == "call" and last_name(a[1]) in ("list", "tuple", "sorted") and a[2] else a
                d = src[1][1] if src[0] == "call" and last_name(src[1]) == "values" else None
                its = p.heap.get(("items", d if d is not None else src))
                if its is not None:
                    args += [x[2] if d is not None else x for x in its]
                elif src[0] == "tuple":
                    args += list(src[1:])
                else:
                    args.append(a)
            return sorted(map(repr, args)) == sorted(map(repr, times))

        def chk_real(p):
            for e in p.events:
                r = makes_real(e)
                if r:
                    return r, e.loc
            return None

        def chk_time(p):
            if p.outcome != "return":
                return f"ends with {p.outcome} {show(p.value)}"
            v = p.value
            if v[0] != "tuple" or len(v) != 3 or v[2] != NONE:
                return f"returns {show(v)}"
            return None if total(p, v[1]) else f"takes {show(v[1])}, not the {agg} of its events' times"

        def chk_done(p):
            if p.outcome != "return":
                return None
            for s in (E1, E2):
                starts = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "_start_rehearsal" and e.recv == s]
                ends = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "_finish_rehearsal" and e.recv == s]
                if len(starts) != 1 or len(ends) != 1 or starts[0] > ends[0][0]:
                    return f"event {show(s)} is not started and finished once"
                v = ends[0][1].arg(0, "complete")
                t = times[(E1, E2).index(s)]
                tt = p.value[1]
                good = v[0] == "cmp" and ((v[1] == "<=" and v[2] == t and v[3] == tt) or (v[1] == ">=" and v[2] == tt and v[3] == t))
                if v in (TRUE, FALSE):
                    # decided by a branch
                    from ..engine import canon
                    k, pol = canon(("cmp", "<=", t, tt))
                    d = facts(p).get(k)
                    good = d is not None and (d == pol) == (v == TRUE)
                if not good:
                    return f"event {show(s)} complete when {show(v)}", ends[0][1].loc
            if p.heap.get(attr(SELF, "_rehearsing")) != TRUE or p.heap.get(attr(SELF, "_done_rehearsing")) != TRUE:
                return "the condition is not marked as rehearsed and done"
            return None

        ctx.each_path("C16.real", f"{cn}.rehearse", f, ps, chk_real, "rehearsal")
        ctx.each_path("C16.time", f"{cn}.rehearse", f, ps, chk_time, "time of the rehearsal")
        ctx.each_path("C16.done", f"{cn}.rehearse", f, ps, chk_done, "completion in a rehearsal")
        g = prog.method(c, "calculate_time_to_complete")
        ps2 = ctx.paths(g, c, implicit=False, heap=multi_heap(E1, E2), oracle=EventEnv(prog))
        ctx.each_path("C16.time", f"{cn}.calculate_time_to_complete", g, ps2,
                      lambda p: None if p.outcome == "return" and total(p, p.value) else f"takes {show(p.value)}, not the {agg} of its events' times",
                      "time of a nested condition")
        ps3 = ctx.paths(f, c, implicit=False, heap=multi_heap(E1, P3), oracle=EventEnv(prog))
        ctx.each_path("C16.done", f"{cn}.rehearse process", f, ps3,
                      lambda p: None if p.outcome == "raise" else "a process among the events is not refused", "rehearsing processes")
    # constructors store the stated time
    ctx.rule("C16.stated", "the stated rehearsal time reaches the event", 6)
    for c in prog.subclasses(base, strict=True):
        if c.is_sub(multi):
            continue
        f = prog.method(c, "__init__")
        ps = ctx.paths(f, c, implicit=False)
        nm = "rehearsal_time_to_complete"

        def chk(p, f=f, c=c):
            if p.outcome != "return":
                return None
            got = p.heap.get(stated)
            if c.name == "Wait":
                given = facts(p).get(isnone(P(nm)))
                if given is False:
                    return None if got == P(nm) else f"the stated time becomes {show(got) if got else 'unset'}"
                dur = [e.value for e in p.events if e.kind == "write" and e.target[0] == "attr" and e.target[1] == SELF]
                return None if got is not None and got in dur and got != NONE and got != P(nm) else "the rehearsal time of a plain wait is not its duration"
            return None if got == P(nm) else f"the stated time becomes {show(got) if got else 'unset'}"

        ctx.each_path("C16.stated", f"{c.name}.__init__", f, ps, chk, "stated rehearsal time")
    flags(ctx)


# ---------------------------------------------------------------------------
@prop("C41")
def c41(ctx: Ctx):
    prog = ctx.prog
    c = prog.cls("Event")
    EV = attr(SELF, "_event")
    PAY = attr(SELF, "_payload")
    done = truthy(attr(EV, "processed"))
    ctx.rule("C41.succeed", "succeeding an event that completed or was triggered raises and keeps its payload; otherwise the event succeeds once and keeps exactly the given payload")
    f = prog.method(c, "succeed")

    def chk(p):
        fs = facts(p)
        acts = [e for e in p.events if e.kind == "call" and e.recv == EV and e.name in ("succeed", "fail")]
        pays = [e for e in p.events if e.kind == "write" and e.target == PAY or e.kind == "call" and e.recv == PAY]
        trig = fs.get(truthy(attr(EV, "triggered")))
        if fs.get(done) or trig:
            return None if p.outcome == "raise" and not acts and not pays else "a complete event is succeeded again"
        if fs.get(done) is None and trig is None:
            return "does not ask whether the event is complete"
        if trig is None and acts and pays and p.index(pays[0]) < p.index(acts[0]):
            return ("the payload is replaced before the event is triggered: an event that succeeded, but is not processed yet, "
                    "loses its payload though succeeding it again raises")
        if p.outcome != "return" or len(acts) != 1 or acts[0].name != "succeed":
            return "the event is not succeeded once"
        kw = P(f.node.args.kwarg.arg) if f.node.args.kwarg else None
        got = p.heap.get(PAY)
        if got is None or strip_iter(got) != kw and not (got[0] == "call" and got[1] == ("builtin", "dict") and got[2] == (kw,)):
            its = p.heap.get(("items", got)) if got else None
            if its != (("star", kw),):
                return f"the payload becomes {show(got) if got else 'unset'}"
        return None

    ctx.each_path("C41.succeed", "Event.succeed", f, ctx.paths(f, c, implicit=False), chk, "succeeding")
    g = prog.method(c, "get_payload")
    ctx.each_path("C41.succeed", "Event.get_payload", g, ctx.paths(g, c, implicit=False),
                  lambda p: "the payload is changed by asking for it" if p.heap.get(PAY) is not None or
                  any(e.kind == "call" and e.recv == PAY and e.name in ("clear", "pop", "popitem", "update", "setdefault") for e in p.events) else
                  None if p.value == PAY or strip_iter(p.value) == PAY else f"returns {show(p.value)}", "payload")

    ctx.rule("C41.reset", "waiting on an event that has not completed waits on the same one; a complete one is reset if it may be, else raises")
    f = prog.method(c, "as_event")
    ar = truthy(attr(SELF, "_auto_reset"))

    def made(p):
        return [e for e in p.events if e.kind == "call" and (ctor_of(e, "Event") or e.name == "event" and is_attr(e.recv or NONE, "env"))]

    def chk(p):
        fs = facts(p)
        if p.outcome == "raise" and exc_name(p.value) == "AssertionError":
            return None
        m = made(p)
        if fs.get(done) is False:
            return None if p.outcome == "return" and p.value == EV and not m else "an event that is not complete is not simply waited on"
        if fs.get(done) is None:
            return "does not ask whether the event is complete"
        if fs.get(ar):
            if p.outcome != "return" or len(m) != 1 or p.heap.get(EV) != m[0].value or p.value != m[0].value:
                return "a complete event is not reset and waited on"
            return None
        if fs.get(ar) is False:
            return None if p.outcome == "raise" and not m else "a complete event that may not reset is waited on"
        return "does not ask whether the event may reset"

    ctx.each_path("C41.reset", "Event.as_event", f, ctx.paths(f, c, implicit=False), chk, "waiting")
    f = prog.method(c, "__init__")
    ctx.each_path("C41.reset", "Event.__init__", f, ctx.paths(f, c, implicit=False),
                  lambda p: None if p.outcome != "return" or (p.heap.get(attr(SELF, "_auto_reset")) == P("auto_reset") and len(made(p)) == 1
                                                               and not p.calls("succeed", "fail", "trigger")
                                                               and p.heap.get(EV) == made(p)[0].value) else "the option or the event is not kept", "creation")
    f = prog.method(c, "is_complete")
    ctx.rule("C41.complete", "an event outside a rehearsal is complete once it was processed", 4)
    for cn, fld in (("Event", EV), ("Wait", SIMEV), ("Get", REQ), ("Put", REQ), ("ResourceHold", REQ), ("Any", SIMEV), ("All", SIMEV)):
        k = prog.cls(cn)
        f = prog.method(k, "is_complete")
        ctx.each_path("C41.complete", f"{cn}.is_complete", f, ctx.paths(f, k, implicit=False, oracle=EventEnv(prog, rehearsing=False)),
                      lambda p, fld=fld: None if p.outcome == "raise" or p.value == attr(fld, "processed") or
                      p.value in (TRUE, FALSE) and facts(p).get(truthy(attr(fld, "processed"))) == p.value[1] else f"answers {show(p.value)}", "completion")


@prop("C42")
def c42(ctx: Ctx):
    prog = ctx.prog
    c = prog.cls("Wait")
    ctx.rule("C42.convert", "a wait's time is converted from its unit to the stage's unit when both are known, else taken as it is; negative times raise")
    f = prog.method(c, "__init__")
    tp, up = par(f, 0), par(f, 1)
    dur = {}

    def duration(p):
        """Attributes that hold the duration."""
        return {e.target[2]: e.value for e in p.events if e.kind == "write" and e.target[0] == "attr" and e.target[1] == SELF}

    g = prog.method(c, "as_event")
    gp = ctx.paths(g, c, implicit=False)
    tm = [e for p in gp for e in p.events if e.kind == "call" and e.name == "timeout" and e.recv is not None and is_attr(e.recv, "env")]
    if not tm:
        raise AnalysisBroken("no timeout is made by Wait.as_event")
    d = tm[0].args[0] if tm[0].args else tm[0].arg(None, "delay")

    def chk(p):
        fs = facts(p)
        conv = [e for e in p.events if e.kind == "call" and e.name == "unit_convert"]
        stage_unit = next((t[1] for t, _ in p.conds() if t[0] == "isnone" and contains(t[1], C("time_unit"))), None)
        bu = fs.get(isnone(stage_unit)) if stage_unit is not None else None
        un = fs.get(isnone(up))
        if p.outcome == "raise":
            return None
        v = p.heap.get(d)
        if v is None:
            return f"{show(d)} is not set"
        if conv:
            e = conv[0]
            if len(conv) != 1 or e.arg(0) != tp or e.arg(1) != up or stage_unit is None or e.arg(2) != stage_unit:
                return "does not convert from the given unit to the stage's", e.loc
            if v != e.value:
                return f"waits {show(v)}", e.loc
        else:
            if v != tp:
                return f"waits {show(v)}"
            if not (un or bu):
                return "does not convert although both units are known"
        neg = None
        for t, pol in p.conds():
            if t[0] == "lt0" and dict(t[1]).get(v) == 1 and len(t[1]) == 1:
                neg = pol
            if t[0] == "lt0" and dict(t[1]).get(v) == -1 and len(t[1]) == 1:
                neg = False if pol else neg
        return None if neg is False else "negative times are not refused"

    ps = ctx.paths(f, c, implicit=False)
    ctx.each_path("C42.convert", "Wait.__init__", f, ps, chk, "time of a wait")
    ctx.check(any(e.kind == "call" and e.name == "unit_convert" for p in ps for e in p.events), "C42.convert", "Wait units",
              "times are never converted", f.loc)
    ctx.rule("C42.timeout", "the simulation waits for exactly that time")
    ctx.check(is_attr(d, d[2] if d[0] == "attr" else "", SELF) and all((e.args[0] if e.args else e.arg(None, "delay")) == d for e in tm),
              "C42.timeout", "Wait.as_event", "the timeout is not the wait's time", tm[0].loc)
    ctx.rule("C42.draw", "a random wait draws once, uniformly between its bounds, from the stage's generator, and keeps the unit and rehearsal time")
    f = prog.method(c, "from_random_uniform")
    lo, hi, un = par(f, 0), par(f, 1), par(f, 2)

    def draw(p):
        if p.outcome != "return":
            return f"ends with {p.outcome}"
        u = [e for e in p.events if e.kind == "call" and e.name in ("uniform", "random", "triangular", "randint", "gauss")]
        if len(u) != 1 or u[0].name != "uniform" or (u[0].arg(0, "a"), u[0].arg(1, "b")) != (lo, hi):
            return "does not draw once between the bounds"
        if not (is_attr(u[0].recv, "random") and is_attr(u[0].recv[1], "stage")):
            return f"draws from {show(u[0].recv)}", u[0].loc
        k = made_call(p, p.value)
        if k is None or not (k.fn[0] in ("class",) or k.fn == ("param", "cls") or k.name == "Wait"):
            return f"returns {show(p.value)}"
        if k.arg(0, "timeout") != u[0].value or k.arg(1, "timeout_unit") != un or k.arg(None, "rehearsal_time_to_complete") != P("rehearsal_time_to_complete"):
            return "the draw, its unit or the rehearsal time is not passed on", k.loc
        for e in p.events:
            if e.kind == "write" and contains(e.target, p.value):
                return "the wait made is changed afterwards", e.loc
        return None

    ctx.each_path("C42.draw", "Wait.from_random_uniform", f, ctx.paths(f, c, implicit=False), draw, "random wait")
