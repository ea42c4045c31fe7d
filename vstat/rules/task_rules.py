"""C12 interrupted tasks, C13 values of yielded events, C14 routines."""
from __future__ import annotations

import ast

from ..api import Ctx, prop
from ..engine import (NONE, SELF, attr, call_name, contains, is_attr, last_name, show, strip_iter)
from ..model import AnalysisBroken
from .h import (C, LOGS, P, calls_of, completes, exc_name, facts, full_loops, isnone, map_ops, par, raises, sub, truthy)
from .script import Env, Script, env_term, exc, is_env, none, stop, value

GEN_MAKERS = ("task", "_run", "run")


def is_gen(t):
    """The generator object made by a task/routine body."""
    return isinstance(t, tuple) and t and t[0] == "call" and last_name(t[1]) in GEN_MAKERS and t[1][0] == "attr"


def advance_of(e):
    """(generator, sent value) when the event advances a driven generator."""
    if e.kind != "call":
        return None
    if e.name == "next" and e.recv is None and len(e.args) == 1 and is_gen(e.args[0]):
        return e.args[0], NONE
    if e.recv is not None and is_gen(e.recv):
        if e.name == "__next__":
            return e.recv, NONE
        if e.name == "send" and e.args:
            return e.recv, e.args[0]
    return None


class TaskEnv(Env):
    KINDS = {"E": ("BaseEvent", "SettableEnv", "UpstageBase"), "R": ("Routine", "SettableEnv", "UpstageBase"),
             "P": ("Process",), "B": (), "v": (), "s": (), "odd": ()}

    def __init__(self, depth, prog, wide=True, interrupts=True, routines=True):
        super().__init__(depth, prog)
        self.wide = wide
        self.interrupts = interrupts
        self.routines = routines

    def choices(self, kind, what, st):
        if kind == "call":
            if advance_of(what) is not None:
                g = advance_of(what)[0]
                ch = [("E", value("E")), ("S0", stop(None)), ("S", stop("s"))]
                if self.routines:
                    ch.append(("R", value("R")))
                if self.wide:
                    ch += [("P", value("P")), ("B", value("B")), ("X", exc("UserError", "x"))]
                if not self.routines and not self.wide:
                    pass
                return ch
            if what.name == "on_interrupt":
                ic = self.prog.cls("InterruptStates")
                m = [(n, ("value", ("attr", ("class", ic), n))) for n in ("IGNORE", "END", "RESTART")]
                if self.wide:
                    m += [("None", none()), ("other", value("odd"))]
                return m
            return None
        if kind == "yield":
            ch = [("v", value("v")), ("n", none())]
            if self.interrupts:
                ch.append(("i", exc("Interrupt", "i")))
            if self.wide:
                ch.append(("f", exc("UserError", "f")))
            return ch
        return None


class Bad(Exception):
    def __init__(self, rule, msg, ev=None):
        self.rule, self.msg, self.ev = rule, msg, ev


def same_value(a, b):
    return a == b


def play_task(p, self_actor):
    """Compare one path of Task.run with the protocol; raises Bad(rule, text, event)."""
    acts = {"deactivate_all_states", "deactivate_all_mimic_states"}

    def keep(e):
        if e.kind in ("yield", "yieldfrom", "resume"):
            return True
        if e.kind == "loop":
            return call_name(e.term) == "_run_cancel"
        if e.kind != "call" or (e.recv is not None and e.recv[0] == "new"):
            return False
        if advance_of(e) is not None or is_gen(e.value):
            return True
        if e.name in acts or e.name in ("on_interrupt", "as_event", "_run_cancel", "_run"):
            return True
        if e.name in ("cancel", "interrupt", "succeed", "fail", "throw") and e.recv is not None and is_env(e.recv):
            return True
        return e.name == "throw"

    s = Script(p, keep)
    end = p.outcome

    def want(rule, test, text):
        e = s.take()
        if e is None:
            if end == "cut":
                raise StopIteration
            raise Bad(rule, f"{text} expected, but the task process ends ({end})", None)
        if not test(e):
            raise Bad(rule, f"{text} expected, but found {e!r}", e)
        return e

    def fin(rule, text, pred):
        e = s.peek()
        if e is not None:
            raise Bad(rule, f"{text} expected, but found {e!r}", e)
        if not pred():
            raise Bad(rule, f"{text} expected, but the path ends with {end} {show(p.value)}")

    def new_task(rule):
        e = want(rule, lambda e: e.kind == "call" and e.name == "task" and e.recv == SELF, "the task body started on the actor")
        a = e.arg(None, "actor")
        if a != self_actor:
            raise Bad(rule, f"task body started with actor {show(a) if a else 'nobody'}", e)
        return e.value

    stack = [(new_task("body"), None)]
    send = NONE
    restarted = False
    try:
        while True:
            gen, _ = stack[-1]
            e = want("advance", lambda e: advance_of(e) is not None, "the generator on top resumed")
            g, x = advance_of(e)
            if g != gen:
                raise Bad("advance", f"resumed {show(g)} instead of {show(gen)}", e)
            if x != send:
                raise Bad("restart" if restarted else "sent", f"sent {show(x)} into the generator where {show(send)} is due", e)
            restarted = False
            got = e.value
            if e.raised:
                if got[1] == "StopIteration":
                    stack.pop()
                    send = NONE if got[2] == "none" else env_term(got[2], got[3])
                    if not stack:
                        fin("end", "a finished task ending its process", lambda: end == "return")
                        return True
                    continue
                fin("fail", "a failing task body failing the process", lambda: end in ("raise", "exc") and p.value == got)
                return True
            if got[1] == "R":
                e = want("routine", lambda e: e.kind == "call" and e.name == "_run" and e.recv == got, "the yielded routine started")
                stack.append((e.value, got))
                send = NONE
                continue
            if got[1] == "B":
                fin("bad", "an error for an unexpected yielded object", lambda: end == "raise" and exc_name(p.value) == "SimulationError")
                return True
            ev = got
            if got[1] == "E":
                e = want("event", lambda e: e.kind == "call" and e.name == "as_event" and e.recv == got, "the event made real")
                ev = e.value
            again = True
            while again:
                again = False
                e = want("wait", lambda e: e.kind == "yield" and e.value == ev, f"waiting on {show(got)}")
                r = want("wait", lambda e: e.kind == "resume", "being resumed")
                if r.name == "value":
                    send = r.value
                    break
                x = r.value
                if x[1] != "Interrupt":
                    fin("fail", "a failed event failing the process", lambda: end in ("raise", "exc") and p.value == x)
                    return True
                e = want("handler", lambda e: e.kind == "call" and e.name == "on_interrupt" and e.recv == SELF, "the interrupt handler asked")
                if e.arg(None, "actor") != self_actor or e.arg(None, "cause") != attr(x, "cause"):
                    raise Bad("handler", "the interrupt handler is not given the actor and the cause of the interrupt", e)
                verdict = e.value
                vn = verdict[2] if verdict[0] == "attr" else None
                if vn == "IGNORE":
                    again = True
                    continue
                if vn is None:
                    fin("verdict", "an error for a wrong answer of the interrupt handler",
                        lambda: end == "raise" and exc_name(p.value) == "SimulationError")
                    return True
                due = {"deactivate_all_states", "deactivate_all_mimic_states", "withdraw"}
                while due:
                    e = want("cleanup", lambda e: e.kind == "call", f"{sorted(due)} after the handler's answer {vn}")
                    if e.name in acts and e.name in due:
                        if e.recv != self_actor or e.arg(0, "task") != SELF:
                            raise Bad("cleanup", f"{e.name} not applied to the actor for this task", e)
                        due.discard(e.name)
                    elif "withdraw" in due and e.recv == got and e.name == ("cancel" if got[1] == "E" else "interrupt"):
                        due.discard("withdraw")
                    else:
                        raise Bad("cleanup", f"{sorted(due)} expected, but found {e!r}", e)
                for gg, rt in reversed(stack):
                    if rt is not None:
                        e = want("unwind", lambda e: e.kind == "call" and e.name == "_run_cancel" and e.recv == rt,
                                 f"the cancel steps of {show(rt)}")
                        want("unwind", lambda f: f.kind in ("yieldfrom", "loop") and (f.value if f.kind == "yieldfrom" else f.term) == e.value,
                             f"the cancel steps of {show(rt)} carried out")
                stack = []
                if vn == "END":
                    fin("verdict", "the task process ending", lambda: end == "return")
                    return True
                stack = [(new_task("verdict"), None)]
                send = NONE
                restarted = True
    except StopIteration:
        return False


def task_paths(ctx: Ctx):
    """All environment choices up to a depth, in two walks: narrow and deep, wide and shallow."""
    if "task_paths" in ctx.cache:
        return ctx.cache["task_paths"]
    run = ctx.prog.func("Task.run")
    cls = ctx.prog.cls("Task")
    out = []
    thorough = ctx.tier == "thorough"
    for depth, kw in ((11 if thorough else 8, dict(wide=False)), (8 if thorough else 6, dict(wide=True))):
        out += ctx.paths(run, cls, opaque={"task", "on_interrupt"} | LOGS, unroll=40, unroll_for=0, implicit=False, distinct=True,
                         oracle=TaskEnv(depth, ctx.prog, **kw), max_paths=400000)
    ctx.cache["task_paths"] = out
    return out


def run_protocol(ctx: Ctx, rules, construct="Task.run"):
    run = ctx.prog.func("Task.run")
    bad = {}
    n = done = 0
    for p in task_paths(ctx):
        try:
            done += play_task(p, par(run, 0))
        except Bad as b:
            bad.setdefault(b.rule, (b, p))
        n += 1
    if not bad and not done:
        raise AnalysisBroken("no complete run of Task.run was recognised")
    for rid, kinds in rules.items():
        hit = [bad[k] for k in kinds if k in bad]
        if hit:
            b, p = hit[0]
            ctx.bad(rid, construct, b.msg, b.ev.loc if b.ev is not None else run.loc, p)
        else:
            ctx.ok(rid, construct)
    return n


@prop("C12")
def c12(ctx: Ctx):
    prog = ctx.prog
    T = prog.cls("Task")
    ctx.rule("C12.handler", "an interrupt asks the handler, with the actor and the cause, before anything else happens")
    ctx.rule("C12.cleanup", "an ending or restarting answer deactivates all states and mimics of the task and withdraws what it waits on")
    ctx.rule("C12.unwind", "then the cancel steps of every running routine are carried out, innermost first")
    ctx.rule("C12.verdict", "END ends the process, RESTART begins the body anew, IGNORE waits on the very same event, anything else raises")
    ctx.rule("C12.end", "a task that finishes or fails ends or fails its process")
    run_protocol(ctx, {"C12.handler": ["handler"], "C12.cleanup": ["cleanup"], "C12.unwind": ["unwind"],
                       "C12.verdict": ["verdict", "wait", "body", "restart"], "C12.end": ["end", "fail"]})

    # knowledge that is the event waited on
    ctx.rule("C12.knowledge", "after END/RESTART exactly the actor's knowledge entries that are the event waited on are cleared")
    f = prog.func("Task._handle_interruption")
    actor, ev = par(f, 0), par(f, 2)
    know = attr(actor, "_knowledge")
    base = prog.cls("BaseEvent")
    ic = prog.cls("InterruptStates")

    def member(n):
        return attr(("class", ic), n)

    class O(Env):
        KINDS = {}

        def choices(self, kind, what, st):
            if kind == "call" and what.name == "on_interrupt":
                return [("END", ("value", member("END"))), ("RESTART", ("value", member("RESTART"))), ("IGNORE", ("value", member("IGNORE")))]
            return None

        def cond(self, key, st):
            if key[0] == "isinst" and key[1] == ev:
                cs = key[2][1:] if key[2][0] == "tuple" else (key[2],)
                return any(last_name(c) == "BaseEvent" for c in cs)
            return super().cond(key, st)

    ps = ctx.paths(f, T, opaque={"on_interrupt", "clear_knowledge"} | LOGS, implicit=False, types={actor: prog.cls("Actor")},
                   oracle=O(3, prog))
    el = ("elem", know)

    def chk(p):
        verdict = next((e.value for e in p.events if e.kind == "call" and e.name == "on_interrupt"), None)
        if verdict is None or p.outcome != "return":
            return None
        cleared = [(e.args[0] if e.args else e.arg(None, "name"), e) for e in p.events if e.kind == "call" and e.name == "clear_knowledge"]
        cleared += [(k, e) for op, k, v, e in map_ops(p, know) if op in ("remove", "pop", "popdef")]
        wiped = [e for op, k, v, e in map_ops(p, know) if op == "wipe"]
        loops = [e for e in p.events if e.kind == "loop" and contains(e.term, know)]
        its = [e for e in p.events if e.kind == "iter" and contains(e.term, know)]
        if verdict == member("IGNORE"):
            return ("knowledge cleared although the interrupt is ignored", cleared[0][1].loc) if cleared or wiped else None
        if wiped:
            return "all knowledge is dropped", wiped[0].loc
        if not loops:
            return "the actor's knowledge is not searched for the event"
        if any(e.kind == "break" and contains(e.term, know) for e in p.events):
            return "only part of the knowledge is searched"
        if not its:
            return None
        fs = facts(p)
        vals = [sub(know, el), ("call", attr(know, "get"), (el,), ())]
        hit = None
        for v in vals:
            for a, b in ((v, ev), (ev, v)):
                x, y = sorted((a, b), key=repr)
                for op in ("is",):
                    if (op, x, y) in fs:
                        hit = fs[(op, x, y)]
        if hit is None:
            return "knowledge entries are not compared with the event by identity"
        keyed = [c for c in cleared if c[0] == el]
        if hit and len(keyed) < 1:
            return "a knowledge entry that is the event is kept"
        if not hit and cleared:
            return "a knowledge entry that is not the event is cleared", cleared[0][1].loc
        return None

    ctx.each_path("C12.knowledge", f.qual, f, ps, chk, "knowledge clean-up after an interrupt")

    # the default handler answers with the marker's action
    ctx.rule("C12.default", "the default handler answers with the action of the marker in force, END when there is none", 4)
    oi = prog.func("Task.on_interrupt")
    ctx.each_path("C12.default", oi.qual, oi, ctx.paths(oi, T, opaque=LOGS),
                  lambda p: None if p.outcome == "return" and p.value == attr(SELF, "_interrupt_action") else f"answers {show(p.value)}",
                  "default interrupt handler")
    for nm, want in (("set_marker", None), ("clear_marker", member("END")), ("__init__", member("END"))):
        g = prog.func(f"Task.{nm}")

        def one(p, g=g, want=want, nm=nm):
            if p.outcome != "return":
                return None
            got = p.heap.get(attr(SELF, "_interrupt_action"))
            w = want if want is not None else par(g, 1)
            if got != w:
                return f"leaves the action {show(got) if got else 'unset'} instead of {show(w)}"
            if nm == "set_marker" and p.heap.get(attr(SELF, "_marker")) != par(g, 0):
                return "does not keep the marker"
            if nm == "set_marker" and not is_attr(p.heap.get(attr(SELF, "_marked_time"), NONE), "now", attr(SELF, "env")):
                return "does not keep the time of the marker"
            if nm == "clear_marker" and p.heap.get(attr(SELF, "_marker")) != NONE:
                return "keeps the marker"
            return None

        ctx.each_path("C12.default", g.qual, g, ctx.paths(g, T, opaque=LOGS | {"on_interrupt"}), one, nm)
    # the marker's default action is END
    g = prog.func("Task.set_marker")
    a = g.node.args
    d = dict(zip([x.arg for x in a.args][-len(a.defaults):], a.defaults)) if a.defaults else {}
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    dv = d.get(par(g, 1)[1])
    ctx.check(dv is not None and ast.unparse(dv).endswith("END"), "C12.default", g.qual + " default", "a marker without an action does not answer END", g.loc)


@prop("C13")
def c13(ctx: Ctx):
    prog = ctx.prog
    ctx.rule("C13.sent", "each resumption of a task or routine body sends what the event it yielded last produced; a returned routine's value goes to its task")
    ctx.rule("C13.event", "each yielded event is made real once and waited on; processes are waited on as they are; other objects raise")
    run_protocol(ctx, {"C13.sent": ["sent", "advance", "restart"], "C13.event": ["event", "wait", "bad", "routine", "body"]})
    routine_protocol(ctx, {"C13.sent": ["sent", "advance", "result"], "C13.event": ["wait", "bad"]})
    rehearse_protocol(ctx, {"C13.sent": ["sent", "advance", "result"], "C13.event": ["event", "bad"]})


# ---------------------------------------------------------------------------
def routine_protocol(ctx, rules):
    f = ctx.prog.func("Routine._run")
    cls = ctx.prog.cls("Routine")

    class O(TaskEnv):
        def choices(self, kind, what, st):
            if kind == "yield":
                return [("v", value("v")), ("n", none()), ("f", exc("UserError", "f")), ("x", exc("GeneratorExit", "x"))]
            return super().choices(kind, what, st)

    ps = ctx.paths(f, cls, opaque={"run", "cancel"}, unroll=40, unroll_for=0, implicit=False, distinct=True,
                   oracle=O(8 if ctx.tier == "thorough" else 6, ctx.prog, wide=True, routines=True), max_paths=400000)
    bad = {}
    done = 0
    for p in ps:
        try:
            done += play_routine(p)
        except Bad as b:
            bad.setdefault(b.rule, (b, p))
    report(ctx, rules, bad, f, done)


def report(ctx, rules, bad, f, done):
    if not bad and not done:
        raise AnalysisBroken(f"no complete run of {f.qual} was recognised")
    for rid, kinds in rules.items():
        hit = [bad[k] for k in kinds if k in bad]
        if hit:
            b, p = hit[0]
            ctx.bad(rid, f.qual, b.msg, b.ev.loc if b.ev is not None else f.loc, p)
        else:
            ctx.ok(rid, f.qual)


def play_routine(p):
    def keep(e):
        if e.kind in ("yield", "yieldfrom", "resume"):
            return True
        if e.recv is not None and e.recv[0] == "new":
            return False
        return e.kind == "call" and (advance_of(e) is not None or is_gen(e.value) or e.name in ("cancel", "as_event", "_run_cancel"))

    s = Script(p, keep)
    end = p.outcome

    def want(rule, test, text):
        e = s.take()
        if e is None:
            if end == "cut":
                raise StopIteration
            raise Bad(rule, f"{text} expected, but the routine ends ({end})")
        if not test(e):
            raise Bad(rule, f"{text} expected, but found {e!r}", e)
        return e

    def fin(rule, text, pred):
        e = s.peek()
        if e is not None:
            raise Bad(rule, f"{text} expected, but found {e!r}", e)
        if not pred():
            raise Bad(rule, f"{text} expected, but the path ends with {end} {show(p.value)}")

    try:
        e = want("advance", lambda e: e.kind == "call" and e.name == "run" and e.recv == SELF, "the routine's body started")
        gen = e.value
        send = NONE
        while True:
            e = want("advance", lambda e: advance_of(e) is not None and advance_of(e)[0] == gen, "the routine's body resumed")
            x = advance_of(e)[1]
            if x != send:
                raise Bad("sent", f"sent {show(x)} into the routine where {show(send)} is due", e)
            got = e.value
            if e.raised:
                if got[1] == "StopIteration":
                    v = NONE if got[2] == "none" else env_term(got[2], got[3])
                    fin("result", "the routine's own result returned", lambda: end == "return" and p.value == v)
                else:
                    fin("fail", "the routine's failure passed on", lambda: end in ("raise", "exc") and p.value == got)
                return True
            if got[1] != "E":
                fin("bad", "an error for an object that is not an event", lambda: end == "raise" and exc_name(p.value) == "SimulationError")
                return True
            want("wait", lambda e: e.kind == "yield" and e.value == got, "the routine's event handed to the task")
            r = want("wait", lambda e: e.kind == "resume", "being resumed")
            if r.name == "value":
                send = r.value
            elif r.value[1] == "GeneratorExit":
                fin("close", "a closed routine ending", lambda: end == "return" or (end in ("raise", "exc") and p.value == r.value))
                return True
            else:
                fin("fail", "the failure of the event passed on", lambda: end in ("raise", "exc") and p.value == r.value)
                return True
    except StopIteration:
        return False


# ---------------------------------------------------------------------------
def rehearse_protocol(ctx, rules):
    """Task.rehearse and Routine.rehearse: each yielded event is rehearsed, its value sent back, its time counted."""
    for q, cn in (("Task.rehearse", "Task"), ("Routine.rehearse", "Routine")):
        f = ctx.prog.func(q)
        cls = ctx.prog.cls(cn)

        class O(TaskEnv):
            def choices(self, kind, what, st):
                if kind == "call" and what.name == "rehearse" and what.recv is not None and is_env(what.recv):
                    return [("v", ("value", lambda k, s: ("tuple", env_term("t", k), env_term("v", k)))),
                            ("n", ("value", lambda k, s: ("tuple", env_term("t", k), NONE))), ("f", exc("UserError", "f"))]
                ch = super().choices(kind, what, st)
                if ch and cn == "Routine":
                    ch = [c for c in ch if c[0] not in ("R", "P", "B")]  # refused by _run already
                return ch

            def cond(self, key, st):
                if key[0] == "isinst" and last_name(key[2]) == "MockEnvironment":
                    return True
                return super().cond(key, st)

        ps = ctx.paths(f, cls, opaque={"run", "task", "cancel", "_clone_actor", "_run"}, unroll=40, unroll_for=0, implicit=False, distinct=True,
                       oracle=O(7 if ctx.tier == "thorough" else 5, ctx.prog, wide=True), max_paths=400000)
        bad = {}
        done = 0
        for p in ps:
            try:
                done += play_rehearse(p, cn)
            except Bad as b:
                bad.setdefault(b.rule, (b, p))
        report(ctx, rules, bad, f, done)


def play_rehearse(p, cn):
    from .h import add, peq

    def keep(e):
        if e.kind in ("yield", "yieldfrom"):
            return True
        if e.kind == "write":
            return is_attr(e.target, "now")
        return e.kind == "call" and (advance_of(e) is not None or e.name == "as_event" or
                                     (e.name == "rehearse" and e.recv is not None and is_env(e.recv)))

    s = Script(p, keep)
    end = p.outcome

    def want(rule, test, text):
        e = s.take()
        if e is None:
            if end == "cut":
                raise StopIteration
            raise Bad(rule, f"{text} expected, but the rehearsal ends ({end})")
        if not test(e):
            raise Bad(rule, f"{text} expected, but found {e!r}", e)
        return e

    def fin(rule, text, pred):
        e = s.peek()
        if e is not None:
            raise Bad(rule, f"{text} expected, but found {e!r}", e)
        if not pred():
            raise Bad(rule, f"{text} expected, but the path ends with {end} {show(p.value)}")

    gens = [("task" if cn == "Task" else "run")]
    send = NONE
    total = C(0.0)
    gen = None
    try:
        while True:
            e = want("advance", lambda e: advance_of(e) is not None, "the body resumed")
            g, x = advance_of(e)
            if gen is None:
                gen = g
            if g != gen:
                raise Bad("advance", "another generator is resumed", e)
            if x != send:
                raise Bad("sent", f"sent {show(x)} into the rehearsed body where {show(send)} is due", e)
            got = e.value
            if e.raised:
                if got[1] == "StopIteration":
                    if cn == "Routine":
                        def ok():
                            v = p.value
                            return end == "return" and v[0] == "tuple" and len(v) == 3 and peq(v[1], total)
                        fin("time", "the summed time of the routine's events returned", ok)
                    else:
                        fin("end", "the rehearsal ending normally", lambda: end == "return")
                else:
                    fin("fail", "the failure passed on", lambda: end in ("raise", "exc") and p.value == got)
                return True
            if got[1] not in ("E", "R") or (cn == "Routine" and got[1] == "R"):
                fin("bad", "an error for an object that is not an event", lambda: end in ("raise", "exc") or cn == "Routine")
                return True
            e = want("event", lambda e: e.kind == "call" and e.name == "rehearse" and e.recv == got, "the yielded event rehearsed")
            if e.raised:
                fin("fail", "the failure of the rehearsed event passed on", lambda: end in ("raise", "exc") and p.value == e.value)
                return True
            t, send = e.value[1], e.value[2]
            total = add(total, t)
            if cn == "Task":
                w = want("time", lambda e: e.kind == "write", "the rehearsal clock advanced")
                if not peq(w.value, add(w.target, t)) and not (w.aug and w.aug[0] == "+" and w.aug[1] == t):
                    # the clock may be tracked through earlier writes
                    base = [x for x in p.events[:p.index(w)] if x.kind == "write" and x.target == w.target]
                    if not (base and peq(w.value, add(base[-1].value, t))):
                        raise Bad("time", f"the clock becomes {show(w.value)} instead of advancing by the event's time", w)
    except StopIteration:
        return False


# ---------------------------------------------------------------------------
@prop("C14")
def c14(ctx: Ctx):
    prog = ctx.prog
    R = prog.cls("Routine")
    ctx.rule("C14.unwind", "an interrupt that ends or restarts the task withdraws the pending event, then carries out the cancel steps of each running routine once, innermost first; finished routines have none")
    run_protocol(ctx, {"C14.unwind": ["unwind", "cleanup", "routine", "verdict"]})
    ctx.rule("C14.end", "a routine returns its own result, passes on a failure, and ends silently when closed")
    routine_protocol(ctx, {"C14.end": ["result", "fail", "close", "advance", "wait"]})

    ctx.rule("C14.steps", "every event of the routine's cancel method is made real and waited on, in order")
    f = prog.method(R, "_run_cancel")

    class O(TaskEnv):
        def choices(self, kind, what, st):
            if kind == "call" and what.kind == "call":
                g = None
                if what.name == "next" and what.recv is None and what.args:
                    g = what.args[0]
                elif what.name in ("send", "__next__") and what.recv is not None:
                    g = what.recv
                if g is not None and call_name(g) == "cancel":
                    return [("E", value("E")), ("S0", stop(None))]
            if kind == "yield":
                return [("v", value("v"))]
            return None

    ps = ctx.paths(f, R, opaque={"cancel", "run"}, unroll=6, unroll_for=2, implicit=False, distinct=True, oracle=O(7, prog))
    cancel_call = [e for p in ps for e in p.events if e.kind == "call" and e.name == "cancel" and e.recv == SELF]

    def chk(p):
        due = []
        for e in p.events:
            if e.kind == "iter" and call_name(strip_iter(e.term)) == "cancel":
                if due:
                    return "an event of the cancel method is skipped", e.loc
                due.append(e.value)
            elif e.kind == "call" and is_env(e.value, "E"):
                if due:
                    return "an event of the cancel method is skipped", e.loc
                due.append(e.value)
            elif e.kind == "break":
                return "the cancel steps stop early", e.loc
            elif e.kind == "yield":
                v = e.value
                if not due or call_name(v) != "as_event" or v[1][1] != due[0]:
                    return f"waits on {show(v)}", e.loc
                due.pop()
        if due and p.outcome == "return":
            return "an event of the cancel method is skipped"
        if p.outcome in ("raise", "exc"):
            return f"raises {show(p.value)}"
        return None

    if not cancel_call:
        ctx.bad("C14.steps", f.qual, "the cancel method is never used", f.loc)
    else:
        ctx.each_path("C14.steps", f.qual, f, ps, chk, "cancel steps")

    # the window-get routine
    W = prog.cls("WindowedGet")
    ctx.rule("C14.window", "a windowed get repeats its request with a window after the first success, keeps each item got, and when the window closes withdraws the last request and returns the items", 2)
    f = prog.method(W, "run")
    ps = ctx.paths(f, W, unroll=3, implicit=False, distinct=True)

    def win(p):
        get = wait = None
        state = "new"
        got = []
        done = 0
        ngets = 0
        for e in p.events:
            if e.kind == "call" and e.name == "Get" and e.fn[0] == "class":
                if state not in ("new",):
                    return "makes a request while one is unfinished", e.loc
                if not e.args or e.args[0] != attr(SELF, "store"):
                    return "requests from another store", e.loc
                ga = [x for x in e.args[1:]]
                if ga != [("star", attr(SELF, "get_args"))] or e.kwargs != {"**": attr(SELF, "get_kwargs")}:
                    return "does not pass on the arguments of the request", e.loc
                get, state = e.value, "made"
                ngets += 1
            elif e.kind == "yield":
                if state != "made" or not (e.value[0] == "new" and str(e.value[3]).endswith(":Any")):
                    return f"waits on {show(e.value)}", e.loc
                c = next(x for x in p.events if x.kind == "call" and x.value == e.value and x.fn[0] == "class")
                args = []
                for a in c.args:
                    args += list(c.items(a[1]) or [a]) if a[0] == "star" else [a]
                rest = [a for a in args if a != get]
                if len(rest) != len(args) - 1:
                    return "does not wait on the request", e.loc
                if done == 0 and rest:
                    return "the window runs before the first success", e.loc
                if done > 0:
                    if len(rest) != 1 or not (rest[0][0] == "new" and str(rest[0][3]).endswith(":Wait")):
                        return "no window after the first success", e.loc
                    w = next(x for x in p.events if x.kind == "call" and x.value == rest[0])
                    if w.arg(0, "timeout") != attr(SELF, "timeout") or w.arg(1, "timeout_unit") != attr(SELF, "timeout_unit"):
                        return "the window is not the given timeout", w.loc
                    reset = next((x.pol for x in p.events if x.kind == "cond" and x.term == ("truthy", attr(SELF, "reset_window"))), None)
                    if done > 1 and reset is None:
                        return "does not ask whether the window is to be reset", e.loc
                    if done > 1 and reset is False and rest[0] != wait:
                        return "the window starts over although it is not to be reset", e.loc
                    if done > 1 and reset is True and rest[0] == wait:
                        return "the window does not start over although it is to be reset", e.loc
                    wait = rest[0]
                state = "waited"
            elif e.kind == "cond" and e.term[0] == "truthy" and call_name(e.term[1]) == "is_complete":
                if e.term[1][1][1] != get:
                    return "asks another event for completion", e.loc
                state = "got" if e.pol else "closed"
            elif e.kind == "call" and e.name == "cancel" and e.recv == get:
                if state != "closed":
                    return "withdraws a request that is not pending", e.loc
                state = "withdrawn"
            elif e.kind == "call" and e.name in ("append", "extend", "insert") and e.recv == attr(SELF, "result") or \
                    (e.kind == "write" and e.target == attr(SELF, "result")):
                if state != "got" or not contains(e.args[-1] if e.kind == "call" else e.value, lambda t: call_name(t) == "get_value" and t[1][1] == get):
                    return "keeps something that was not got", e.loc
                done += 1
                state = "new"
        if p.outcome == "cut":
            return None
        if p.outcome != "return" or state != "withdrawn":
            return f"ends ({p.outcome}) with the request {state}"
        if p.value != attr(SELF, "result") and strip_iter(p.value) != attr(SELF, "result") and p.value != p.heap.get(attr(SELF, "result")):
            return f"returns {show(p.value)}"
        return None

    ctx.each_path("C14.window", f.qual, f, ps, win, "windowed get")

    f = prog.method(W, "cancel")
    ps = ctx.paths(f, W, unroll=2, implicit=False, distinct=True)
    res, store = attr(SELF, "result"), attr(SELF, "store")

    def back(p):
        due = []
        more = False
        used = False
        for e in p.events:
            if e.kind == "call" and e.name in ("pop", "popleft") and e.recv == res:
                due.append(e.value)
                used = True
            elif e.kind == "iter" and strip_iter(e.term) == res:
                due.append(e.value)
            elif e.kind == "loop" and strip_iter(e.term) == res:
                used = True
            elif e.kind == "break":
                return "stops early", e.loc
            elif e.kind == "cond" and e.term == ("truthy", res):
                more = e.pol
                used = True
            elif e.kind == "yield":
                v = e.value
                c = next((x for x in p.events if x.kind == "call" and x.value == v and x.fn[0] == "class"), None)
                if c is None or c.name != "Put":
                    return f"waits on {show(v)}", e.loc
                if c.arg(0, "put_location") != store or not due or c.arg(1, "put_object") != due[0]:
                    return "puts something else than the next item got, or elsewhere", e.loc
                due.pop(0)
        if p.outcome == "cut":
            return None
        if p.outcome != "return":
            return f"ends with {p.outcome}"
        if due or not used:
            return "an item got is not put back"
        if more and not any(e.kind == "loop" for e in p.events):
            return "stops while items are left"
        return None

    ctx.each_path("C14.window", f.qual, f, ps, back, "windowed get cancelled")
