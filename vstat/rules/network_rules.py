"""C17 rehearsals of tasks and networks, C18 running task networks, C20 the nucleus."""
from __future__ import annotations

from ..api import Ctx, prop
from ..engine import (FALSE, NONE, SELF, TRUE, attr, call_name, contains, is_attr, last_name, show, strip_iter)
from ..model import AnalysisBroken
from .active_rules import set_ops
from .clone_rules import clone_rules
from .h import (C, P, completes, ctor_of, exc_name, facts, full_loops, has_key, isnone, map_ops, par, raises, read_of, sub, truthy)
from .script import Env, Script, env_term, exc, is_env, none, value
from .task_rules import Bad

TC = attr(SELF, "task_classes")
TL = attr(SELF, "task_links")
CUR = {n: attr(SELF, n) for n in ("_current_task_name", "_current_task_inst", "_current_task_proc")}
NAME = attr(SELF, "name")
PFO = ("glob", "constants", "PLANNING_FACTOR_OBJECT")


def class_of(fn, tc=TC):
    """The task name whose class is called, for a creation task_classes[name]()."""
    if isinstance(fn, tuple) and fn:
        if fn[0] == "sub" and fn[1] == tc:
            return fn[2]
        if fn[0] == "call" and fn[1] == attr(tc, "get") and fn[2]:
            return fn[2][0]
    return None


def default_of(t, name):
    return t == attr(sub(TL, name), "default") or (
        t[0] == "attr" and t[2] == "default" and t[1][0] == "call" and t[1][1] == attr(TL, "get") and t[1][2][:1] == (name,))


class LoopEnv(Env):
    KINDS = {"T": ("Task", "SettableEnv", "UpstageBase"), "D": ("DecisionTask", "Task"), "DN": ("DecisionTask", "Task"),
             "Q": (), "P": ("Process",), "A": ()}

    def __init__(self, depth, prog, fail=True):
        super().__init__(depth, prog)
        self.fail = fail

    def cond(self, key, st):
        if key[0] == "truthy" and key[1][0] == "attr" and key[1][2] == "DO_NOT_HOLD" and is_env(key[1][1]):
            return key[1][1][1] == "DN"
        if key[0] == "isinst" and key[2] == ("builtin", "str"):
            return True
        if key[0] == "truthy" and is_env(key[1], "Q"):
            return True
        if key[0] == "isinst" and is_env(key[1], "T") and "DecisionTask" in show(key[2]):
            return False
        return super().cond(key, st)

    def choices(self, kind, what, st):
        if kind == "call":
            if class_of(what.fn) is not None:
                return [("T", value("T")), ("D", value("D")), ("DN", value("DN"))]
            if what.name == "get_next_task":
                return [("Q", value("Q")), ("n", none())]
            if what.name == "run" and what.recv is not None and is_env(what.recv):
                return [("P", value("P"))]
            if what.name == "rehearse" and what.recv is not None and is_env(what.recv):
                return [("A", value("A"))] + ([("x", exc("UserError", "x"))] if self.fail else [])
            if what.name == "clone":
                return [("A", value("A"))]
            return None
        if kind == "yield":
            return [("n", none()), ("x", exc("UserError", "x"))]
        return None


def play_loop(p, actor, init):
    """One path of TaskNetwork.loop against the order of a network."""
    st = {k: None for k in CUR}
    owner = {v: k for k, v in CUR.items()}
    names = {}
    refs, named, begun, made = set(), set(), [], {}
    cur = None          # the name chosen for the task to run next
    phase = "ask"       # ask -> go -> (running) -> ask
    first = True
    asked = None        # name after which the next is chosen
    ran = 0
    pend = None

    def none_of(t):
        return next((e.pol for e in reversed(p.events) if e.kind == "cond" and e.term == isnone(t)), None)

    for i, e in enumerate(p.events):
        if e.kind == "write" and e.target in owner:
            st[owner[e.target]] = e.value
            continue
        if e.kind == "call" and not e.raised:
            if e.name == "get_next_task":
                if e.recv != actor or e.args[:1] != (NAME,):
                    raise Bad("queue", "the queue of another actor or network is asked", e)
                if phase == "go" and pend is not None:
                    continue    # asking again changes nothing
                phase, pend = "go", e.value
                if e.value == NONE:
                    cur = ("default",)
                else:
                    cur = e.value
                continue
            n = class_of(e.fn)
            if n is not None:
                made[e.value] = n
                continue
            if e.name == "_begin_next_task":
                if e.recv != actor or e.args[:1] != (NAME,):
                    raise Bad("begin", "another actor or network begins the task", e)
                begun.append((i, e.args[1]))
                continue
            if e.name == "_set_network_name" and is_env(e.recv or NONE) and e.args == (NAME,):
                named.add(e.recv)
                continue
            if e.name == "_set_network_ref" and is_env(e.recv or NONE) and e.args == (SELF,):
                refs.add(e.recv)
                continue
            if e.name in ("run", "run_skip") and is_env(e.recv or NONE):
                it = e.recv
                nm = made.get(it)
                if phase != "go":
                    raise Bad("order", "a task runs without asking for the next one", e)
                if cur == ("default",):
                    want_default = nm == init if first else default_of(nm, asked)
                    if not want_default:
                        raise Bad("order", f"the task run is {show(nm)} although the queue is empty", e)
                    if none_of(nm) is not False:
                        raise Bad("order", "a missing default is not refused", e)
                elif nm != cur:
                    raise Bad("order", f"the task run is {show(nm)} instead of the queue's first", e)
                if [b[1] for b in begun] != [nm]:
                    raise Bad("begin", "the task is not taken from the queue exactly once before it runs", e)
                if it not in named or it not in refs:
                    raise Bad("begin", "the task does not know its network", e)
                if st["_current_task_name"] != nm or st["_current_task_inst"] != it:
                    raise Bad("report", "the task reported as running is another one", e)
                if e.arg(None, "actor") != actor:
                    raise Bad("order", "the task runs on another actor", e)
                hold = it[1] != "DN"
                if hold != (e.name == "run"):
                    raise Bad("hold", f"a task that {'holds' if hold else 'does not hold'} is run by {e.name}", e)
                if not hold:
                    if st["_current_task_proc"] != NONE:
                        raise Bad("report", "an ended task is reported while the decision is made", e)
                    asked, phase, first, begun, pend = nm, "ask", False, [], None
                else:
                    phase, pend = "running", (e, nm)
                ran += 1
                continue
        if e.kind in ("yield", "yieldfrom"):
            if phase != "running" or e.value != pend[0].value and e.term != pend[0].value:
                raise Bad("order", "the network waits on something other than its task", e)
            if st["_current_task_proc"] != pend[0].value:
                raise Bad("report", "the process reported as running is another one", e)
            asked, phase, first, begun, pend = pend[1], "ask", False, [], None
    # endings
    if p.outcome == "cut":
        return ran
    ex = next((e for e in reversed(p.events) if e.kind in ("resume", "call") and e.raised), None)
    if p.outcome in ("raise", "exc"):
        if is_env(p.value) or p.value[0] == "intr":
            return ran      # the failure of the task
        if exc_name(p.value) == "AssertionError":
            return ran
        if phase == "go" and cur == ("default",):
            return ran      # nothing to follow
        if phase == "go" and begun:
            return ran
        raise Bad("order", f"the network ends with {show(p.value)}", None)
    raise Bad("order", f"the network ends ({p.outcome}) although a task was to follow", None)


@prop("C18")
def c18(ctx: Ctx):
    prog = ctx.prog
    N = prog.cls("TaskNetwork")
    A = prog.cls("Actor")
    deep = ctx.tier == "thorough"
    rules = {"order": "after each task the queue's first entry runs, else the default of the task that just ran (first: the initial task); a missing one raises",
             "begin": "the task is taken from the actor's queue once before it runs and knows its network",
             "report": "while a task runs its name, instance and process are the ones reported, and no process while an instant decision is made",
             "hold": "decision tasks that do not hold are run at once, all others as a process that the network waits for",
             "queue": "the queue asked is the one of this network on this actor"}
    for k, t in rules.items():
        ctx.rule(f"C18.{k}", t)
    f = prog.method(N, "loop")
    actor, init = P("actor"), P("init_task_name")
    OPQ = {"run", "run_skip", "get_next_task", "_begin_next_task", "_set_network_name", "_set_network_ref", "_clear_task"}
    ps = ctx.paths(f, N, oracle=LoopEnv(12 if deep else 8, prog), unroll=9, opaque=OPQ, implicit=False, max_paths=200000)
    bad, ran = {}, 0
    for p in ps:
        try:
            ran = max(ran, play_loop(p, actor, init))
        except Bad as b:
            bad.setdefault(b.rule, (b.msg, b.ev, p))
    if ran < 2 and not bad:
        raise AnalysisBroken("no path of TaskNetwork.loop runs two tasks")
    for k in rules:
        if k in bad:
            m, e, p = bad[k]
            ctx.bad(f"C18.{k}", "TaskNetwork.loop", m, e.loc if e is not None else f.loc, p)
        else:
            ctx.ok(f"C18.{k}", "TaskNetwork.loop")
    # allowed
    ctx.rule("C18.allowed", "a task that is not allowed after the one that just ran is refused")

    def seen_allowed(p):
        runs = [e for e in p.events if e.kind == "call" and e.name == "_begin_next_task"]
        for e in runs[1:]:
            if not any(k[0] == "in" and k[1] == e.args[1] and contains(k[2], lambda x: x[0] == "attr" and x[2] == "allowed") and v
                       for k, v in facts(p, e).items()):
                return "a queued or default task runs without asking whether it is allowed", e.loc
        return None

    ctx.each_path("C18.allowed", "TaskNetwork.loop", f, ps, seen_allowed, "the next task")
    ctx.rule("C18.feasible", "a task can follow another exactly if it is among the other's allowed ones")
    g = prog.method(N, "is_feasible")
    c, n = par(g, 0), par(g, 1)
    al = attr(sub(TL, c), "allowed")

    def fz(p):
        if not completes(p):
            return None
        v = p.value
        if v in (TRUE, FALSE):
            d = facts(p).get(("in", n, al))
            return None if d is not None and d == (v == TRUE) else f"answers {v[1]}"
        return None if v in (("in", n, al), ("cmp", "in", n, al)) else f"answers {show(v)}"

    ctx.each_path("C18.feasible", "is_feasible", g, ctx.paths(g, N, implicit=False), fz, "feasibility")

    # reported and interrupted processes
    ctx.rule("C18.running", "the running task of a network is its current name and process, and none when nothing runs", 2)
    NETS = attr(SELF, "_task_networks")
    g = prog.method(A, "get_running_task")
    nn = par(g, 0)
    net = sub(NETS, nn)

    def rt(p):
        fs = facts(p)
        isin = next((v for k, v in fs.items() if k[0] == "in" and k[1] == nn and strip_iter(k[2]) == NETS), None)
        proc = attr(net, "_current_task_proc")
        if not completes(p):
            return "a running task is refused" if fs.get(isnone(proc)) is False and isin and exc_name(p.value) != "AssertionError" else None
        if isin is False:
            return "an unknown network is silent"
        if fs.get(isnone(proc)):
            return None if p.value == NONE else f"answers {show(p.value)} although nothing runs"
        e = next((e for e in p.events if e.kind == "call" and e.value == p.value and ctor_of(e, "TaskData")), None)
        if e is None:
            return f"answers {show(p.value)}"
        if e.arg(0, "name") != attr(net, "_current_task_name") or e.arg(1, "process") != proc:
            return "answers another name or process", e.loc
        return None

    ctx.each_path("C18.running", "get_running_task", g, ctx.paths(g, A, implicit=False), rt, "the running task")
    g = prog.method(A, "get_running_tasks")
    n1, n2 = C("one"), C("two")
    N1, N2 = env_term("N", 1), env_term("N", 2)

    def rts(p):
        if not completes(p):
            return None if exc_name(p.value) == "AssertionError" else f"ends with {show(p.value)}"
        from .h import pairs
        got = pairs(p, p.value)
        if got is None:
            return f"answers {show(p.value)}"
        want = []
        for k, nt in ((n1, N1), (n2, N2)):
            v = facts(p).get(isnone(attr(nt, "_current_task_proc")))
            if v is None:
                return "does not ask which networks run a task"
            if not v:
                want.append((k, nt))
        if [k for k, _ in got] != [k for k, _ in want]:
            return f"reports {[show(k) for k, _ in got]}"
        for (k, v), (_, nt) in zip(got, want):
            e = next((e for e in p.events if e.kind == "call" and e.value == v and ctor_of(e, "TaskData")), None)
            if e is None or e.arg(0, "name") != attr(nt, "_current_task_name") or e.arg(1, "process") != attr(nt, "_current_task_proc"):
                return "reports another name or process"
        return None

    DN = ("new", ("probe",), "dict", "nets")
    ps3 = ctx.paths(g, A, implicit=False, heap={NETS: DN, ("items", DN): (("tuple", n1, N1), ("tuple", n2, N2))})
    ctx.each_path("C18.running", "get_running_tasks", g, ps3, rts, "the running tasks")
    ctx.rule("C18.interrupt", "interrupting a network interrupts the process of its running task with the arguments given, and raises when nothing runs")
    g = prog.method(A, "interrupt_network")
    ps4 = ctx.paths(g, A, opaque={"get_running_task"}, implicit=False)

    def ip(p):
        q = next((e for e in p.events if e.kind == "call" and e.name == "get_running_task"), None)
        if q is None or q.recv != SELF or q.args != (par(g, 0),):
            return "does not ask for the running task of the network"
        intr = [e for e in p.events if e.kind == "call" and e.name == "interrupt"]
        if facts(p).get(isnone(q.value)):
            return None if p.outcome == "raise" and not intr else "nothing runs, but no error is raised"
        kw = g.node.args.kwarg
        if len(intr) != 1 or intr[0].recv != attr(q.value, "process") or (kw and intr[0].kwargs != {"**": P(kw.arg)}):
            return "the running process is not interrupted with the arguments given"
        return None

    ctx.each_path("C18.interrupt", "interrupt_network", g, ps4, ip, "interrupting")

    # decision and terminal tasks
    D = prog.cls("DecisionTask")
    ctx.rule("C18.decide", "a decision task makes its decision once, at once, on the actor, and lets no time pass", 2)
    for nm in ("run", "run_skip"):
        g = prog.method(D, nm)

        def dp(p, nm=nm):
            if p.outcome in ("raise", "exc"):
                return None
            d = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("make_decision", "rehearse_decision")]
            y = [(i, e) for i, e in enumerate(p.events) if e.kind in ("yield", "yieldfrom")]
            if len(d) != 1 or p.events[d[0]].name != "make_decision" or p.events[d[0]].recv != SELF or p.events[d[0]].arg(None, "actor") != P("actor"):
                return "the decision is not made exactly once on the actor"
            if nm == "run_skip" and y:
                return "waits although the task does not hold", y[0][1].loc
            if nm == "run":
                if any(i < d[0] for i, _ in y):
                    return "waits before the decision is made"
                for _, e in y:
                    t = e.value if e.value is not None else e.term
                    c = next((x for x in p.events if x.kind == "call" and x.value in (e.value, e.term) and x.name == "timeout"), None)
                    if c is None or (c.args[0] if c.args else c.arg(None, "delay")) not in (C(0), C(0.0)):
                        return "lets time pass", e.loc
            return None

        ctx.each_path("C18.decide", f"DecisionTask.{nm}", g, ctx.paths(g, D, implicit=False, opaque={"make_decision", "rehearse_decision"}), dp, "deciding")
    T = prog.cls("TerminalTask")
    ctx.rule("C18.terminal", "a terminal task cannot be interrupted or end in a real run: it waits on an event of its own and raises when that completes", 2)
    g = prog.method(T, "on_interrupt")
    ctx.each_path("C18.terminal", "TerminalTask.on_interrupt", g, ctx.paths(g, T, implicit=False),
                  lambda p: None if p.outcome == "raise" else "an interrupt is accepted", "interrupting")
    g = prog.method(T, "task")

    class TermEnv(Env):
        def choices(self, kind, what, st):
            return [("v", value("v")), ("n", none())] if kind == "yield" else None

        def cond(self, key, st):
            if key == isnone(PFO):
                return False
            if key[0] in ("is", "eq") and any(is_env(x, "v") or x == NONE for x in key[1:]) and "PLANNING_FACTOR_OBJECT" in show(key):
                return False
            return super().cond(key, st)

    def tt(p):
        y = [e for e in p.events if e.kind in ("yield", "yieldfrom")]
        if len(y) != 1:
            return "does not wait once" if completes(p) or y else None
        t = y[0].value
        c = next((e for e in p.events if e.kind == "call" and e.value == t), None)
        if c is None or not ctor_of(c, "Event"):
            return f"waits on {show(t)}", y[0].loc
        return None if p.outcome == "raise" else "ends when its event completes in a real run"

    ctx.each_path("C18.terminal", "TerminalTask.task", g, ctx.paths(g, T, oracle=TermEnv(3, prog), implicit=False), tt, "the terminal task")

    # factories
    ctx.rule("C18.factory", "the ready-made networks link their tasks as named: one looping, one then terminal, in order then terminal, in order then from the start", 4)
    F = prog.cls("TaskNetworkFactory")
    K1, K2, K3 = env_term("K", 1), env_term("K", 2), env_term("K", 3)

    def nameof(k):
        return attr(k, "__name__")

    def check_factory(fname, bind, classes, order, term):
        g = prog.method(F, fname)
        ps = ctx.paths(g, F, implicit=False, unroll_for=4, unroll=4, **bind(g))

        def fp(p):
            from .h import pairs
            if p.outcome != "return":
                return f"ends with {p.outcome} {show(p.value)}"
            e = next((e for e in p.events if e.kind == "call" and e.value == p.value), None)
            if e is None or len(e.args) + len(e.kwargs) != 3:
                return f"returns {show(p.value)}"
            cl, ln = e.arg(1, "task_classes"), e.arg(2, "task_links")
            if e.arg(0, "name") != par(g, 0):
                return "another name is given"
            cps, lps = pairs(p, cl), pairs(p, ln)
            if cps is None or lps is None:
                return "classes or links are not literal"
            want = {nameof(k): k for k in classes}
            got = dict(cps)
            extra = [(k, v) for k, v in got.items() if k not in want]
            if any(got.get(k) != v for k, v in want.items()) or len(extra) != (1 if term else 0):
                return f"the classes are {[show(k) for k in got]}"
            end = extra[0][0] if term else None
            if term and not (extra[0][1][0] == "class" and extra[0][1][1].name == "TerminalTask"):
                return "the network does not end in a terminal task"
            links = {k: v for k, v in lps}
            wl = {nameof(a): (end if b is None else nameof(b)) for a, b in order}
            if set(links) - {end} != set(wl):
                return f"links are given for {[show(k) for k in links]}"
            for k, nx in wl.items():
                l = next((x for x in p.events if x.kind == "call" and x.value == links[k] and ctor_of(x, "TaskLinks")), None)
                if l is None:
                    return "a link is not a TaskLinks"
                al = l.arg(1, "allowed")
                its = l.items(al)
                if l.arg(0, "default") != nx or its != (nx,):
                    return f"{show(k)} is followed by {show(l.arg(0, 'default'))} / {show(al)}", l.loc
            return None

        ctx.each_path("C18.factory", fname, g, ps, fp, "the network")

    def b1(g):
        return {"bind": {par(g, 1)[1]: K1}}

    def b2(g):
        return {"bind": {par(g, 1)[1]: ("tuple", K1, K2, K3)}}

    check_factory("from_single_looping", b1, [K1], [(K1, K1)], False)
    check_factory("from_single_terminating", b1, [K1], [(K1, None)], True)
    check_factory("from_ordered_terminating", b2, [K1, K2, K3], [(K1, K2), (K2, K3), (K3, None)], True)
    check_factory("from_ordered_loop", b2, [K1, K2, K3], [(K1, K2), (K2, K3), (K3, K1)], False)


# ---------------------------------------------------------------- C20 the nucleus
def elem_of(t):
    """The collection a per-iteration element stems from, for ("elem", coll)."""
    return strip_iter(t[1]) if isinstance(t, tuple) and t and t[0] == "elem" else None


@prop("C20")
def c20(ctx: Ctx):
    prog = ctx.prog
    K = prog.cls("TaskNetworkNucleus")
    A = prog.cls("Actor")
    ACT, SM, NM = attr(SELF, "_actor"), attr(SELF, "_state_map"), attr(SELF, "_network_map")
    NETS = attr(ACT, "_task_networks")

    ctx.rule("C20.attach", "a nucleus becomes its actor's only state listener, or raises when there is one")
    g = prog.method(K, "__init__")
    a = par(g, 0)

    def at(p):
        w = [e for e in p.events if e.kind == "write" and e.target == attr(a, "_state_listener") and not e.raised]
        d = facts(p).get(isnone(attr(a, "_state_listener")), None)
        if d is None:
            d = next((not v for k, v in facts(p).items() if k == truthy(attr(a, "_state_listener"))), None)
        if d is False:
            return None if not completes(p) and not w else "a second nucleus is accepted"
        if not completes(p):
            return "the first nucleus is refused"
        if d is None:
            return "does not ask for a nucleus already attached"
        if [e.value for e in w] != [SELF]:
            return "is not attached as the actor's listener"
        if p.heap.get(ACT) != a:
            return "belongs to another actor"
        return None

    ctx.each_path("C20.attach", "TaskNetworkNucleus.__init__", g, ctx.paths(g, K, implicit=False), at, "attaching")

    def name_of(p, t, n):
        """n is the network's name for parameter t on this path."""
        return n == t or (n == attr(t, "name") and any(k[0] == "isinst" and k[1] == t and v == ("str" not in show(k[2]))
                                                         for k, v in facts(p).items()))

    ctx.rule("C20.add", "adding a network registers it under each watched state, once, and refuses a network the actor does not have")
    g = prog.method(K, "add_network")
    t, ws = par(g, 0), par(g, 1)

    def known(p, t):
        return next((v for k, v in facts(p).items() if k[0] == "in" and strip_iter(k[2]) == NETS and name_of(p, t, k[1])), None)

    def ad(p):
        so, no = set_ops(p, SM), set_ops(p, NM)
        k = known(p, t)
        if k is None:
            return "does not ask whether the actor has the network"
        if not k:
            return None if p.outcome == "raise" and not so and not no else "a network the actor does not have is accepted"
        if not completes(p):
            return "a network of the actor is refused"
        its = [e for e in p.events if e.kind == "iter"]
        if not any(strip_iter(e.term) == ws for e in p.events if e.kind == "loop"):
            return "not every watched state is registered"
        if not full_loops(p, lambda x: True):
            return "not every watched state is registered"
        if not its:
            return "registers something else" if so else None
        ks = {("elem", ws)} | {("elem", x.term) for x in its}
        if [o[0] for o in so] != ["add"] or so[0][1] not in ks or not name_of(p, t, so[0][2]):
            return "the network is not put under the state"
        if [o[0] for o in no] != ["add"] or not name_of(p, t, no[0][1]) or no[0][2] not in ks:
            return "the state is not put under the network"
        return None

    ctx.each_path("C20.add", "add_network", g, ctx.paths(g, K, implicit=False), ad, "adding")

    ctx.rule("C20.remove", "removing a network takes it from every state it watched and forgets it")
    g = prog.method(K, "remove_network")
    t2 = par(g, 0)

    def rm(p):
        so, no = set_ops(p, SM), map_ops(p, NM)
        k = known(p, t2)
        if k is False:
            return None if not so and not no else "changes something for a network the actor does not have"
        if not completes(p):
            if exc_name(p.value) == "KeyError" or has_no(p):
                return None
            return "a network of the actor is refused"
        cols = [e for e in p.events if e.kind == "loop"]
        got = [e for e in cols if watched(p, e.term) or strip_iter(e.term) == SM or
               (e.term[0] == "call" and e.term[1][0] == "attr" and e.term[1][1] == SM)]
        if not got and not has_no(p):
            return "does not go through the states the network watches"
        if not full_loops(p, lambda x: True):
            return "not every watched state is cleared"
        its = [e for e in p.events if e.kind == "iter"]
        for i in its:
            el = ("elem", i.term)
            els = {el, ("elem", strip_iter(i.term))}
            if watched(p, i.term):
                if not [o for o in so if o[0] == "remove" and o[1] in els and name_of(p, t2, o[2])]:
                    return "a watched state keeps the network", i.loc
        if any(o[0] != "remove" or not name_of(p, t2, o[2]) for o in so):
            return "another network is changed"
        dele = [o for o in no if o[0] in ("remove", "pop", "popdef") and name_of(p, t2, o[1])]
        if len(no) != len(dele):
            return "another network is forgotten"
        if not dele and not has_no(p):
            return "the network is not forgotten"
        return None

    def has_no(p):
        return any(k[0] == "in" and strip_iter(k[2]) == NM and not v for k, v in facts(p).items())

    def watched(p, c):
        c = strip_iter(c)
        if c[0] == "sub" and c[1] == NM:
            return name_of(p, t2, c[2])
        return c[0] == "call" and c[1][0] == "attr" and c[1][1] == NM and c[1][2] in ("get", "pop", "setdefault") and name_of(p, t2, c[2][0])

    ctx.each_path("C20.remove", "remove_network", g, ctx.paths(g, K, implicit=False), rm, "removing")

    ctx.rule("C20.send", "a change interrupts, once each, the living processes of the networks registered for that state, with its name and value, and no other")
    g = prog.method(K, "send_change")
    s, v = par(g, 0), par(g, 1)

    def mine(c):
        c = strip_iter(c)
        if c[0] == "sub" and c[1] == SM:
            return c[2] == s
        return c[0] == "call" and c[1] == attr(SM, "get") and c[2][0] == s

    def sd(p):
        ops = set_ops(p, SM)
        if ops:
            return "sending a change alters who watches", ops[0][3].loc
        intr = [e for e in p.events if e.kind == "call" and e.name == "interrupt"]
        loops = [e for e in p.events if e.kind == "loop" and mine(e.term)]
        no = any((k[0] == "in" and k[1] == s and strip_iter(k[2]) == SM and not q) or (k[0] == "truthy" and mine(k[1]) and not q)
                 for k, q in facts(p).items())
        if no:
            return None if not intr else "an unwatched state interrupts something"
        if not loops:
            return "does not go through the networks watching the state"
        its = [e for e in p.events if e.kind == "iter" and mine(e.term)]
        if completes(p) and not full_loops(p, mine):
            return "not every network is told"
        if not its:
            return "interrupts something else" if intr else None
        el = {("elem", e.term) for e in its} | {("elem", strip_iter(e.term)) for e in its}

        def net(x):
            return any(read_of(x, NETS, n) for n in el)

        def proc(x):
            return x[0] == "attr" and x[2] == "_current_task_proc" and net(x[1])

        fs = facts(p)
        if not completes(p):
            gone = any((k[0] == "isnone" and net(k[1]) and q) or (k[0] == "in" and k[1] in el and not q) for k, q in fs.items())
            return None if gone and not intr else f"raises {show(p.value)}"
        alive = [q for k, q in fs.items() if k[0] == "truthy" and k[1][0] == "attr" and k[1][2] == "is_alive" and proc(k[1][1])]
        isn = [q for k, q in fs.items() if k[0] == "isnone" and proc(k[1])] + [not q for k, q in fs.items() if k[0] == "truthy" and proc(k[1])]
        skip = True in isn or False in alive
        gone = any((k[0] == "isnone" and net(k[1]) and q) or (k[0] == "in" and k[1] in el and not q) for k, q in fs.items())
        if skip or gone:
            return None if not intr else "a network that runs nothing is interrupted"
        if not (False in isn and True in alive):
            return "does not ask whether the network has a living process"
        if len(intr) != 1 or not proc(intr[0].recv):
            return f"the network's process is interrupted {len(intr)} times"
        c = intr[0].arg(0, "cause")
        mk = next((e for e in p.events if e.kind == "call" and e.value == c and ctor_of(e, "NucleusInterrupt")), None)
        if mk is None or mk.arg(0, "name") != s or mk.arg(1, "value") != v:
            return f"the cause is {show(c)}", intr[0].loc
        return None

    ps = ctx.paths(g, K, implicit=False)
    if not any(e.kind == "call" and e.name == "interrupt" for p in ps for e in p.events):
        ctx.bad("C20.send", "send_change", "no path interrupts a network", g.loc)
    ctx.each_path("C20.send", "send_change", g, ps, sd, "telling")

    ctx.rule("C20.cause", "a nucleus interrupt carries the state's name and value as given")
    g = prog.method(prog.cls("NucleusInterrupt"), "__init__")
    ctx.each_path("C20.cause", "NucleusInterrupt", g, ctx.paths(g, implicit=False),
                  lambda p: None if p.heap.get(attr(SELF, "state_name")) == par(g, 0) and p.heap.get(attr(SELF, "value")) == par(g, 1)
                  else "keeps something else", "the cause")
    ctx.rule("C20.tell", "each assignment of a state tells the actor's nucleus, if there is one, once")
    S = prog.cls("State")
    g = prog.method(S, "__set__")
    inst, val = par(g, 0), par(g, 1)

    def tell(p):
        if not completes(p):
            return None
        L = attr(inst, "_state_listener")
        has = next((not v for k, v in facts(p).items() if k == isnone(L)), None)
        if has is None:
            has = facts(p).get(truthy(L))
        got = [e for e in p.events if e.kind == "call" and e.name == "send_change" and e.recv == L]
        if not has:
            return None if has is False and not got else "does not ask for a nucleus"
        if len(got) != 1 or got[0].args[:2] != (attr(SELF, "name"), val):
            return f"the nucleus is told {len(got)} times, or something else"
        return None

    ctx.each_path("C20.tell", "State.__set__", g, ctx.paths(g, S, implicit=False, opaque={"_do_record"}), tell, "an assignment")


# ---------------------------------------------------------------- C17 rehearsals
NEW = attr(SELF, "_new_env")


def rooted(t, root):
    """t is an attribute or item (of an attribute or item ...) of root."""
    while isinstance(t, tuple) and len(t) == 3 and t[0] in ("attr", "sub"):
        t = t[1]
        if t == root:
            return True
    return False


MUTATES = {"append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "add", "discard", "popitem", "sort",
           "reverse", "succeed", "interrupt", "put", "get", "request", "release", "__setattr__", "__setitem__"}


class RehTask(Env):
    """Driving one task's rehearsal: the clone is A, the body ends, fails or hands over events."""
    KINDS = {"E": ("BaseEvent", "SettableEnv", "UpstageBase"), "A": ("Actor",), "M": ("MockEnvironment",)}

    def choices(self, kind, what, st):
        from .task_rules import advance_of
        if kind != "call":
            return None
        if what.name == "clone":
            return [("A", value("A"))]
        if advance_of(what) is not None:
            return [("E", value("E")), ("S", exc("StopIteration", "s", value=NONE)), ("X", exc("UserError", "x"))]
        if what.name == "rehearse" and what.recv is not None and is_env(what.recv):
            return [("v", ("value", lambda k, s: ("tuple", env_term("t", k), env_term("v", k)))), ("f", exc("UserError", "f"))]
        if what.name == "rehearse_decision":
            return [("n", none()), ("f", exc("UserError", "f"))]
        return None

    def cond(self, key, st):
        if key[0] == "isinst" and last_name(key[2]) == "MockEnvironment":
            x = key[1]
            if is_env(x):
                return x[1] == "M"
            if x[0] == "new":
                return last_name_of_new(x) == "MockEnvironment"
            if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "get":
                return False
        return super().cond(key, st)


def last_name_of_new(t):
    return str(t[3]).split(":")[-1].split(".")[-1]


class RehNet(LoopEnv):
    KINDS = {"T": ("Task", "SettableEnv", "UpstageBase"), "Q": (), "A": ()}

    def choices(self, kind, what, st):
        if kind == "call" and class_of(what.fn) is not None:
            return [("T", value("T"))]
        return super().choices(kind, what, st)

    def cond(self, key, st):
        if key[0] == "eq" and key[1][0] == "const" and key[2][0] == "const":
            return key[1] == key[2]
        return super().cond(key, st)


def play_rehearsal(p, actor, names, end, know):
    """One path of a network's rehearsal against the order promised."""
    cur = None
    named, made = set(), {}
    clones, ran = 0, []
    asked = None        # ("Q", term) | ("default", name): choice after the list
    popped = True
    i = 0
    n = len(names)
    over = False

    def eq_fact(a, b, upto=None):
        r = None
        for e in p.events:
            if e is upto:
                break
            if e.kind == "cond" and e.term[0] in ("eq", "is") and {e.term[1], e.term[2]} == {a, b}:
                r = e.pol
        if r is None and a[0] == "const" and b[0] == "const":
            return a == b
        return r

    def next_names():
        """What may be rehearsed now (i tasks done): a test on the name."""
        if i < n:
            return lambda nm: nm == names[i]
        if asked is not None and asked[0] == "Q":
            return lambda nm: nm == asked[1]
        return lambda nm: asked is not None and bool(ran) and default_of(nm, ran[-1])

    for e in p.events:
        if e.kind != "call" or e.raised and e.name != "rehearse":
            continue
        if e.name == "clone":
            clones += 1
            if e.recv != actor or clones > 1:
                raise Bad("clone", "the actor is not cloned exactly once", e)
            k = e.arg(1, "knowledge")
            if k != know and not (k and k[0] == "new" and know == NONE):
                raise Bad("clone", "the knowledge given is not passed to the clone", e)
            cur = e.value
            continue
        nm = class_of(e.fn)
        if nm is not None:
            made[e.value] = nm
            continue
        if e.name == "_set_network_name" and e.args == (NAME,):
            named.add(e.recv)
            continue
        if e.name == "get_next_task":
            if e.recv != cur or e.args[:1] != (NAME,):
                raise Bad("order", "the queue of another actor or network is asked", e)
            if i < n or end is None:
                raise Bad("order", "the queue is asked although the list of tasks decides", e)
            asked = ("Q", e.value) if e.value != NONE else ("default",)
            popped = e.value == NONE
            continue
        if e.name in ("_clear_task", "_begin_next_task"):
            if e.recv != cur or e.args[:1] != (NAME,):
                raise Bad("order", "another queue is shortened", e)
            if asked is None or asked[0] != "Q" or popped:
                raise Bad("order", "the queue is shortened without a task taken from it", e)
            popped = True
            continue
        if e.name in ("run", "run_skip", "make_decision"):
            raise Bad("order", f"{e.name} is called in a rehearsal", e)
        if e.name == "rehearse":
            it = made.get(e.recv)
            if it is None:
                raise Bad("order", "something other than a task of the network is rehearsed", e)
            if not next_names()(it):
                raise Bad("order", f"{show(it)} is rehearsed as number {i + 1}", e)
            if not popped:
                raise Bad("order", "a queued task is rehearsed without taking it from the queue", e)
            if end is not None and eq_fact(it, end, e) is not False:
                raise Bad("end", "a task is rehearsed without asking whether it is the end task", e)
            if e.recv not in named:
                raise Bad("order", "the task does not know its network", e)
            if e.arg(None, "actor") != cur or e.arg(None, "cloned_actor") != TRUE:
                raise Bad("clone", "the rehearsal does not work on the clone of the previous task", e)
            if 0 < i < n:
                ok = next((v for k, v in facts(p, e).items() if k[0] == "in" and k[1] == it and k[2] == attr(sub(TL, ran[-1]), "allowed")), None)
                if ok is not True:
                    raise Bad("allowed", "a task in the list is rehearsed without being allowed after the one before", e)
            ran.append(it)
            i += 1
            asked = None
            if e.raised:
                over = True
            else:
                cur = e.value
    if p.outcome == "cut":
        return len(ran)
    if p.outcome == "return":
        if p.value != cur or cur is None:
            raise Bad("clone", f"returns {show(p.value)} instead of the rehearsed clone")
        if over:
            raise Bad("order", "the failure of a task is swallowed")
        if i < n:
            nx = names[i]
        elif end is None:
            return len(ran)
        elif asked is None:
            raise Bad("end", "the rehearsal ends before the end task")
        else:
            nx = asked[1] if asked[0] == "Q" else attr(sub(TL, ran[-1]), "default")
        if end is None or eq_fact(nx, end) is not True:
            raise Bad("end", "the rehearsal ends before its end")
        return len(ran)
    if over:
        if p.value[0] != "intr":
            raise Bad("order", "the failure of a task is replaced")
        return len(ran)
    if i < n and ran:
        if any(k[0] == "in" and k[1] == names[i] and k[2] == attr(sub(TL, ran[-1]), "allowed") and not v for k, v in facts(p).items()):
            return len(ran)
    if i >= n and asked == ("default",):
        if any(v and k[0] == "isnone" and default_of(k[1], ran[-1]) for k, v in facts(p).items()):
            return len(ran)
    raise Bad("order", f"the rehearsal fails with {show(p.value)}")


@prop("C17")
def c17(ctx: Ctx):
    prog = ctx.prog
    T, N, A, D = prog.cls("Task"), prog.cls("TaskNetwork"), prog.cls("Actor"), prog.cls("DecisionTask")
    deep = ctx.tier == "thorough"
    clone_rules(ctx, "C17.clone")

    # one task
    rules = {"clone": "a rehearsal works on one clone of the actor (or on the given clone) in its mock clock, and returns it",
             "restore": "however a rehearsal ends, its task has the environment it had before and is no longer rehearsing",
             "real": "a rehearsal changes nothing of the actor and runs no real decision",
             "mock": "a task is rehearsed only in a mock clock starting at the current time"}
    for k, t in rules.items():
        ctx.rule(f"C17.{k}", t, 2 if k != "mock" else 1)
    for K, body in ((T, "task"), (D, "rehearse_decision")):
        f = prog.method(K, "rehearse")
        for start in (NONE, env_term("M", 0)):
            actor, cloned = P("actor"), P("cloned_actor")
            kn = P("knowledge")
            ps = ctx.paths(f, K, oracle=RehTask(5 if deep else 4, prog), unroll=5, implicit=False, distinct=True, heap={NEW: start}, inline={"base:SettableEnv.env", "base:UpstageBase.env"},
                           opaque={"clone", "task", "rehearse_decision", "make_decision", "run", "run_skip"})
            nb = 0

            def one(p, start=start, body=body):
                nonlocal nb
                cl = [e for e in p.events if e.kind == "call" and e.name == "clone"]
                given = next((v for k, v in facts(p).items() if k == truthy(cloned)), None)
                if given is None and cl:
                    return "clone", "a given clone is cloned again"
                if given is not None and len(cl) != (0 if given else 1):
                    return "clone", f"the actor is cloned {len(cl)} times"
                if given is None and not cl and (completes(p) or any(e.kind == "call" and e.name == body for e in p.events)):
                    return "clone", "the real actor is not cloned"
                under = cl[0].value if cl else actor
                if cl:
                    e = cl[0]
                    if e.recv != actor:
                        return "clone", "another actor is cloned"
                    k = e.arg(1, "knowledge")
                    d = facts(p).get(isnone(kn))
                    if k != kn and not (k is not None and k[0] == "new" and k[2] == "dict" and d):
                        if not (k is not None and k[0] == "boolop"):
                            return "clone", "the knowledge given is not passed to the clone"
                    ne = e.arg(0, "new_env")
                    if ne is not None and ne != NONE:
                        mk = next((x for x in p.events if x.kind == "call" and x.value == ne and ctor_of(x, "MockEnvironment")), None)
                        if mk is None:
                            return "mock", "the clone's clock is not a mock one"
                        t = mk.arg(0, "now")
                        want = attr(start, "now") if start != NONE else None
                        if want is not None and t != want or want is None and not (is_attr(t, "now") and t[1][0] == "call" and last_name(t[1][1]) == "get"):
                            return "mock", f"the mock clock starts at {show(t)}"
                bodies = [e for e in p.events if e.kind == "call" and e.name == body and e.recv == SELF]
                for e in p.events:
                    if e.kind == "call" and e.name in ("make_decision", "run", "run_skip"):
                        return "real", f"{e.name} is called in a rehearsal", e.loc
                if len(bodies) > 1:
                    return "clone", "the body is rehearsed more than once"
                if bodies:
                    nb += 1
                    b = bodies[0]
                    if b.arg(None, "actor") != under:
                        return "clone", "the body works on another actor", b.loc
                    if body == "task" and b.kwargs.get("**") != P("kwargs"):
                        return "clone", "the arguments for the task are not passed on", b.loc
                    env = next((x.value for x in reversed(p.events[:p.index(b)]) if x.kind == "write" and x.target == NEW and not x.raised), None)
                    mockenv = (attr(under, "env"), attr(under, "_new_env"))
                    isn = next((v for k, v in facts(p).items() if k[0] == "isinst" and k[1] in mockenv), None)
                    none = any(k == isnone(x) and v for k, v in facts(p).items() for x in mockenv)
                    if env not in mockenv and not (env == NONE and (isn is False or none)):
                        if not (env is not None and cl and env == cl[0].arg(0, "new_env")):
                            return "restore", "the body does not run in the clone's clock", b.loc
                    if body == "task" and isn is False:
                        return "mock", "the body runs in a clock that is not a mock one", b.loc
                    reh = next((x.value for x in reversed(p.events[:p.index(b)]) if x.kind == "write" and x.target == attr(SELF, "_rehearsing")), None)
                    if reh != TRUE:
                        return "restore", "the body runs without the task knowing that it is rehearsed", b.loc
                elif completes(p):
                    return "clone", "the body is not rehearsed"
                if bodies and p.outcome != "cut":
                    if p.heap.get(NEW) != start:
                        return "restore", f"the task is left with the environment {show(p.heap.get(NEW))}"
                    if p.heap.get(attr(SELF, "_rehearsing")) != FALSE:
                        return "restore", "the task is left rehearsing"
                if not bodies and p.outcome != "cut" and p.heap.get(attr(SELF, "_rehearsing"), FALSE) != FALSE:
                    return "restore", "the task is left rehearsing"
                if completes(p) and p.value != under:
                    return "clone", f"returns {show(p.value)} instead of the understudy"
                if not given:
                    for e in p.events:
                        if e.kind in ("write", "del") and rooted(e.target, actor) or (e.kind == "call" and e.name in MUTATES and e.recv is not None
                                                                                      and (e.recv == actor or rooted(e.recv, actor))):
                            return "real", "the real actor is changed", e.loc
                return None

            bad = {}
            for p in ps:
                r = one(p)
                if r:
                    bad.setdefault(r[0], (r[1], r[2] if len(r) > 2 else f.loc, p))
            if nb == 0 and not bad:
                raise AnalysisBroken(f"no path of {K.name}.rehearse rehearses the body")
            for k in rules:
                if k == "mock" and K is D:
                    continue
                if k in bad:
                    ctx.bad(f"C17.{k}", f"{K.name}.rehearse", bad[k][0], bad[k][1], bad[k][2])
                else:
                    ctx.ok(f"C17.{k}", f"{K.name}.rehearse")

    # the network
    nrules = {"order": "the given tasks are rehearsed in order, then the queue's first entry (taken from it) or the default of the last, on the clone of the one before",
              "end": "without an end task the rehearsal ends with the list, else exactly when the end task comes up, before rehearsing it",
              "allowed": "each task of the list must be allowed after the one before",
              "keep": "however the rehearsal ends the network reports the task it reported before"}
    for k, t in nrules.items():
        ctx.rule(f"C17.{k}", t, 3)
    f = prog.method(N, "rehearse_network")
    t1, t2, t3 = C("one"), C("two"), C("three")
    kn, ac = P("knowledge"), P("actor")
    for tag, names, end in (("a list", (t1, t2, t3), None), ("a list and an end", (t1, t2), C("end")), ("an end in the list", (t1, t2, t3), t2), ("the end first", (t1, t2), t1)):
        bind = {"task_name_list": ("tuple",) + names, "end_task": NONE if end is None else end}
        ps = ctx.paths(f, N, oracle=RehNet(10 if deep else 8, prog), unroll=9, unroll_for=9, implicit=False, max_paths=200000, bind=bind,
                       opaque={"run", "run_skip", "get_next_task", "_begin_next_task", "_set_network_name", "_set_network_ref", "_clear_task",
                               "clone", "rehearse", "make_decision"})
        bad, ran = {}, 0
        for p in ps:
            try:
                k = kn if facts(p).get(isnone(kn)) is not True else NONE
                ran = max(ran, play_rehearsal(p, ac, names, end, k))
            except Bad as b:
                bad.setdefault(b.rule, (b.msg, b.ev.loc if b.ev is not None else f.loc, p))
            if p.outcome != "cut":
                for nme, t in CUR.items():
                    if p.heap.get(t, t) != t:
                        bad.setdefault("keep", (f"{nme} is left changed", f.loc, p))
            for e in p.events:
                if e.kind in ("write", "del") and rooted(e.target, ac):
                    bad.setdefault("order", ("the real actor is changed", e.loc, p))
        if ran < {t2: 1, t1: 0}.get(end, 3) and not bad:
            raise AnalysisBroken(f"rehearsing {tag} runs only {ran} tasks")
        for k in nrules:
            if k in bad:
                ctx.bad(f"C17.{k}", f"rehearse_network ({tag})", *bad[k])
            else:
                ctx.ok(f"C17.{k}", f"rehearse_network ({tag})")
        if "clone" in bad:
            ctx.bad("C17.clone", f"rehearse_network ({tag})", *bad["clone"])

    ctx.rule("C17.pass", "an actor rehearses its network of that name on itself with the arguments given and returns the clone")
    f = prog.method(A, "rehearse_network")

    def ps_(p):
        c = [e for e in p.events if e.kind == "call" and e.name == "rehearse_network"]
        if not c:
            return None if not completes(p) else "rehearses nothing"
        e = c[0]
        if len(c) != 1 or not read_of(e.recv, attr(SELF, "_task_networks"), par(f, 0)):
            return "another network is rehearsed"
        k = e.arg(None, "knowledge")
        if e.arg(None, "actor") != SELF or e.arg(None, "task_name_list") != par(f, 1) or e.arg(None, "end_task") != par(f, 3):
            return "other arguments are passed on", e.loc
        if k != par(f, 2) and not (k is not None and k[0] == "new" and facts(p).get(isnone(par(f, 2)))):
            return "the knowledge is not passed on", e.loc
        return None if p.value == e.value else "returns something else"

    def no_inline(ev):
        return None

    ctx.each_path("C17.pass", "Actor.rehearse_network", f, ctx.paths(f, A, implicit=False), ps_, "rehearsing a network")

    ctx.rule("C17.clock", "a mock clock shows the time of the clock it is made from, and cannot be run", 2)
    M = prog.cls("MockEnvironment")
    f = prog.method(M, "mock")

    def mk(p):
        e = next((e for e in p.events if e.kind == "call" and e.value == p.value), None)
        if not completes(p) or e is None:
            return "no mock clock is made"
        return None if p.heap.get(attr(p.value, "now"), e.arg(0, "now")) == attr(par(f, 0), "now") else "shows another time"

    ctx.each_path("C17.clock", "MockEnvironment.mock", f, ctx.paths(f, M, implicit=False), mk, "mocking")
    f = prog.method(M, "run")
    ctx.each_path("C17.clock", "MockEnvironment.run", f, ctx.paths(f, M, implicit=False),
                  lambda p: None if p.outcome == "raise" else "runs", "running a mock clock")
