"""C07 activation locks, C08 linear states, C10 mimics."""
from __future__ import annotations

from ..api import Ctx, prop
from ..model import AnalysisBroken
from .h import *

SBT, TBS = attr(SELF, "_states_by_task"), attr(SELF, "_tasks_by_state")
ACT = attr(SELF, "_active_states")
DEFS = attr(SELF, "_state_defs")
ADDS, REMS = ("add",), ("remove", "discard", "pop", "clear", "difference_update")


def set_ops(p, base):
    """Changes of the sets held in the map `base`: (add|remove|other, key, element, event)."""
    out = []
    for e in p.events:
        if e.raised:
            continue
        if e.kind == "call" and e.recv is not None:
            r = e.recv
            key = None
            if r[0] == "sub" and r[1] == base:
                key = r[2]
            elif r[0] == "call" and r[1][0] == "attr" and r[1][1] == base and r[1][2] in ("get", "setdefault") and r[2]:
                key = r[2][0]
            if key is not None:
                if e.name in ADDS:
                    out.append(("add", key, e.args[0], e))
                elif e.name in ("remove", "discard"):
                    out.append(("remove", key, e.args[0], e))
                elif e.name in MUT:
                    out.append(("other", key, None, e))
            elif r == base and e.name in ("pop", "clear", "update", "popitem"):
                out.append(("other", None, None, e))
        elif e.kind == "write" and e.target[0] == "sub" and e.target[1] == base:
            if e.aug and e.aug[0] in ("|", "-"):
                its = e.items(e.aug[1])
                if its and len(its) == 1:
                    out.append(("add" if e.aug[0] == "|" else "remove", e.target[2], its[0], e))
                    continue
            out.append(("other", e.target[2], None, e))
        elif e.kind in ("write", "del") and (e.target == base or (e.target[0] == "sub" and e.target[1] == base)):
            out.append(("other", None, None, e))
    return out


MUT = {"append", "extend", "insert", "pop", "clear", "update", "difference_update", "intersection_update",
       "symmetric_difference_update"}


def shareable(p, state):
    for k, v in facts(p).items():
        if k[0] == "truthy" and is_attr(k[1], "IGNORE_LOCK"):
            return v
    return None


def held(p, state, task=None, upto=None):
    """Outcome of asking whether anyone (task=None) / the task holds the state."""
    r = None
    for e in p.events:
        if e is upto:
            break
        if e.kind != "cond":
            continue
        t = e.term
        if task is None and t[0] == "truthy" and t[1] == sub(TBS, state):
            r = e.pol
        if task is not None and t[0] == "in" and ((t[1] == task and t[2] == sub(TBS, state)) or (t[1] == state and t[2] == sub(SBT, task))):
            r = e.pol
    return r


def lock_pred(p, state, task):
    ops = set_ops(p, SBT) + set_ops(p, TBS)
    want = {("add", task, state), ("add", state, task)}
    got = [o[:3] for o in ops]
    return ops, (len(got) == 2 and set(got) == want)


@prop("C07")
def c07(cx: Ctx):
    prog = cx.prog
    A = prog.cls("Actor")
    cx.rule("C07.lock", "locking adds the task to the state's holders and the state to the task's, only when nobody (shareable "
                        "states: this task) was found holding it; otherwise it raises and changes nothing", 1)
    cx.rule("C07.unlock", "unlocking removes both entries, only when the task was found holding the state; otherwise it raises and "
                          "changes nothing", 1)
    f = prog.method(A, "_lock_state")
    st, tk = P("state"), P("task")

    def lp(p):
        ops, ok = lock_pred(p, st, tk)
        sh = shareable(p, st)
        if not completes(p):
            if ops:
                return "a refused lock leaves an entry"
            free = held(p, st) is False if sh is not True else held(p, st, tk) is False
            return "a free state is refused" if raises(p) and free else None
        if not ok:
            return "not exactly the task's lock of the state is entered"
        if sh is None:
            return "whether the state is shareable is not asked"
        if (sh and held(p, st, tk, ops[0][3]) is not False and held(p, st, None, ops[0][3]) is not False) or (
                not sh and held(p, st, None, ops[0][3]) is not False):
            return "a state may be locked although it is held"
        return None

    cx.each_path("C07.lock", "_lock_state", f, cx.paths(f, A), lp, "locking")
    f2 = prog.method(A, "_unlock_state")

    def up(p):
        ops = set_ops(p, SBT) + set_ops(p, TBS)
        if not completes(p):
            return "a refused unlock changes the locks" if ops else (
                "the holder's unlock is refused" if raises(p) and held(p, st, tk) is True else None)
        if sorted(map(repr, (o[:3] for o in ops))) != sorted(map(repr, [("remove", tk, st), ("remove", st, tk)])):
            return "not exactly the task's lock of the state is removed"
        if held(p, st, tk, ops[0][3]) is not True and not all(o[3].name == "remove" for o in ops):
            return "a task that does not hold the state may unlock it"
        if held(p, st, tk, ops[0][3]) is False:
            return "a task that does not hold the state may unlock it"
        return None

    cx.each_path("C07.unlock", "_unlock_state", f2, cx.paths(f2, A), up, "unlocking")

    cx.rule("C07.activate", "activation locks before anything else changes, stores the start time, task and caller's data as the "
                            "state's activity, reads the state and then tells it it is activated, each once", 1)
    f3 = prog.method(A, "activate_state")

    def upd_reads(p):
        return [e for e in p.events if e.kind == "call" and not e.raised and e.name == "getattr" and e.args[:2] == (SELF, st)]

    def state_calls(p, name):
        return [e for e in p.calls(name) if e.recv is not None and e.recv == sub(DEFS, st)]

    def ap(p):
        ops, ok = lock_pred(p, st, tk)
        acts = map_ops(p, ACT)
        told = state_calls(p, "activate")
        rd = upd_reads(p)
        if not completes(p):
            if acts and not ok:
                return "the activity is stored although the lock was refused"
            return None
        if not ok:
            return "the state is activated without its lock"
        lk = max(p.index(o[3]) for o in ops)
        if len(acts) != 1 or acts[0][:2] != ("store", st) or p.index(acts[0][3]) < lk:
            return "not exactly this state's activity is stored, after the lock"
        e = acts[0][3]
        its = e.items(acts[0][2])
        if its is None:
            return "the activity stored is not the data of this activation"
        d = {}
        for x in its:
            if x[0] == "tuple":
                d[x[1]] = x[2]
        if d.get(C("task")) != tk or not is_now(d.get(C("started_at")), SELF):
            return "the activity does not hold the task and the current time"
        if not any(x[0] == "star" and contains(x[1], P("kwargs")) for x in its):
            return "the caller's data are not stored"
        if len(told) != 1 or told[0].arg(0) != SELF or told[0].arg(1, "task") != tk:
            return "the state is not told of its activation exactly once"
        if not any(p.index(e) < p.index(r) < p.index(told[0]) for r in rd):
            return "the state is not initialised by a read before being told"
        return None

    cx.each_path("C07.activate", "activate_state", f3, cx.paths(f3, A), ap, "activating")
    cx.rule("C07.data", "storing activity keeps, of the old activity, exactly the entries with a leading underscore that are not "
                        "given anew", 1)
    f4 = prog.method(A, "_set_active_state_data")
    sn = par(f4, 0)

    def dp(p):
        acts = map_ops(p, ACT)
        if not completes(p):
            return None
        if len(acts) != 1 or acts[0][:2] != ("store", sn):
            return "not exactly this state's activity is stored"
        e = acts[0][3]
        its = e.items(acts[0][2])
        if its is None:
            return "the activity stored is unknown"
        sa = [x[2] for x in its if x[0] == "tuple" and x[1] == C("started_at")]
        fx = facts(p)
        none = fx.get(isnone(P("started_at")))
        if not sa or not ((none is True and is_now(sa[-1], SELF)) or (none is False and sa[-1] == P("started_at"))):
            return "the start time is neither the given one nor the current time"
        if not any(x[0] == "star" and x[1] == P("data") for x in its):
            return "the given data are not stored"
        el = next((x.value for x in p.events if x.kind == "iter"), None)
        if el is None:
            return None
        k = el[1] if el[0] == "tuple" else el
        und = None
        for t, v in fx.items():
            if t[0] == "eq" and C("_") in t[1:] and any(x[0] == "sub" and x[1] == k for x in t[1:]):
                und = v
            if t[0] == "truthy" and t[1][0] == "call" and last_name(t[1][1]) == "startswith" and t[1][1][1] == k:
                und = v
        known = [v for t, v in fx.items() if t[0] == "in" and t[1] == k]
        at = [i for i, x in enumerate(its) if (x[0] == "each" and x[1][0] == "tuple" and x[1][1] == k) or (x[0] == "tuple" and x[1] == k)]
        kept = bool(at)
        new_at = [i for i, x in enumerate(its) if (x[0] == "tuple" and x[1] == C("started_at")) or (x[0] == "star" and x[1] == P("data"))]
        should = und is True and ((known and known[-1] is False) or (kept and at[-1] < min(new_at)))
        if kept and not should:
            return "public or replaced data of the old activity are kept"
        if not kept and und is True and known and known[-1] is False:
            return "private data of the activity are lost"
        return None

    cx.each_path("C07.data", "_set_active_state_data", f4, cx.paths(f4, A), dp, "storing activity")

    cx.rule("C07.deactivate", "deactivation is refused unless the task holds the lock, brings the value up to date while active, "
                              "tells the state once and drops its activity exactly when the state says it ended", 1)
    f5 = prog.method(A, "deactivate_state")

    def de(p):
        ops = set_ops(p, SBT) + set_ops(p, TBS)
        acts = map_ops(p, ACT)
        told = state_calls(p, "deactivate")
        rd = upd_reads(p)
        if not completes(p):
            if told or acts:
                return "a refused deactivation has effects" if not ops else None
            return None
        if sorted(map(repr, (o[:3] for o in ops))) != sorted(map(repr, [("remove", tk, st), ("remove", st, tk)])):
            return "the task's lock is not removed exactly once"
        if len(told) != 1 or told[0].arg(0) != SELF or told[0].arg(1, "task") != tk:
            return "the state is not told of its deactivation exactly once"
        ti = p.index(told[0])
        if not any(p.index(r) < ti for r in rd):
            return "the value is not brought up to date before the activity ends"
        if any(p.index(a[3]) < ti for a in acts):
            return "the activity is dropped before the state is told"
        ig = facts(p).get(truthy(told[0].value))
        has = has_key(p, ACT, st)
        drop = [a for a in acts if a[0] in ("remove", "pop", "popdef") and a[1] == st]
        if len(drop) != len(acts) or len(drop) > 1:
            return "another state's activity is changed"
        if drop and ig is not False:
            return "the activity is dropped although the state said it continues"
        if not drop and ig is not True and has is not False:
            return "the activity is kept although the state ended"
        return None

    cx.each_path("C07.deactivate", "deactivate_state", f5, cx.paths(f5, A), de, "deactivating")
    cx.rule("C07.all", "deactivating several states deactivates each named one, for that task; deactivating all takes exactly the "
                       "states the task holds, from a copy of that set", 2)
    opq = {"deactivate_state"}
    f6 = prog.method(A, "deactivate_states")
    sts = P("states")

    def dm(p):
        cs = p.calls("deactivate_state")
        if not full_loops(p, lambda t: True):
            return "states after the first are left out"
        it = [e for e in p.events if e.kind == "iter"]
        isstr = next((v for k, v in facts(p).items() if k[0] == "isinst" and k[1] == sts), None)
        if isstr:
            ok = len(cs) == 1 and cs[0].arg(None, "state") == sts and cs[0].arg(None, "task") == tk
            return None if ok else "a single name is not deactivated exactly once"
        if not it:
            return "a state is deactivated without being named" if cs else (
                None if any(e.kind == "loop" and contains(e.term, sts) for e in p.events) else "the names are not visited")
        if not contains(it[0].term, sts):
            return "other states than the named ones are visited"
        if len(cs) != 1 or cs[0].arg(None, "state") != it[0].value or cs[0].arg(None, "task") != tk:
            return "a named state is not deactivated exactly once for the task"
        return None

    cx.each_path("C07.all", "deactivate_states", f6, cx.paths(f6, A, opaque=opq), dm, "deactivating several")
    f7 = prog.method(A, "deactivate_all_states")
    own = sub(SBT, tk)

    def da(p):
        if any(k[0] == "isinst" and contains(k[1], own) and v for k, v in facts(p).items()):
            return None  # a collection is not a single name
        cs = p.calls("deactivate_state")
        if not full_loops(p, lambda t: True):
            return "states after the first are left out"
        it = [e for e in p.events if e.kind == "iter" and isinstance(e.node, (ast.For, ast.AsyncFor))]
        for x in it:
            if strip_iter(x.term) != own and not contains(x.term, own):
                return "other states than the task's own are visited"
            if x.term == own:
                return "the set is changed while it is being visited"
        if not it:
            lp_ = [e for e in p.events if e.kind == "loop" and isinstance(e.node, (ast.For, ast.AsyncFor))]
            if cs:
                return "a state is deactivated without the task holding it"
            return None if lp_ or facts(p).get(truthy(own)) is False or any(
                facts(p).get(k) is False for k in facts(p) if k[0] == "in" and k[2] == SBT) else "the task's states are not visited"
        if len(cs) != len(it) or any(c.arg(None, "state") not in (x.value, ("elem", own)) or c.arg(None, "task") != tk for c, x in zip(cs, it)):
            return "a state of the task is not deactivated exactly once"
        return None

    cx.each_path("C07.all", "deactivate_all_states", f7, cx.paths(f7, A, opaque=opq), da, "deactivating all")
    # markers
    cx.rule("C07.marker", "activation, and every deactivation that ends the activity, records its marker exactly once; a "
                          "deactivation that leaves the activity running says so", 4)
    AS = prog.cls("ActiveState")
    for K in sorted(prog.subclasses(AS), key=lambda c: c.name):
        for op, mark in (("activate", "activating"), ("deactivate", "deactivating")):
            g = prog.method(K, op)

            def mp(p, op=op, mark=mark, g=g):
                every = p.calls("_do_record")
                rec = [e for e in every if e.arg(2, "override") not in (None, NONE)]    # values before it: C35.status
                inst = par(g, 0)
                if not completes(p):
                    return "a refused change records its marker" if rec and op == "deactivate" else None
                if op == "deactivate":
                    v = p.value
                    t = facts(p).get(truthy(v))
                    go_on = v == TRUE or t is True
                    ended = v in (FALSE, NONE) or t is False
                    if not go_on and not ended:
                        return f"whether the activity goes on is left open ({show(v)})"
                    if go_on:
                        return "a marker is recorded although the activity goes on" if rec else None
                if len(rec) != 1:
                    return f"the marker is recorded {len(rec)} times"
                e = rec[0]
                m = e.arg(2, "override")
                if e.recv != SELF or e.arg(0) != inst or m is None or not is_attr(m, mark):
                    return "the wrong marker is recorded"
                if every[-1] is not e or any(x.recv != SELF or x.arg(0) != inst for x in every):
                    return "something else than the value is recorded with the marker"
                return None

            cx.each_path("C07.marker", f"{K.name}.{op}", g, cx.paths(g, K, opaque={"_do_record"}), mp, op)
    # locks are entered and removed nowhere else
    cx.rule("C07.only", "the lock tables and the activity table are changed only by the actor's own lock, unlock and activity "
                        "functions", 1)
    bad = []
    allowed = {"_lock_state", "_unlock_state", "__actual_init__", "_set_active_state_data", "deactivate_state"}
    for fn in prog.all_functions:
        if fn.cls is not None and fn.cls.name == "Actor" and (fn.name in allowed or fn.qual not in cx.known):
            continue
        if fn.module.rel.find("/test/") >= 0:
            continue
        for n in ast.walk(fn.node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (MUT | {"add", "remove", "discard", "setdefault", "popitem"}):
                tg = [n.func.value]
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and x.attr in ("_states_by_task", "_tasks_by_state", "_active_states"):
                        bad.append((fn, n))
    for fn, n in bad:
        cx.bad("C07.only", fn.qual, "changes the lock or activity tables of an actor", f"{fn.module.rel}:{n.lineno}")
    if not bad:
        cx.ok("C07.only", "package")


def datum(t, key):
    """t reads entry `key` of some activity data."""
    if t[0] == "sub" and t[2] == C(key):
        return True
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("get", "pop") and t[2][:1] == (C(key),)


def linear_rw(inst):
    def rw(t):
        if t == sub(attr(inst, "__dict__"), attr(SELF, "name")) or (
                t[0] == "call" and t[1] == attr(inst, "__dict__", "get") and t[2][:1] == (attr(SELF, "name"),)):
            return ("V",)
        if is_now(t, inst):
            return ("now",)
        for k in ("started_at", "rate", "_last_time", "task"):
            if datum(t, k):
                return (k,)
        return None
    return rw


def started(p):
    """True: the state was found active."""
    for k, v in facts(p).items():
        if k[0] == "isnone" and datum(k[1], "started_at"):
            return not v
        if k[0] == "in" and k[1] == C("started_at"):
            return v
    return None


def sets_of(p, inst):
    """Assignments of the state's own value: (event, value)."""
    out = []
    for e in p.calls("__set__"):
        if e.recv is not None and (e.recv == SELF or e.recv[0] == "super") and e.arg(0) == inst:
            out.append((e, e.arg(1)))
    for e in p.calls("setattr"):
        if e.args[:2] == (inst, attr(SELF, "name")):
            out.append((e, e.args[2]))
    return out


def marks(p, inst):
    return [e for e in p.calls("_set_active_state_data") if e.recv == inst]


@prop("C08")
def c08(cx: Ctx):
    prog = cx.prog
    cx.rule("C08.value", "reading an active linear state yields its stored value plus rate times the time since the last update; "
                         "an inactive one is left alone", 1)
    cx.rule("C08.once", "that value is assigned to the state once, and the last update becomes now with the rate kept", 1)
    L = prog.cls("LinearChangingState")
    f = prog.method(L, "_active")
    inst = par(f, 0)
    rw = linear_rw(inst)

    def body(p, want, mark):
        act = started(p)
        ss, mk = sets_of(p, inst), marks(p, inst)
        if act is None:
            return "whether the state is active is not asked" if completes(p) else None
        if not completes(p):
            return "a failing read changes the value" if ss or mk else None
        if not act:
            if ss or mk:
                return "an inactive state is changed by a read"
            return None if p.value == NONE or rw(p.value) == ("V",) else f"an inactive state reads as {show(p.value)}"
        if not peq(p.value, want(p), rw):
            return f"the value read is {show(rewrite(p.value, rw))}"
        if len(ss) != 1 or not peq(ss[0][1], want(p), rw):
            return "the value read is not the one assigned, once"
        return mark(p, mk)

    V, now, st0, rate = ("V",), ("now",), ("started_at",), ("rate",)

    def m1(p, mk):
        if len(mk) != 1:
            return "the last update is not moved to now exactly once"
        e = mk[0]
        if e.arg(0, "state_name") != attr(SELF, "name"):
            return "another state's activity is updated"
        s = e.arg(1, "started_at")
        if s is not None and rw(s) != now:
            return "the last update is not moved to now"
        r = e.kwargs.get("rate")
        if r is None or rw(r) != rate:
            return "the rate is not kept"
        return None

    ps = cx.paths(f, L, opaque={"__set__"})
    cx.each_path("C08.value", "LinearChangingState", f, ps, lambda p: body(p, lambda _: add(V, mul(minus(now, st0), rate)), lambda *_: None), "reading")
    cx.each_path("C08.once", "LinearChangingState", f, ps, lambda p: body(p, lambda _: p.value, m1), "reading")
    # shared
    S = prog.cls("SharedLinearChangingState")
    g = prog.method(S, "_active")
    inst2 = par(g, 0)
    assert inst2 == inst
    cx.rule("C08.shared", "a shared state advances by the sum of the rates that were active since the last update, and a new task's "
                          "rate counts only from now on", 1)
    cx.rule("C08.ratesonce", "a task's rate is entered once, under that task, and a second one is refused before anything changes", 1)

    def rates(t):
        return datum(t, "_rate_tasks")

    def srw(t):
        r = rw(t)
        if r is not None:
            return r
        if t[0] == "call" and last_name(t[1]) == "sum" and len(t[2]) == 1:
            x = t[2][0]
            if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "values" and rates(x[1][1]):
                return ("SUM",)
        return None

    def find_sum(p):
        return [e for e in p.calls("sum") if srw(e.value) == ("SUM",)]

    def rate_stores(p):
        return [e for e in p.events if e.kind == "write" and e.target[0] == "sub" and rates(e.target[1])]

    def other_rate_ops(p):
        return [e for e in p.events if (e.kind == "del" and e.target[0] == "sub" and rates(e.target[1])) or (
            e.kind == "call" and e.recv is not None and rates(e.recv) and e.name in ("pop", "clear", "update", "setdefault"))]

    want = add(V, mul(minus(now, ("_last_time",)), ("SUM",)))

    def sp(p):
        act = started(p)
        ss, mk, rs = sets_of(p, inst), marks(p, inst), rate_stores(p)
        if act is None:
            return "whether the state is active is not asked" if completes(p) else None
        if not completes(p):
            return "a refused rate changes the state" if ss or mk or rs else None
        if not act:
            return "an inactive state is changed by a read" if ss or mk or rs else (
                None if p.value == NONE or rw(p.value) == V else f"an inactive state reads as {show(p.value)}")
        if not peq(p.value, want, srw):
            return f"the value read is {show(rewrite(p.value, srw))}"
        if len(ss) != 1 or not peq(ss[0][1], want, srw):
            return "the value read is not the one assigned, once"
        sm = find_sum(p)
        if rs and sm and p.index(sm[0]) > p.index(rs[0]):
            return "a new task's rate counts for the time before its activation"
        last = [t for t in subterms(p.value) if datum(t, "_last_time") and t[0] == "call"]
        if any(len(t[2]) < 2 or not is_now(t[2][1], inst) for t in last):
            return "the first update does not start at now"
        if len(mk) != 1 or mk[0].arg(0, "state_name") != attr(SELF, "name"):
            return "the last update is not moved exactly once"
        k = mk[0].kwargs
        if k.get("_last_time") is None or rw(k["_last_time"]) != now or not rates(k.get("_rate_tasks", NONE)):
            return "the last update is not moved to now with the rates kept"
        if "task" in k or "rate" in k or any(x == "**" for x in k):
            return "the activating task is entered again at the next read"
        return None

    ps = cx.paths(g, S, opaque={"__set__"})
    cx.each_path("C08.shared", "SharedLinearChangingState", g, ps, sp, "reading")

    def rp(p):
        if other_rate_ops(p):
            return "a read drops rates"
        rs = rate_stores(p)
        new = None
        for k, v in facts(p).items():
            if k[0] == "in" and k[1] == C("task"):
                new = v
            if k[0] == "isnone" and datum(k[1], "task"):
                new = not v
        act = started(p)
        dup = next((v for k, v in facts(p).items() if k[0] == "in" and datum(k[1], "task") and rates(k[2])), None)
        if not completes(p):
            if raises(p) and act and dup is not True:
                return "a new task's rate is refused"
            return None
        if not act:
            return None
        if new is None:
            return "whether a task is activating is not asked"
        if not new:
            return "a rate is entered without an activation" if rs else None
        if dup is not False:
            return "a second rate of the same task is accepted"
        if len(rs) != 1 or rw(rs[0].target[2]) != ("task",) or rw(rs[0].value) != rate:
            return "the task's rate is not entered once under the task"
        return None

    cx.each_path("C08.ratesonce", "SharedLinearChangingState", g, ps, rp, "activating")
    h = prog.method(S, "deactivate")
    cx.rule("C08.stop", "deactivating removes exactly the task's own rate, is refused for a task without one, and ends the activity "
                        "only when no rate remains", 1)
    tk = par(h, 1)

    def dp(p):
        dels = other_rate_ops(p)
        if not completes(p):
            if dels:
                return "a refused deactivation drops a rate"
            return None
        key = dels[0].target[2] if dels and dels[0].kind == "del" else (dels[0].args[0] if dels and dels[0].args else None)
        if len(dels) != 1 or key != tk or rate_stores(p):
            return "not exactly the task's own rate is removed"
        base = dels[0].target[1] if dels[0].kind == "del" else dels[0].recv
        if not any(k == ("in", tk, base) and v for k, v in facts(p, dels[0]).items()) and not (
                dels[0].kind == "call" and len(dels[0].args) == 1) and dels[0].kind != "del":
            return "a task without a rate is not refused"
        left = None
        for e in p.events[p.index(dels[0]):]:
            if e.kind == "cond" and e.term[0] == "truthy" and rates(e.term[1]):
                left = e.pol
        t = facts(p).get(truthy(p.value))
        go = True if p.value == TRUE or t is True else (False if p.value in (FALSE, NONE) or t is False else None)
        if p.value[0] == "call" and last_name(p.value[1]) == "bool" and rates(p.value[2][0]):
            return None
        if left is None or go is None:
            return "whether other rates remain does not decide if the activity goes on"
        return None if left == go else "the activity ends while another task's rate remains" if left else "the activity goes on without any rate"

    cx.each_path("C08.stop", "SharedLinearChangingState", h, cx.paths(h, S, opaque={"_do_record"}), dp, "deactivating")
    cx.rule("C08.keep", "updating a shared state's activity keeps its private rates", 1)
    ps = cx.paths(h, S, opaque={"_do_record"})
    okk = True
    for p in ps:
        for e in marks(p, par(h, 0)):
            if "_rate_tasks" in e.kwargs and not rates(e.kwargs["_rate_tasks"]):
                okk = False
    cx.check(okk, "C08.keep", "deactivate", "the rates are replaced", h.loc)
    # the generic reading
    cx.rule("C08.read", "reading an active state gives what its update computed, and the stored value exactly when it is inactive", 1)
    for K in (L, S):
        r = prog.method(K, "__get__")
        i2 = par(r, 0)

        def gp(p):
            fx = facts(p)
            if not completes(p) or fx.get(isnone(i2)) is True:
                return None
            mim = next((v for k, v in fx.items() if k[0] == "in" and k[2] == attr(i2, "_mimic_states")), None)
            ac = p.calls("_active")
            if mim:
                return None
            if len(ac) != 1:
                return "the state is not updated exactly once by a read"
            n = fx.get(isnone(ac[0].value))
            if n is None:
                return "whether the state is inactive is not asked"
            if n:
                return None if rwv(p.value, i2) else f"an inactive state reads as {show(p.value)}"
            return None if p.value == ac[0].value else f"an active state reads as {show(p.value)}"

        def rwv(v, i):
            return v == sub(attr(i, "__dict__"), attr(SELF, "name")) or (v[0] == "call" and v[1] == attr(i, "__dict__", "get"))

        cx.each_path("C08.read", K.name, r, cx.paths(r, K, opaque={"_active", "__set__"}), gp, "reading")


def _tells_self(t):
    """The term differs between any two actors: it holds the identity of self, not one of its (changeable, shared) attributes."""
    if not isinstance(t, tuple) or not t or t[0] in ("attr", "const"):
        return False
    if t == SELF:
        return True
    if t[0] == "call" and t[2] == (SELF,):
        return last_name(t[1]) == "id"
    if t[0] in ("tuple", "call", "fmt"):
        return any(_tells_self(x) for x in (t[1:] if t[0] == "tuple" else t[2]))
    # text and other compounds: only through the identity number
    return any(_tells_self(x) if x != SELF else False for x in _flat(t[1:]))


def _flat(xs):
    for x in xs:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                yield x
            else:
                yield from _flat(x)


@prop("C10")
def c10(cx: Ctx):
    prog = cx.prog
    A = prog.cls("Actor")
    cx.rule("C10.read", "reading a mimicking state gives the other state's current value, assigned to the state once", 2)
    seen = set()
    S = prog.cls("State")
    for K in sorted(prog.subclasses(S), key=lambda c: c.name):
        if any(K.is_sub(k) for k in ("_KeyValueBase", "ResourceState")):
            continue
        r = prog.method(K, "__get__")
        if r.qual in seen:
            continue
        seen.add(r.qual)
        inst = par(r, 0)
        M = attr(inst, "_mimic_states")

        def gp(p):
            fx = facts(p)
            mim = next((v for k, v in fx.items() if k[0] == "in" and k[1] == attr(SELF, "name") and k[2] == M), None)
            if mim is None:
                for k, v in fx.items():
                    if k[0] == "isnone" and contains(k[1], M):
                        mim = not v
            if fx.get(isnone(inst)) is True:
                return None
            ss = sets_of(p, inst)
            if mim is None:
                return "whether the state mimics is not asked" if completes(p) else None
            if not mim:
                return "a state that does not mimic is assigned by a read" if ss else None
            if not completes(p):
                return None
            src = [e for e in p.calls("getattr") if contains(e.args[0], M) and contains(e.args[1], M)]
            if len(ss) != 1 or not src or ss[0][1] not in [e.value for e in src]:
                return "the other state's value is not assigned exactly once"
            e = next(e for e in src if e.value == ss[0][1])
            if not (e.args[0][0] == "sub" and e.args[0][2] == C(0) and e.args[1] == sub(e.args[0][1], C(1))):
                return "something else than the mimicked state of the mimicked actor is read"
            if p.value != ss[0][1] and p.value != sub(attr(inst, "__dict__"), attr(SELF, "name")):
                return f"gives {show(p.value)}"
            return None

        cx.each_path("C10.read", K.name, r, cx.paths(r, K, opaque={"__set__", "_active"}), gp, "reading")
    MS, MBT = attr(SELF, "_mimic_states"), attr(SELF, "_mimic_states_by_task")
    ss_, ms, ma, tk = P("self_state"), P("mimic_state"), P("mimic_actor"), P("task")
    cx.rule("C10.start", "mimicking is entered once, for a state not yet mimicking, only after the rehearsal, key/value and type "
                         "checks; a refused one changes nothing", 1)
    cx.rule("C10.hook", "a recording mimic hooks one callback on the other state that records the new value exactly for the "
                        "mimicked actor; a non-recording one hooks none", 1)
    f = prog.method(A, "activate_mimic_state")
    ps = cx.paths(f, A, play={"_add_callback_to_state", "_add_callback"}, opaque={"_do_record"})

    def hooks(p):
        return [e for e in p.calls("_add_callback_to_state", "_add_callback")]

    def kv(p, t):
        return any(k[0] == "isinst" and k[1] == t and k[2][0] in ("class",) and k[2][1].name == "_KeyValueBase" and v is False
                   for k, v in facts(p).items()) or any(
            k[0] == "truthy" and k[1][0] == "call" and last_name(k[1][1]) == "any" and v is False for k, v in facts(p).items())

    def ap(p):
        mo, to, hk = map_ops(p, MS), set_ops(p, MBT), hooks(p)
        if not completes(p):
            return "a refused mimic changes something" if mo or to or hk else None
        if len(mo) != 1 or mo[0][:3] != ("store", ss_, ("tuple", ma, ms)):
            return "the mimicked state is not entered exactly once"
        if has_key(p, MS, ss_, mo[0][3]) is not False:
            return "a state that mimics already is accepted"
        if len(to) != 1 or to[0][:3] != ("add", tk, ss_):
            return "the mimic is not entered for its task"
        fx = facts(p)
        if any(k[0] == "truthy" and is_attr(k[1], "_rehearsing") and v for k, v in fx.items()):
            return "a rehearsing task may mimic"
        if not any((k[0] == "truthy" and is_attr(k[1], "_rehearsing") and not v) or
                   (k[0] == "isinst" and call_name(k[1]) == "get_caller_object" and not v) or
                   (k[0] == "truthy" and contains(k[1], lambda x: x[0] == "const" and x[1] == "_rehearsing") and not v)
                   for k, v in fx.items()):
            return "whether a task is rehearsing is not asked"
        mine, theirs = sub(DEFS, ss_), sub(attr(ma, "_state_defs"), ms)
        if not kv(p, mine) or not kv(p, theirs):
            return "key/value states are not refused"
        if not any(k[0] == "truthy" and k[1][0] == "call" and last_name(k[1][1]) == "_type_check" and k[1][1][1] == mine and v and
                   k[1][2] and k[1][2][0][0] == "call" and k[1][2][0][2][:2] == (ma, ms) for k, v in fx.items()) and not any(
                e.recv == mine and e.arg(1, "throw") in (TRUE, None) and contains(e.arg(0), ma) for e in p.calls("_type_check")):
            return "the type of the other state is not checked"
        return None

    cx.each_path("C10.start", "activate_mimic_state", f, ps, ap, "activating")

    def from_task(p):
        return completes(p) and not any(k[0] == "isinst" and call_name(k[1]) == "get_caller_object" and not v
                                        for k, v in facts(p).items())

    cx.check(any(from_task(p) for p in ps), "C10.start", "activate_mimic_state",
             "a task that is not rehearsing is refused: mimicking only completes when no task asks for it",
             f"{f.module.rel}:{f.node.lineno}")
    key = {}

    def hp(p):
        hk = hooks(p)
        if not completes(p) and not any(e.kind == "play" for e in p.events):
            return None
        rec = None
        for k, v in facts(p).items():
            if k[0] == "truthy" and (is_attr(k[1], "is_recording", sub(DEFS, ss_)) or is_attr(k[1], "_recording", sub(DEFS, ss_))):
                rec = v
        if rec is None:
            return "whether the state records is not asked"
        if not rec:
            return "a non-recording mimic hooks a callback" if hk else None
        if len(hk) != 1:
            return "not exactly one callback is hooked"
        e = hk[0]
        if e.name == "_add_callback_to_state":
            if e.recv != ma or e.arg(2, "state_name") != ms:
                return "the callback is hooked on another state"
        elif e.recv != sub(attr(ma, "_state_defs"), ms):
            return "the callback is hooked on another state"
        key.setdefault("k", set()).add(e.arg(0, "source"))
        if not contains(e.arg(0, "source"), ss_) or not _tells_self(e.arg(0, "source")):
            return "the callback's key does not tell actor and state"
        i0 = next((i for i, x in enumerate(p.events) if x.kind == "play"), None)
        if i0 is None:
            return "the callback is unknown"
        cb = p.events[i0].args
        body = p.events[i0:]
        recs = [x for x in body if x.kind == "call" and x.name == "_do_record"]
        same_ = next((x.pol for x in body if x.kind == "cond" and x.term[0] in ("is", "eq") and set(x.term[1:]) == {cb[0], ma}), None)
        if same_ is None:
            return "the callback does not ask which actor changed" if recs else "the callback never records"
        if not same_:
            return "another actor's change is recorded" if recs else None
        if len(recs) != 1 or recs[0].recv != sub(DEFS, ss_) or recs[0].arg(0) != SELF or recs[0].arg(1) != cb[1]:
            return "the changed value is not recorded once for this state"
        return None

    cx.each_path("C10.hook", "activate_mimic_state", f, ps, hp, "the recording hook")
    cx.rule("C10.stop", "deactivating brings the value up to date while mimicking, unhooks the callback that was hooked and removes "
                        "the mimic from both tables", 1)
    g = prog.method(A, "deactivate_mimic_state")

    def dp(p):
        mo, to = map_ops(p, MS), set_ops(p, MBT)
        if not completes(p):
            return None
        if len(mo) != 1 or mo[0][0] not in ("remove", "pop") or mo[0][1] != ss_:
            return "not exactly this mimic is removed"
        if len(to) != 1 or to[0][:3] != ("remove", tk, ss_):
            return "the mimic is not removed from its task"
        rd = [e for e in p.calls("getattr") if e.args[:2] == (SELF, ss_)]
        if not rd or p.index(rd[0]) > p.index(mo[0][3]):
            return "the value is not brought up to date before the mimic ends"
        un = p.calls("_remove_callback_from_state", "_remove_callback")
        rec = None
        for k, v in facts(p).items():
            if k[0] == "truthy" and (is_attr(k[1], "is_recording", sub(DEFS, ss_)) or is_attr(k[1], "_recording", sub(DEFS, ss_))):
                rec = v
        if rec is None:
            return "whether the state records is not asked"
        if not rec:
            return None if not un else "a callback that was never hooked is removed"
        if len(un) != 1 or un[0].arg(0, "source") not in key.get("k", ()):
            return "the callback that was hooked is not the one removed"
        if un[0].name == "_remove_callback_from_state":
            o, n = un[0].recv, un[0].arg(1, "state_name")
            if not (o[0] == "sub" and o[1] in (sub(MS, ss_), mo[0][2]) and o[2] == C(0) and n == sub(o[1], C(1))):
                return "the callback is removed from another state"
        if p.index(un[0]) < p.index(rd[0]):
            return "the callback is removed before the value is brought up to date"
        return None

    cx.each_path("C10.stop", "deactivate_mimic_state", g, cx.paths(g, A), dp, "deactivating")
    cx.rule("C10.all", "deactivating all of a task's mimics visits exactly that task's ones, from a copy", 1)
    h = prog.method(A, "deactivate_all_mimic_states")
    own = sub(MBT, tk)

    def da(p):
        cs = p.calls("deactivate_mimic_state")
        if not full_loops(p, lambda t: True):
            return "mimics after the first are left out"
        it = [e for e in p.events if e.kind == "iter" and isinstance(e.node, ast.For)]
        for x in it:
            if strip_iter(x.term) != own and not contains(x.term, own):
                return "other mimics than the task's own are visited"
            if x.term == own:
                return "the set is changed while it is being visited"
        if not it:
            return "a mimic is deactivated without being the task's" if cs else (
                None if any(e.kind == "loop" and contains(e.term, own) for e in p.events) or facts(p).get(truthy(own)) is False
                or facts(p).get(("in", tk, MBT)) is False else "the task's mimics are not visited")
        if len(cs) != len(it) or any(c.arg(None, "self_state") not in (x.value, ("elem", own)) or c.arg(None, "task") != tk for c, x in zip(cs, it)):
            return "a mimic of the task is not deactivated exactly once"
        return None

    cx.each_path("C10.all", "deactivate_all_mimic_states", h, cx.paths(h, A, opaque={"deactivate_mimic_state"}), da, "deactivating all")
    cx.rule("C10.callbacks", "adding a callback enters exactly it under its key, removing takes exactly that key out", 2)
    CB = attr(SELF, "_change_callbacks")
    fa, fr = prog.method(S, "_add_callback"), prog.method(S, "_remove_callback")
    cx.each_path("C10.callbacks", "_add_callback", fa, cx.paths(fa, S), lambda p: None if not completes(p) or [
        o[:3] for o in map_ops(p, CB)] == [("store", par(fa, 0), par(fa, 1))] else "the callback is not entered once under its key", "adding")

    def rmp(p):
        mo = map_ops(p, CB)
        if not completes(p):
            return None
        if len(mo) == 1 and mo[0][0] in ("remove", "pop", "popdef") and mo[0][1] == par(fr, 0):
            return None
        return None if not mo and has_key(p, CB, par(fr, 0)) is False else "the callback is not removed under its key"

    cx.each_path("C10.callbacks", "_remove_callback", fr, cx.paths(fr, S), rmp, "removing")
