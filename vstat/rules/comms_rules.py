"""C26, C27: messages between actors, and the routes they take."""
from __future__ import annotations

import ast
import itertools
import math

from ..api import Ctx, prop
from ..engine import FALSE, NONE, SELF, TRUE, attr, call_name, is_attr, last_name, show, strip_iter
from ..model import AnalysisBroken
from .h import C, P, completes, ctor_of, facts, is_now, isnone, par, params, peq, sub, truthy
from .script import Env, env_term, is_env

NOW = attr(attr(SELF, "env"), "now")
CLOCK = ("clock", ("probe",))
SENDER = env_term("node", "sender")
LINK = ("_test_if_link_is_blocked", "_link_compare")
DEGRADED = attr(SELF, "comms_degraded")


class LinkEnv(Env):
    """Time, the state of every link at every attempt, and (for routed messages) the hop chosen."""

    def __init__(self, prog, depth, base, dest, hops=False):
        super().__init__(depth, prog)
        self.base, self.dest, self.hops = base, dest, hops

    def __call__(self, kind, what, st):
        if kind == "call" and what.name in ("ceil", "floor") and what.args and what.args[0][0] == "const":
            return [(st.fork(), ("value", C(getattr(math, what.name)(what.args[0][1]))))]
        if kind == "call" and what.name in LINK:
            out = []
            for v in (FALSE, TRUE):
                s = st.fork()
                out.append((s, ("value", v)))
            return out
        if kind == "yield":
            s = st.fork()
            now = s.heap[CLOCK]
            v = what.value if hasattr(what, "value") else what
            if isinstance(v, tuple) and v and v[0] == "call" and last_name(v[1]) == "timeout" and v[2] and v[2][0][0] == "const":
                now = C(now[1] + v[2][0][1])
            s.heap.update(self.base)
            s.heap[CLOCK] = s.heap[NOW] = now
            return [(s, ("value", NONE))]
        return super().__call__(kind, what, st)

    def choices(self, kind, what, st):
        if kind == "call" and what.name == "select_hop" and self.hops:
            return [("hop", ("value", lambda k, s: env_term("node", s.heap[("scen", 0)]))), ("dest", ("value", self.dest)), ("none", ("value", NONE), True)]
        return None

    def equal(self, a, b):
        for x, y in ((a, b), (b, a)):
            if is_env(x, "node") and is_env(y, "node"):
                return x == y
        return super().equal(a, b)


def transmit(p, f, msg, dest, n, rate, send, routed=False, forget=True):
    """The reference protocol replayed on one path: None or (rule, text, loc)."""
    keep = []
    for e in p.events:
        if e.kind == "cond" and e.term == truthy(DEGRADED):
            keep.append(("degraded", e, e.pol))
        elif e.kind == "call" and e.name in LINK and not e.raised:
            keep.append(("link", e, e.value == TRUE))
        elif e.kind == "call" and e.name == "select_hop" and not e.raised:
            keep.append(("select", e, e.value))
        elif e.kind in ("yield", "yieldfrom"):
            keep.append(("yield", e, e.value))
    keep.append(("end", None, None))
    i, down = 0, None    # down: the mode is degraded now
    cur, failed, clock = SENDER, [], 0.0
    puts = [e for e in p.events if e.kind == "call" and e.name == "put" and not e.raised]
    here = p.heap.get(attr(msg, "sender")) == dest
    if not routed:
        hop, cur = dest, attr(msg, "sender")

    def peek():
        return keep[i]

    def wait(delay):
        nonlocal i, clock, down
        k, e, v = peek()
        if k != "yield" or call_name(v) != "timeout" or not v[2] or v[2][0][0] != "const" or v[2][0][1] != delay:
            return False
        clock += delay
        i += 1
        down = None
        return True

    def loc():
        e = keep[min(i, len(keep) - 1)][1]
        return e.loc if e is not None else f.loc

    arrived = routed and here
    while not arrived:
        if routed:
            k, e, v = peek()
            if k == "end" and p.outcome == "cut":
                return None
            if k == "degraded":      # asked before the hop is chosen
                down = v
                i += 1
                continue
            if k != "select":
                return "route", f"no hop is chosen towards the destination from {show(cur)}", loc()
            if e.args[0:1] != (cur,) or e.arg(1, "dest") != dest:
                return "route", f"the hop is chosen from {', '.join(show(a) for a in e.args[:2])}", e.loc
            ig = e.arg(2, "ignore_nodes")
            its = e.items(ig) if ig is not None else None
            if ig in (None, NONE):
                its = ()
            if its is None and isinstance(ig, tuple) and ig[0] in ("call",) and not failed:
                its = ()
            if its is None or set(its) != set(failed):
                return "ignore", f"nodes left out: {[show(x) for x in its] if its is not None else show(ig)}, nodes that could not be reached: {[show(x) for x in failed]}", e.loc
            i += 1
            if v == NONE:
                break
            hop = v
        r = 0
        ok = None
        while True:
            blocked = None
            while peek()[0] in ("degraded", "link"):
                k, e, v = peek()
                if k == "link":
                    if tuple(e.args[:2]) != (cur, hop):
                        return "link", f"the link asked about is {', '.join(show(a) for a in e.args[:2])}", e.loc
                    blocked = v
                else:
                    down = v
                i += 1
                if k == "link" and v or k == "degraded" and v:
                    nxt = peek()[0]
                    if nxt not in ("degraded", "link"):
                        break
            if p.outcome == "cut" and peek()[0] == "end":
                return None
            if down is True or blocked is True:
                if r == n:
                    ok = False
                    break
                if not wait(rate):
                    return "retry", f"attempt {r + 1} of {n} failed and the link is not tried again after the retry time", loc()
                r += 1
                continue
            if down is False and blocked is False:
                ok = True
                break
            return "blocked", "the message moves on without asking " + ("whether the link is blocked" if blocked is None else "whether the mode is degraded"), loc()
        if not ok:
            if not routed:
                break
            failed.append(hop)
            continue
        if send and not wait(send):
            return "delay", "the message does not take its time to be sent", loc()
        cur = hop
        if forget:
            failed = []
        if cur == dest:
            arrived = True
    if p.outcome == "cut":
        return None
    if p.outcome != "return":
        return "once", f"fails with {show(p.value)}"
    if not arrived:
        if puts:
            return "once", "a message that could not be sent is delivered", puts[0].loc
        if peek()[0] != "end":
            return "retry", "something is waited for after giving up", loc()
        return None
    if len(puts) != 1 or puts[0].args != (msg,):
        return "once", f"the message is put {len(puts)} times" if len(puts) != 1 else f"{show(puts[0].args[0])} is delivered", puts[0].loc if puts else f.loc
    st = puts[0].recv
    if call_name(st) != "store_from_actor" or st[2] != (dest,):
        return "once", f"the message is put into {show(st)}", puts[0].loc
    k, e, v = peek()
    if k != "yield" or v != puts[0].value:
        return "delay" if k == "yield" else "once", "the delivery is not waited for" if k != "yield" else f"waits for {show(v)} before delivering", loc()
    if p.index(puts[0]) < max((p.index(x[1]) for x in keep[:i] if x[1] is not None), default=-1):
        return "once", "the message is put before it may be sent", puts[0].loc
    i += 1
    if peek()[0] != "end":
        return "once", "something is waited for after the delivery", loc()
    sent = [e for e in p.events if e.kind == "write" and e.target == attr(msg, "time_sent")]
    if len(sent) != 1 or sent[0].value != C(clock) or p.index(sent[0]) > p.index(keep[i - 1][1]):
        return "stamp", f"the time of sending is {show(sent[0].value) if sent else 'not set'} instead of {clock}", sent[0].loc if sent else f.loc
    other = [e for e in p.events if e.kind == "write" and e.target[0] in ("attr", "sub") and e.target[1] == msg and e.target[2] != "time_sent"]
    if other:
        return "once", f"the message is changed: {show(other[0].target)}", other[0].loc
    return None


def statuses(p, msg):
    out = set()
    for e in p.events:
        if e.kind == "call" and e.name == "_log_attempt" and not e.raised and e.args[:1] == (msg,):
            out.add(e.arg(3, "status"))
    return out


def transmits(ctx, K, routed):
    prog = ctx.prog
    f = prog.method(K, "_do_transmit")
    msg, dest = par(f, 0), par(f, 1)
    R = "C27" if routed else "C26"
    scen = [(1.0, 0.5, 2), (0.0, 1.0, 0), (1.0, 0.375, 3)] if not routed else [(1.0, 1.0, 1)]
    if ctx.tier == "thorough":
        scen += [(1.0, 0.25, 4), (0.5, 1.0, 1)] if not routed else [(0.0, 1.0, 0), (1.0, 0.5, 2)]
    bad, n = {}, 0
    sent, dropped = [], []
    ret = 0
    if routed:
        dest = env_term("node", "dest")
    for (mx, rate, tries), send, forget, start in itertools.product(scen, (0.0, 2.0), (True, False) if routed else (True,), (SENDER, dest) if routed else (None,)):
        base = {attr(SELF, "retry_max_time"): C(mx), attr(SELF, "retry_rate"): C(rate), attr(SELF, "send_time"): C(send),
                attr(SELF, "debug_logging"): TRUE}
        if routed:
            base[attr(SELF, "global_ignore")] = C(not forget)
            base[attr(msg, "sender")] = start
        h = dict(base)
        h[NOW] = h[CLOCK] = C(0.0)
        depth = (3 if tries < 2 else 2) if routed else 12
        ps = ctx.paths(f, K, oracle=LinkEnv(prog, depth, base, dest, routed), heap=h, implicit=False,
                       bind={params(f)[1]: dest} if routed else {}, unroll=10, opaque={*LINK, "_log_attempt", "store_from_actor", "select_hop"})
        for p in ps:
            if p.outcome == "exc":
                continue
            n += 1
            r = transmit(p, f, msg, dest, tries, rate, send, routed, forget)
            if r:
                bad.setdefault(r[0], (r[1] + f" (retry {mx} every {rate}, sending takes {send})", r[2] if len(r) > 2 else f.loc, p))
                continue
            if p.outcome == "return":
                put = any(e.kind == "call" and e.name == "put" for e in p.events)
                ret += put
                (sent if put else dropped).append((statuses(p, msg), p))
    if not bad and (n < 20 or ret < 5 or not dropped):
        raise AnalysisBroken(f"{f.qual}: only {n} courses of a transmission, {ret} delivered")
    a = set().union(*(s for s, _ in sent)) if sent else set()
    b = set().union(*(s for s, _ in dropped)) if dropped else set()
    for lst, other in ((sent, b), (dropped, a)):
        for s, p in lst:
            if not s - other:
                bad.setdefault("log", ("the outcome of a message is not logged", f.loc, p))
    rules = ("route", "ignore", "link", "once", "blocked", "retry", "delay", "stamp", "log") if routed else (
        "once", "blocked", "link", "retry", "delay", "stamp", "log")
    for k in rules:
        con = f"{K.name}._do_transmit"
        if k in bad:
            ctx.bad(f"{R}.{k}", con, *bad[k])
        else:
            ctx.ok(f"{R}.{k}", con)


def field(p, obj, name, cls):
    """Value given to a field of a dataclass instance built on the path; None when left to its default."""
    e = next((e for e in p.events if e.kind == "call" and e.value == obj and not e.raised), None)
    if e is None:
        return None
    order = [s.target.id for k in reversed(cls.mro_classes) for s in k.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
    return e.arg(order.index(name), name)


def actors(*names):
    return {n: env_term("actor", n) for n in names}


class NodeEnv(Env):
    """Actors are distinct objects."""

    def __init__(self, prog, more=None):
        super().__init__(1, prog)
        self.more = more

    def choices(self, kind, what, st):
        return None

    def cond(self, key, st):
        r = self.more(key, st) if self.more else None
        return r if r is not None else super().cond(key, st)

    def equal(self, a, b):
        if is_env(a) and is_env(b):
            return a == b
        if a[0] == b[0] == "tuple":
            if len(a) != len(b):
                return False
            rs = [self.equal(x, y) for x, y in zip(a[1:], b[1:])]
            return False if False in rs else (None if None in rs else True)
        if a[0] == b[0] == "const":
            return a[1] == b[1]
        return super().equal(a, b)


def concrete(v):
    """Truth of a returned constant, else None."""
    return bool(v[1]) if v[0] == "const" else None


def c26_links(ctx, K):
    f = ctx.prog.method(K, "_test_if_link_is_blocked")
    A = actors("x", "y", "z")
    x, y, z = A["x"], A["y"], A["z"]
    NL, LL = ("new", ("probe",), "list", "nodes"), ("new", ("probe",), "list", "links")
    pairs = [("tuple", a, b) for a, b in ((x, y), (y, x), (x, z), (z, y), (y, z))]
    n = 0
    for nodes in ((), (x,), (y,), (z,), (z, x), (z, y)):
        for links in ((), *((q,) for q in pairs), *itertools.permutations(pairs, 2)):
            ps = ctx.paths(f, K, bind={params(f)[0]: x, params(f)[1]: y}, implicit=False, oracle=NodeEnv(ctx.prog), unroll_for=4,
                           heap={attr(SELF, "blocked_nodes"): NL, ("items", NL): nodes, attr(SELF, "blocked_links"): LL, ("items", LL): links})
            want = x in nodes or y in nodes or pairs[0] in links
            for p in ps:
                n += 1
                got = concrete(p.value) if completes(p) else None
                if got != want:
                    d = lambda t: t[2] if is_env(t) else tuple(d(u) for u in t[1:])
                    ctx.bad("C26.which", f"{K.name}._test_if_link_is_blocked", f"with nodes {[d(u) for u in nodes]} and links {[d(u) for u in links]} down, "
                            f"the link from x to y counts as {'blocked' if got else 'open' if got is False else show(p.value)}", f.loc, p)
                    return
    ctx.ok("C26.which", f"{K.name}._test_if_link_is_blocked", n)


def c26_store(ctx, K):
    prog = ctx.prog
    f = prog.method(K, "store_from_actor")
    act, con = par(f, 0), attr(SELF, "connected")
    found = ("call", attr(SELF, "_get_state"), (act,), ())

    def got(t):
        """Name of the attribute of the actor read."""
        if t[0] == "getattr" and t[1] == act:
            return t[2]
        if t[0] == "call" and t[1] == ("builtin", "getattr") and t[2][:1] == (act,):
            return t[2][1]
        return None

    def store(p):
        fx = facts(p)
        known = next((v for k, v in fx.items() if k[0] == "in" and k[1] == act and strip_iter(k[2]) == con), None)
        if known is None:
            known = next((not v for k, v in fx.items() if k[0] == "isnone" and k[1] == ("call", attr(con, "get"), (act,), ())), None)
        if known is None:
            return "whether the actor is connected is not asked"
        names = {sub(con, act), ("call", attr(con, "get"), (act,), ())} if known else {found, ("call", attr(SELF, "_get_state"), (act,), ())}
        none = any(v for k, v in fx.items() if k[0] == "isnone" and k[1] in names)
        if not completes(p):
            lost = any(v for k, v in fx.items() if k[0] == "isnone" and got(k[1]) in names)
            return None if none or lost or p.outcome == "exc" else "an actor with a store is refused"
        if none:
            return "an actor without a store is accepted"
        v = p.value
        return None if got(v) in names else f"answers {show(v)}"

    ctx.each_path("C26.store", f"{K.name}.store_from_actor", f, ctx.paths(f, K, implicit=False, opaque={"_get_state"}), store, "the store of the addressee")
    f = prog.method(K, "_get_state")
    a = env_term("actor", "a")
    D, DD = ("new", ("probe",), "dict", "defs"), ("new", ("probe",), "dict", "dict")
    CS = prog.cls("CommunicationStore")
    n = 0
    kinds = ("other", "mode", "nomode", "unset")
    for ks in itertools.product(kinds, repeat=2):
        heap = {attr(a, "_state_defs"): D, attr(a, "__dict__"): DD, attr(SELF, "mode"): C("m")}
        defs, dd = [], []
        for i, k in enumerate(ks):
            s = env_term("comm" if k != "other" else "state", i)
            heap[attr(s, "_modename")] = C(f"_modes{i}")
            defs.append(("tuple", C(f"s{i}"), s))
            S = ("new", ("probe",), "set", f"modes{i}")
            heap[("items", S)] = {"mode": (C("n"), C("m")), "nomode": (C("n"),)}.get(k, (C("m"),))
            if k not in ("unset", "other"):
                dd.append(("tuple", C(f"_modes{i}"), S))
        heap[("items", D)], heap[("items", DD)] = tuple(defs), tuple(dd)

        def more(key, st):
            if key[0] == "isinst" and is_env(key[1], "comm", "state"):
                return key[1][1] == "comm" and any(last_name(c) in [k.name for k in CS.mro_classes] for c in (key[2][1:] if key[2][0] == "tuple" else (key[2],)))
            return None

        ps = ctx.paths(f, K, bind={params(f)[0]: a}, heap=heap, oracle=NodeEnv(prog, more), implicit=False, unroll_for=3)
        want = [C(f"s{i}") for i, k in enumerate(ks) if k == "mode"] or [NONE]
        for p in ps:
            n += 1
            if not completes(p) or p.value not in want:
                ctx.bad("C26.store", f"{K.name}._get_state", f"of the states {', '.join(ks)}, {show(p.value)} is found for the mode", f.loc, p)
                return
    ctx.ok("C26.store", f"{K.name}._get_state", n)


@prop("C26")
def c26(ctx: Ctx):
    prog = ctx.prog
    T = {"run": "each message taken from the incoming store is transmitted once, to its destination", "once": "a message is put once, into the addressee's store, and only when it was sent",
         "blocked": "a message is sent only when the mode is not degraded and the link is open", "link": "the link asked about is the one the message takes",
         "retry": "a blocked message is tried again after the retry time, as often as configured, then given up", "delay": "sending takes the configured time",
         "stamp": "the time of sending is recorded", "log": "the outcome of every message is logged", "which": "a link is blocked exactly when one of its ends or the link itself is",
         "store": "the store of the addressee is the one connected, else the one for the mode", "make": "a message is created with the sender, destination, mode and content given",
         "make-put": "a new message is put once, into the incoming store", "start": "starts with nothing blocked, with the settings given", "receive": "every received message reaches the callback once"}
    for k, t in T.items():
        ctx.rule(f"C26.{k}", t, 1)
    B = prog.cls("CommsManagerBase")
    done = set()

    def once(K, name):
        f = prog.method(K, name)
        k = (f.qual, name)
        if k in done:
            return None
        done.add(k)
        return f

    for K in [B] + prog.subclasses(B, strict=True):
        if (f := once(K, "run")):
            env = _Inbox(4, prog)
            bad = None
            ps = ctx.paths(f, K, oracle=env, implicit=False, unroll=6, opaque={"_do_transmit", "_log_attempt"})
            n = 0
            for p in ps:
                r = inbox(p)
                n += sum(e.kind == "yield" for e in p.events)
                if r and bad is None:
                    bad = (*r, p)
            if n < 3 and bad is None:
                raise AnalysisBroken("the inbox is not read")
            if bad:
                ctx.bad("C26.run", f"{K.name}.run", bad[0], bad[1] or f.loc, bad[2])
            else:
                ctx.ok("C26.run", f"{K.name}.run")
        if (f := once(K, "_test_if_link_is_blocked")):
            c26_links(ctx, K)
        if (f := once(K, "store_from_actor")):
            c26_store(ctx, K)
        if (f := once(K, "_log_attempt")):
            def log(p):
                ap = [e for e in p.events if e.kind == "call" and is_attr(e.recv, "debug_log", SELF)] + [
                    e for e in p.events if e.kind == "write" and is_attr(e.target, "debug_log", SELF)]
                on = facts(p).get(truthy(attr(SELF, "debug_logging")))
                if on is not True:
                    return "logs although logging is off" if ap else (None if on is False else "nothing is logged")
                if len(ap) != 1 or ap[0].kind == "call" and ap[0].name != "append":
                    return f"{len(ap)} entries are logged"
                v = ap[0].args[0] if ap[0].kind == "call" else ap[0].value
                its = ap[0].items(v)
                d = {x[1][1]: x[2] for x in its or () if x[0] == "tuple"}
                if not is_now(d.get("time", NONE)) or d.get("event") != par(f, 3) or d.get("message") != par(f, 0) or d.get(
                        "current") != par(f, 1) or d.get("destination") != par(f, 2):
                    return "the entry does not tell the time, outcome, message and link"
                return None

            ctx.each_path("C26.log", f"{K.name}._log_attempt", f, ctx.paths(f, K, implicit=False), log, "an attempt")
        if (f := once(K, "make_put")):
            c26_make(ctx, K, f)
        f = prog.method(K, "__init__")

        def start(p):
            if not completes(p):
                return None
            h = p.heap
            for a in ("mode", "send_time", "retry_max_time", "retry_rate", "debug_logging"):
                if h.get(attr(SELF, a)) != P(a):
                    return f"{a} becomes {show(h.get(attr(SELF, a), NONE))}"
            if h.get(DEGRADED) != FALSE:
                return "starts degraded"
            for a in ("blocked_links", "blocked_nodes", "debug_log"):
                t = h.get(attr(SELF, a))
                if t is None or t[0] != "new" or h.get(("items", t)) != ():
                    return f"{a} starts as {show(t or NONE)}"
            st = h.get(attr(SELF, "incoming"))
            if not ctor_of(st, "Store"):
                return "there is no incoming store"
            return None

        ctx.each_path("C26.start", K.name, f, ctx.paths(f, K, implicit=False), start, "creation")
        if K is B:
            def conn(p):
                if not completes(p):
                    return f"fails with {show(p.value)}"
                w = [e for e in p.events if e.kind == "write" and e.target[0] == "sub"]
                fx = facts(p)
                if fx.get(isnone(P("init_entities"))):
                    return "connects nobody in particular" if w else None
                if any(e.kind == "break" for e in p.events):
                    return "not all entities are connected"
                it = [e for e in p.events if e.kind == "iter" and strip_iter(e.term) == P("init_entities")]
                el = ("elem", P("init_entities"))
                if len(w) != len(it) or any(e.target[2] != sub(el, C(0)) or e.value != sub(el, C(1)) for e in w):
                    return "the entities given are not connected to their stores"
                return None

            ctx.each_path("C26.start", "CommsManagerBase.connect", f, ctx.paths(f, K, implicit=False), conn, "creation")
            f = prog.method(K, "connect")

            def connect(p):
                w = [e for e in p.events if e.kind == "write"]
                return None if completes(p) and len(w) == 1 and w[0].target == sub(attr(SELF, "connected"), par(f, 0)) and w[0].value == par(f, 1) else "the store is not entered"

            ctx.each_path("C26.store", "CommsManagerBase.connect", f, ctx.paths(f, K, implicit=False), connect, "connecting")
    K = prog.cls("PointToPointCommsManager")
    transmits(ctx, K, False)
    for S in prog.subclasses(K, strict=True):
        if prog.method(S, "_do_transmit").qual != prog.method(K, "_do_transmit").qual:
            transmits(ctx, S, False)
    # the message itself
    M = prog.cls("Message")
    f = prog.method(M, "__post_init__")
    ctx.each_path("C26.make", "Message", f, ctx.paths(f, M, implicit=False),
                  lambda p: None if completes(p) and p.heap.get(attr(SELF, "uid"), NONE)[0] == "call" and last_name(p.heap[attr(SELF, "uid")][1]).startswith("uuid")
                  and is_attr(p.heap.get(attr(SELF, "time_created"), NONE), "now") else "has no own identity and time of creation", "creation")
    # receiving
    f = prog.method(B, "clean_message")
    m = par(f, 0)

    def clean(p):
        is_m = next((v for k, v in facts(p).items() if k[0] == "isinst" and k[1] == m and last_name(k[2]) == "Message"), None)
        if not completes(p):
            return f"fails with {show(p.value)}"
        if is_m:
            return None if p.value == attr(m, "content") else f"becomes {show(p.value)}"
        if is_m is None or not ctor_of(p.value, "MessageContent"):
            return f"becomes {show(p.value)}"
        d = field(p, p.value, "data", prog.cls("MessageContent"))
        its = p.heap.get(("items", d)) if d else None
        return None if its == (("tuple", C("message"), m),) else "loses what was sent"

    ctx.each_path("C26.receive", "CommsManagerBase.clean_message", f, ctx.paths(f, B, implicit=False), clean, "a received message")
    g = prog.func("generate_comms_wait")
    inner = [x for x in prog.all_functions if x.parent is g and x.is_generator] or [
        x for x in prog.all_functions if x.module is g.module and x.cls is None and x.is_generator]
    for f in inner:
        env = _Inbox(3, prog)
        store, cb = (("free" if f.parent is g else "param", n) for n in params(g if f.parent is g else f)[:2])
        n = 0
        bad = None
        for p in ctx.paths(f, None, oracle=env, implicit=False, unroll=5, opaque={"clean_message"}):
            pend = None
            for e in p.events:
                if e.kind == "yield":
                    if pend is not None:
                        bad = bad or ("a message does not reach the callback", e.loc, p)
                    if not (call_name(e.value) == "get" and e.value[1][1] == store):
                        bad = bad or (f"waits for {show(e.value)}", e.loc, p)
                elif e.kind == "resume" and not e.raised:
                    pend = e.value if is_env(e.value, "msg") else next((x for x in (e.term, e.target) if is_env(x, "msg")), pend)
                    pend = env_term("msg", n)
                    n += 1
                elif e.kind == "call" and e.fn == cb:
                    a = e.args[0] if e.args else NONE
                    if pend is None or not (call_name(a) == "clean_message" and is_env(a[2][0], "msg")):
                        bad = bad or (f"the callback gets {show(a)}", e.loc, p)
                    pend = None
            if p.outcome == "return":
                bad = bad or ("stops receiving", f.loc, p)
        if n < 2 and not bad:
            raise AnalysisBroken("nothing is received")
        if bad:
            ctx.bad("C26.receive", "generate_comms_wait", *bad)
        else:
            ctx.ok("C26.receive", "generate_comms_wait")
    if not inner:
        raise AnalysisBroken("no receiving process in generate_comms_wait")


class _Inbox(Env):
    def choices(self, kind, what, st):
        if kind == "yield":
            return [("msg", ("value", lambda k, s: env_term("msg", k)))]
        return None


def inbox(p):
    """Each get is followed by one transmission of what it produced before the next get."""
    k, sent = 0, 0
    for e in p.events:
        if e.kind == "yield":
            v = e.value
            if call_name(v) != "get" or not is_attr(v[1][1], "incoming", SELF):
                return f"waits for {show(v)}", e.loc
            if k and sent != 1:
                return f"a message is transmitted {sent} times", e.loc
            k, sent = k + 1, 0
        elif e.kind == "call" and e.name == "_do_transmit" and not e.raised:
            m = env_term("msg", k - 1)
            if not k or e.arg(0, "message") != m or e.arg(1, "destination") != attr(m, "destination"):
                return f"{', '.join(show(a) for a in e.all_args())} is transmitted", e.loc
            sent += 1
    if p.outcome != "cut":
        return "stops reading the incoming messages", ""
    return None


def c26_make(ctx, K, f):
    prog = ctx.prog
    MC, MS = prog.cls("MessageContent"), prog.cls("Message")
    m, src, dst, reh = (par(f, i) for i in range(4))

    def inst(p, name):
        return next((v for k, v in facts(p).items() if k[0] == "isinst" and k[1] == m and last_name(k[2]) == name), None)

    def make(p):
        if not completes(p):
            return f"fails with {show(p.value)}"
        e = next((e for e in p.events if e.kind == "call" and e.value == p.value), None)
        if e is None or not ctor_of(p.value, "Put"):
            return f"answers {show(p.value)}"
        if not is_attr(e.arg(0, "put_location"), "incoming", SELF):
            return f"is put into {show(e.arg(0, 'put_location'))}", e.loc
        if e.arg(2, "rehearsal_time_to_complete") != reh:
            return "the rehearsal time is not the one given", e.loc
        u = e.arg(1, "put_object")
        if u == m:
            return None if inst(p, "Message") else ("something that is no message is put", e.loc)
        if inst(p, "Message") is not False or not ctor_of(u, "Message"):
            return f"{show(u)} is put", e.loc
        for n, want in (("sender", src), ("destination", dst), ("mode", attr(SELF, "mode"))):
            if field(p, u, n, MS) != want:
                return f"the {n} is {show(field(p, u, n, MS) or NONE)}", e.loc
        c = field(p, u, "content", MS)
        if c == m:
            return None if inst(p, "MessageContent") else ("the content is no message content", e.loc)
        if inst(p, "MessageContent") is not False or not ctor_of(c, "MessageContent"):
            return f"the content is {show(c or NONE)}", e.loc
        d, t = field(p, c, "data", MC), field(p, c, "message", MC)
        if inst(p, "dict"):
            return None if d == m and t in (None, NONE) else ("the data given is not the content", e.loc)
        return None if t == m and d is not None and d[0] == "new" and p.heap.get(("items", d)) == () else ("the text given is not the content", e.loc)

    ps = ctx.paths(f, K, implicit=False)
    ctx.each_path("C26.make", f"{K.name}.make_put", f, ps, make, "a message")
    ctx.each_path("C26.make-put", f"{K.name}.make_put", f, ps,
                  lambda p: None if sum(e.kind == "call" and ctor_of(e, "Put") for e in p.events) == 1 else "not put once", "a message")


# ---------------------------------------------------------------- C27
def hops_to(edges, ignore, a, d):
    """Next hops lying on a shortest route a -> d avoiding the ignored nodes."""
    dist = {d: 0} if d not in ignore else {}
    level = list(dist)
    while level:
        nxt = []
        for v in level:
            for x, y in edges:
                if y == v and x not in dist and (x not in ignore or x == a):
                    dist[x] = dist[v] + 1
                    nxt.append(x)
        level = nxt
    ok = [y for x, y in edges if x == a and y in dist and y not in ignore]
    best = min((dist[y] for y in ok), default=None)
    return {y for y in ok if dist[y] == best}


def c27_select(ctx, K):
    prog = ctx.prog
    f = prog.method(K, "select_hop")
    src, dst, ign = params(f)[:3]
    NET, NODES = ("new", ("probe",), "dict", "net"), ("new", ("probe",), "dict", "nodes")
    con = f"{K.name}.select_hop"
    n = undecided = 0

    def one(names, edges, ignore, given=True):
        nonlocal n
        heap = {attr(SELF, "_network"): NET, attr(SELF, "_nodes"): NODES}
        ents, nds = [], []
        for x in names:
            S = ("new", ("probe",), "set", f"out-{x}")
            heap[("items", S)] = tuple(C(b) for a, b in edges if a == x)
            ents.append(("tuple", C(x), S))
            t = env_term("node", x)
            heap[attr(t, "name")] = C(x)
            nds.append(("tuple", C(x), t))
        heap[("items", NET)], heap[("items", NODES)] = tuple(ents), tuple(nds)
        IG = ("new", ("probe",), "list", "ignored")
        heap[("items", IG)] = tuple(env_term("node", x) for x in ignore)
        ps = ctx.paths(f, K, implicit=False, unroll=16, unroll_for=16, heap=heap, oracle=NodeEnv(prog),
                       bind={src: env_term("node", names[0]), dst: env_term("node", names[-1]), ign: IG if given else NONE})
        want = hops_to(edges, ignore, names[0], names[-1])
        for p in ps:
            n += 1
            got = p.value[2] if completes(p) and is_env(p.value, "node") else (None if completes(p) and p.value == NONE else show(p.value))
            if (got not in want) if want else got is not None:
                ctx.bad("C27.hop", con, f"links {' '.join(a + b for a, b in edges)}, left out {''.join(ignore) or 'none'}: from {names[0]} to {names[-1]} the hop is {got}, "
                        f"on a shortest route is {' or '.join(sorted(want)) or 'nothing'}", f.loc, p)
                return False
        return True

    names = "abcd"
    core = [(x, y) for x in "abc" for y in "bcd" if x != y]
    extra = [("b", "a"), ("d", "b"), ("c", "a")]
    graphs = [tuple(e for i, e in enumerate(core) if k >> i & 1) for k in range(1 << len(core))]
    jobs = [(names, g, ig, True) for g in graphs for ig in ((), ("b",), ("d",), ("b", "c"))]
    jobs += [(names, g + (e,), (), False) for i, g in enumerate(graphs) for e in (extra[i % 3],)]
    jobs += [("ab", g, ig, True) for g in ((), (("a", "b"),)) for ig in ((), ("b",))]
    core5 = [(x, y) for x in "abce" for y in "bced" if x != y]
    g5 = [tuple(e for i, e in enumerate(core5) if k >> i & 1) for k in range(1 << len(core5))]
    if ctx.tier == "thorough":
        jobs += [("abced", g, (), True) for g in g5] + [("abced", g, ("e",), True) for g in g5[::3]]
    else:
        jobs += [("abced", g, (), True) for g in g5[::7]]
    # wide ones: branches of given lengths (0: a dead end) from the first to the last node, their first nodes in the order of their names
    lens = list(itertools.product((0, 2, 3, 4), repeat=3)) + [q for i, q in enumerate(itertools.product((0, 2, 3), repeat=4)) if ctx.tier == "thorough" or i % 3 == 0]
    for q in lens:
        mids = iter("bcdefghijklmnopqrstuvwxy")
        starts = [next(mids) for _ in q]
        edges, used = [], ["a", *starts]
        for k, b in zip(q, starts):
            edges.append(("a", b))
            at = b
            for _ in range((k or 3) - 2):
                m = next(mids)
                used.append(m)
                edges.append((at, m))
                at = m
            if k:
                edges.append((at, "z"))
        if len(used) > 7:    # the engine follows literal collections of up to eight items
            continue
        jobs.append(("".join(used) + "z", tuple(edges), (), True))
        jobs.append(("".join(used) + "z", tuple(edges), (starts[q.index(min((k for k in q if k), default=0))],), True))
    for j in jobs:
        if not one(*j):
            return
    ctx.ok("C27.hop", con, n)


@prop("C27")
def c27(ctx: Ctx):
    prog = ctx.prog
    T = {"route": "each hop is chosen from where the message is towards its destination", "ignore": "the nodes left out are those that could not be reached (since the last hop, or at all)",
         "link": "the link asked about is the hop taken", "once": "a message is put once, into the destination's store, only when its hop is the destination",
         "blocked": "a hop is made only when the mode is not degraded and the link is open", "retry": "a blocked hop is tried again as configured, then another is chosen",
         "delay": "each hop takes the configured time", "stamp": "the time of sending is recorded", "log": "the outcome of every message is logged",
         "hop": "the hop lies on a shortest route over existing links avoiding the nodes left out; none only when there is no route",
         "connect": "connecting enters the link asked for, and its reverse only when asked for, between nodes that can receive", "start": "starts without links, as configured"}
    for k, t in T.items():
        ctx.rule(f"C27.{k}", t, 1)
    B = prog.cls("RoutingCommsManagerBase")
    done = set()
    for K in [B] + prog.subclasses(B, strict=True):
        f = prog.method(K, "_do_transmit")
        if f.qual not in done:
            done.add(f.qual)
            transmits(ctx, K, True)
        f = prog.method(K, "connect")
        if f.qual not in done:
            done.add(f.qual)
            ctx.each_path("C27.connect", f"{K.name}.connect", f, ctx.paths(f, K, implicit=False),
                          lambda p: None if p.outcome == "raise" and not any(e.kind == "write" for e in p.events) else "a node can be connected without links", "connecting")
        f = prog.method(K, "__init__")
        ctx.each_path("C27.start", K.name, f, ctx.paths(f, K, implicit=False),
                      lambda p: None if not completes(p) or p.heap.get(attr(SELF, "global_ignore")) == P("global_ignore") and all(
                          p.heap.get(attr(SELF, a)) == P(a) for a in ("mode", "send_time", "retry_max_time", "retry_rate", "debug_logging"))
                      else "the settings are not those given", "creation")
    K = prog.cls("RoutingTableCommsManager")
    c27_select(ctx, K)
    f = prog.method(K, "connect_nodes")
    u, v, two = params(f)[:3]
    NET, NODES = ("new", ("probe",), "dict", "net"), ("new", ("probe",), "dict", "nodes")
    tu, tv = env_term("node", "x"), env_term("node", "y")
    SX, SY = ("new", ("probe",), "set", "out-x"), ("new", ("probe",), "set", "out-y")
    heap = {attr(SELF, "_network"): NET, attr(SELF, "_nodes"): NODES, ("items", NET): (("tuple", C("x"), SX), ("tuple", C("y"), SY)), ("items", NODES): (),
            ("items", SX): (C("w"),), ("items", SY): (C("w"),), attr(tu, "name"): C("x"), attr(tv, "name"): C("y")}
    seen = set()
    for both in (True, False):
        def conn(p):
            fx = facts(p)
            none = any(b for k, b in fx.items() if k[0] == "isnone" and call_name(k[1]) == "_get_state")
            asked = {k[1][2][0] for k, b in fx.items() if k[0] == "isnone" and call_name(k[1]) == "_get_state" and not b}
            if p.outcome == "raise":
                if p.heap.get(("items", SX)) != (C("w"),) or p.heap.get(("items", SY)) != (C("w"),):
                    return "a refused link is entered"
                return None if none else "a proper link is refused"
            if not completes(p):
                return None
            seen.add(both)
            if none or asked != {tu, tv}:
                return "a node without a store for the mode is accepted"
            if set(p.heap.get(("items", SX), ())) != {C("w"), C("y")}:
                return "the link is not entered"
            if set(p.heap.get(("items", SY), ())) != ({C("w"), C("x")} if both else {C("w")}):
                return "the reverse link is entered though not asked for" if not both else "the reverse link is not entered"
            nd = {i[1]: i[2] for i in p.heap.get(("items", NODES), ()) if i[0] == "tuple"}
            if nd != {C("x"): tu, C("y"): tv}:
                return "the nodes are not entered under their names"
            return None

        ctx.each_path("C27.connect", f"connect_nodes two_way={both}", f,
                      ctx.paths(f, K, implicit=False, opaque={"_get_state"}, oracle=NodeEnv(prog), heap=heap, bind={u: tu, v: tv, two: C(both)}, unroll_for=3), conn, "connecting")
    if len(seen) < 2 and not ctx.findings:
        raise AnalysisBroken("no link can be entered")
