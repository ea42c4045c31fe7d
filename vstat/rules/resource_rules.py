"""C22 monitored quantities, C23 reservations, C24 continuous flows, C25 sorted gets."""
from __future__ import annotations

import ast
import itertools

from ..api import Ctx, prop
from ..engine import FALSE, NONE, SELF, TRUE, attr, call_name, contains, is_attr, last_name, show, strip_iter
from ..model import AnalysisBroken
from .h import (C, P, completes, ctor_of, div, exc_name, facts, has_key, isnone, map_ops, par, params, peq, add, minus, mul, raises,
                order, possible, read_of, sub, truthy, tup)
from .script import Env, env_term, exc, is_env, none, value

ENV = attr(SELF, "_env")
NOW = attr(ENV, "now")
QS = attr(SELF, "_quantities")
LEVEL = attr(SELF, "_level")


def is_now(t):
    return t == NOW or t in (attr(attr(SELF, "env"), "now"), attr(P("env"), "now"))


# ---------------------------------------------------------------- C25
def c25_store(ctx, prog):
    S = prog.cls("SortedFilterStore")
    EV = None
    rules = {"least": "among the items the filter accepts the one with the smallest key (largest when reversed; without a key the first) is taken",
             "only": "exactly the taken item leaves the store, once, and the order of the others stays",
             "wait": "without a matching item nothing is taken and the request stays pending, keeping no later request from being served"}
    for k, t in rules.items():
        ctx.rule(f"C25.{k}", t, 1)
    n = 4 if ctx.tier == "thorough" else 3
    classes = [S] + [c for c in prog.subclasses(S, strict=True)]
    for K in classes:
        f = prog.method(K, "_do_get")
        ev = par(f, 0)
        its = tuple(env_term("i", k) for k in range(n))
        L = ("new", ("probe",), "list", "items")

        class O:
            def __init__(self, ok, rk):
                self.ok, self.rk = ok, rk

            def __call__(self, kind, w, st):
                if kind == "call":
                    if w.fn == attr(ev, "filter") and w.args and w.args[0] in its:
                        return [(st.fork(), ("value", C(self.ok[w.args[0][2]])))]
                    if w.fn == attr(ev, "sorter") and w.args and w.args[0] in its:
                        return [(st.fork(), ("value", C(self.rk[w.args[0][2]])))]
                if kind == "cond" and w[1] == attr(ev, "sorter") and w[0] in ("isnone", "truthy"):
                    return (w[0] == "isnone") == (self.rk is None)
                return None

        bad = {}
        runs = 0
        ranks = [None] + list(itertools.product(range(n), repeat=n))
        for ok in itertools.product((True, False), repeat=n):
            for rk in ranks:
                if rk is not None and any(rk[i] != 0 for i in range(n) if not ok[i]):
                    continue    # the key of an item that does not match is not asked for
                for rev in (False, True) if rk is not None else (False,):
                    heap = {attr(SELF, "items"): L, ("items", L): its, attr(ev, "reverse"): C(rev)}
                    if rk is None:
                        heap[attr(ev, "sorter")] = NONE
                    ps = ctx.paths(f, K, oracle=O(ok, rk), heap=heap, implicit=False, unroll=n + 1, unroll_for=n + 1)
                    runs += 1
                    match = [i for i in range(n) if ok[i]]
                    for p in ps:
                        if p.outcome == "cut":
                            continue
                        suc = [e for e in p.events if e.kind == "call" and e.name == "succeed" and e.recv == ev]
                        left = p.heap.get(("items", L))
                        case = f"items matching {ok}, keys {rk}, reversed {rev}"
                        if p.outcome != "return":
                            bad.setdefault("wait", (f"ends with {show(p.value)} for {case}", p))
                            continue
                        if p.value not in (TRUE, C(1)):
                            bad.setdefault("wait", (f"answers {show(p.value)}, so that later requests are not looked at", p))
                        if not match:
                            if suc or left != its:
                                bad.setdefault("wait", (f"takes something for {case}", p))
                            continue
                        if len(suc) != 1:
                            bad.setdefault("only", (f"the request succeeds {len(suc)} times for {case}", p))
                            continue
                        got = suc[0].args[0] if suc[0].args else None
                        if rk is None:
                            good = {its[match[0]]}
                        else:
                            best = (max if rev else min)(rk[i] for i in match)
                            good = {its[i] for i in match if rk[i] == best}
                        if got not in good:
                            bad.setdefault("least", (f"takes {show(got)} for {case}", p))
                        if left != tuple(x for x in its if x != got):
                            bad.setdefault("only", (f"leaves {left} for {case}", p))
        if runs < 20:
            raise AnalysisBroken("too few cases of the sorted get")
        for k in rules:
            if k in bad:
                ctx.bad(f"C25.{k}", f"{K.name}._do_get", bad[k][0], f.loc, bad[k][1])
            else:
                ctx.ok(f"C25.{k}", f"{K.name}._do_get")


@prop("C25")
def c25(ctx: Ctx):
    prog = ctx.prog
    c25_store(ctx, prog)
    ctx.rule("C25.request", "a request knows its filter, key and direction before the store looks at it", 1)
    G = prog.cls("_SortedFilterStoreGet")
    f = prog.method(G, "__init__")
    names = params(f)

    def rq(p):
        sup = next((i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "__init__" and e.recv is not None), None)
        if sup is None:
            return "the request is never made" if completes(p) else None
        if p.events[sup].args[:1] != (par(f, 0),):
            return "the request is made to something else"
        for a, d in (("filter", par(f, 1)), ("sorter", par(f, 2)), ("reverse", par(f, 3))):
            w = [i for i, e in enumerate(p.events) if e.kind == "write" and e.target == attr(SELF, a)]
            if not w or w[0] > sup:
                return f"the request is made before its {a} is known", p.events[sup].loc
            if p.heap.get(attr(SELF, a)) != d:
                return f"another {a} is kept", p.events[w[-1]].loc
        return None

    ctx.each_path("C25.request", "_SortedFilterStoreGet", f, ctx.paths(f, G, implicit=False), rq, "a request")
    ctx.rule("C25.default", "by default every item matches, none is preferred and the smallest key wins", 2)
    for K in ("_SortedFilterStoreGet", "SortedFilterGet"):
        f = prog.method(prog.cls(K), "__init__")
        ds = dict(zip(reversed(params(f)), reversed(f.node.args.defaults)))
        d = ds.get("filter")
        ok = isinstance(d, ast.Lambda) and isinstance(d.body, ast.Constant) and d.body.value is True
        ok2 = isinstance(ds.get("sorter"), ast.Constant) and ds["sorter"].value is None
        ok3 = isinstance(ds.get("reverse"), ast.Constant) and ds["reverse"].value is False
        ctx.check(ok and ok2 and ok3, "C25.default", K, "the defaults are others", f.loc)
    ctx.rule("C25.pass", "a sorted get event asks its store with the filter, key and direction given", 2)
    U = prog.cls("SortedFilterGet")
    f = prog.method(U, "__init__")

    def ps(p):
        if not completes(p):
            return None
        kw = p.heap.get(attr(SELF, "get_kwargs"))
        its = p.heap.get(("items", kw)) if kw is not None else None
        if its is None:
            return "the arguments of the request are unknown"
        got = {i[1][1]: i[2] for i in its if i[0] == "tuple"}
        want = {"filter": P("filter"), "sorter": P("sorter"), "reverse": P("reverse")}
        if got != want or len(its) != 3:
            return f"asks with {sorted(got)}"
        if p.heap.get(attr(SELF, "get_location")) != par(f, 0):
            return "asks another store"
        return None

    ctx.each_path("C25.pass", "SortedFilterGet.__init__", f, ctx.paths(f, U, implicit=False), ps, "the event")
    g = prog.method(U, "as_event")

    def ae(p):
        gets = [e for e in p.events if e.kind == "call" and e.name == "get" and e.recv == attr(SELF, "get_location")]
        if not completes(p) or not gets:
            return None
        if gets[0].kwargs.get("**") != attr(SELF, "get_kwargs") or gets[0].args not in ((), (("star", attr(SELF, "get_args")),)):
            return "other arguments are given to the store", gets[0].loc
        return None

    ctx.each_path("C25.pass", "SortedFilterGet.as_event", g, ctx.paths(g, U, implicit=False), ae, "the event")


# ---------------------------------------------------------------- C22
class AfterSuper(Env):
    """The simpy base class's step: afterwards the level, the items and the request's state are new values."""

    def __init__(self, prog, cls):
        super().__init__(99, prog)
        self.cls = cls

    def choices(self, kind, what, st):
        if kind == "call" and what.recv is not None and what.recv[0] == "super" and what.name in ("_do_put", "_do_get", "_trigger_put",
                                                                                                   "_trigger_get", "__init__"):
            nm, args = what.name, what.args

            def mk(k, s):
                s.heap[LEVEL] = env_term("level", k)
                s.heap[attr(SELF, "items")] = env_term("items", k)
                if args and nm.startswith("_do"):
                    s.heap[attr(args[0], "triggered")] = env_term("triggered", k)
                if nm == "__init__":
                    s.heap[ENV] = P("env")
                    return NONE
                return env_term("super", k)

            return [("s", ("value", mk))]
        if kind == "call" and what.name == "succeed" and what.recv is not None:
            def done(k, s, r=what.recv):
                s.heap[attr(r, "triggered")] = TRUE
                return r

            return [("s", ("value", done))]
        return None


def entries(p):
    """(event, entry) for every addition to self._quantities."""
    out = []
    for e in p.events:
        if e.raised:
            continue
        if e.kind == "call" and e.recv == QS and e.name in ("append", "insert", "extend"):
            if e.name == "append":
                out.append((e, e.args[0]))
            else:
                its = e.items(e.args[-1]) if e.name == "extend" else None
                out += [(e, x) for x in its] if its else [(e, e.args[-1] if e.name == "insert" and e.args[0] != C(0) else None)]
        elif e.kind == "call" and e.recv == QS and e.name in ("pop", "clear", "remove", "sort", "reverse"):
            out.append((e, None))
        elif e.kind == "write" and (e.target == QS or (e.target[0] == "sub" and e.target[1] == QS)):
            if e.target == QS and e.aug and e.aug[0] == "+":
                its = e.items(e.aug[1])
                out += [(e, x) for x in its] if its else [(e, None)]
            else:
                out.append((e, None))
        elif e.kind == "del" and contains(e.target, lambda x: x == QS):
            out.append((e, None))
    return out


def is_last(t):
    return t == sub(QS, C(-1))


def redundant(p, q, upto=None):
    """The path decided that the last entry already gives quantity q."""
    for k, v in facts(p, upto).items():
        if not v or k[0] != "eq":
            continue
        for a, b in ((k[1], k[2]), (k[2], k[1])):
            if a == sub(sub(QS, C(-1)), C(1)) and b == q:
                return True
            if is_last(a) and tup(b, 2) and b[2] == q:
                return True
            if a == sub(sub(QS, C(-1)), ("slice", C(1), NONE, NONE)):
                return True
    return False


MONITORED = {"Store": ("items",), "FilterStore": ("items",), "Container": ("_level",)}
PROCEEDS = {("Container", "_do_put"), ("Container", "_do_get"), ("FilterStore", "_do_get")}


def ext_base(prog, K):
    """Name of the simpy class a class is derived from."""
    for c in K.mro_classes:
        for b in c.node.bases:
            nm = ast.unparse(b).split(".")[-1]
            if nm in MONITORED:
                r = prog.resolve_expr(c.module, b)
                if isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("simpy"):
                    return nm
    return None


@prop("C22")
def c22(ctx: Ctx):
    prog = ctx.prog
    M = prog.cls("MonitoringMixin")
    classes = [c for c in prog.subclasses(M, strict=True)]
    ctx.rule("C22.start", "the first entry is the time and the quantity of creation", 5)
    ctx.rule("C22.record", "a step that completes a request appends the time and the quantity after it, unless the last entry already gives that quantity", 8)
    ctx.rule("C22.true", "every entry is the current time and the quantity held then", 6)
    ctx.rule("C22.through", "monitoring does not change what the store or container does", 8)
    seen = set()
    for K in classes:
        base = ext_base(prog, K)
        f = prog.method(K, "__init__")
        storelike = base in ("Store", "FilterStore")

        def quantity(p, t, upto=None, made=False):
            """t is the quantity held at that point."""
            ev = p.events if upto is None else p.events[: p.index(upto)]
            if storelike:
                items = next((("env", "items", e.value[2]) for e in reversed(ev) if e.kind == "call" and is_env(e.value or NONE, "super")), None)
                if made:
                    items = next((x for x in (p.heap.get(attr(SELF, "items")),) if x), None)
                if internal(p):
                    items = attr(SELF, "items")
                fn = p.heap.get(attr(SELF, "item_func"), attr(SELF, "item_func"))
                c = next((e for e in reversed(ev) if e.kind == "call" and e.value == t and e.fn in (fn, attr(SELF, "item_func"))), None)
                if c is None:
                    return False
                last = max((i for i, e in enumerate(ev) if e.kind == "call" and (is_env(e.value or NONE, "super") or e.name in ("pop", "succeed", "append", "insert")
                                                                                 and e.recv != QS)), default=-1)
                return c.args == (items,) and p.index(c) > last
            lv = "_level" if not reserve else "_real_level"
            h = None
            for e in ev:
                if e.kind == "write" and e.target == attr(SELF, lv):
                    h = e.value
                elif e.kind == "call" and is_env(e.value or NONE, "super"):
                    h = ("env", "level", e.value[2])
            if made:
                h = p.heap.get(attr(SELF, lv))
            return t == (h if h is not None else attr(SELF, lv))

        def internal(p):
            return not any(e.kind == "call" and is_env(e.value or NONE, "super") for e in p.events)

        reserve = K.is_sub(prog.cls("ReserveContainer")) if prog.by_class.get("ReserveContainer") else False

        # start
        def start(p):
            if not completes(p):
                return None
            q = p.heap.get(QS)
            its = p.heap.get(("items", q)) if q is not None else None
            if its is None or len(its) != 1 or tup(its[0], 2) is None:
                return f"starts with {show(q) if q else 'nothing'}"
            if not is_now(its[0][1]) and not (its[0][1] == attr(P("env"), "now")):
                return "the first entry has another time"
            if storelike:
                fn = p.heap.get(attr(SELF, "item_func"))
                d = facts(p).get(isnone(P("item_func")))
                if d is None:
                    d = next((not v for k, v in facts(p).items() if k == truthy(P("item_func"))), None)
                if fn != (("builtin", "len") if d else P("item_func")):
                    return "the function of the items is not the one given (else their number)"
                x = its[0][2]
                items = p.heap.get(attr(SELF, "items"))
                if x != ("call", fn, (items,), ()):
                    return f"the first entry is {show(x)}"
                return None
            lv = p.heap.get(attr(SELF, "_real_level" if reserve else "_level"))
            return None if its[0][2] == lv and lv is not None else f"the first entry is {show(its[0][2])}"

        if (f.qual, base) not in seen:
            seen.add((f.qual, base))
            ps = ctx.paths(f, K, oracle=AfterSuper(prog, K), implicit=False,
                           opaque={"_add_entity", "_add_to_group", "_add_special_group", "_add_as_entity"})
            ctx.each_path("C22.start", K.name, f, ps, start, "creation")

        # steps
        steps = []
        if base:
            for nm in ("_do_put", "_do_get"):
                g = prog.method(K, nm) if K.find(nm) is not None else None
                if g is None:
                    ctx.bad("C22.record", f"{K.name}.{nm}", "completed requests are not recorded", K.node.lineno and f.loc)
                    continue
                steps.append((nm, g))

            def step(p, nm=None, g=None):
                if not completes(p):
                    return None
                evp = par(g, 0)
                sup = [e for e in p.events if e.kind == "call" and is_env(e.value or NONE, "super")]
                if len(sup) > 1 or (sup and (sup[0].name != nm or sup[0].args != (evp,))):
                    return "through", "the step of the base class is not done once with the request"
                suc = [e for e in p.events if e.kind == "call" and e.name == "succeed" and e.recv == evp]
                if not sup and not contains_do(g):
                    return "through", "the step of the base class is not done"
                if sup:
                    want = (base, nm) in PROCEEDS
                    if p.value != sup[0].value and (want or p.value != NONE):
                        return "through", f"answers {show(p.value)} instead of the base class's answer"
                    trig = next((v for k, v in facts(p).items() if k == truthy(("env", "triggered", sup[0].value[2]))), None)
                else:
                    trig = bool(suc) or None
                    if not suc:
                        trig = False
                ens = entries(p)
                for e, x in ens:
                    t = tup(x, 2) if x is not None else None
                    if t is None or not is_now(t[0]) or not quantity(p, t[1], e):
                        return "true", f"the entry {show(x) if x else '?'} is not the current time and quantity", e.loc
                change = (sup or suc or [None])[-1]
                if trig is False:
                    return None
                good = [e for e, x in ens if change is None or p.index(e) > p.index(change)]
                if good:
                    return None
                qs = [x for k, v in facts(p).items() if v and k[0] == "eq" for x in k[1:]]
                cands = [x[2] if tup(x, 2) else x for x in qs]
                if any(quantity(p, c) and redundant(p, c) for c in cands if isinstance(c, tuple)):
                    return None
                return "record", "a completed request is not recorded"

            def contains_do(g):
                return True

            for nm, g in steps:
                ps = ctx.paths(g, K, oracle=AfterSuper(prog, K), implicit=False)
                run_step(ctx, ps, lambda p, nm=nm, g=g: step(p, nm, g), f"{K.name}.{nm}", g, ("record", "true", "through"))
            for nm in ("_trigger_put", "_trigger_get"):
                g = K.find(nm)
                if g is None:
                    continue

                def trg(p, nm=nm, g=g):
                    if not completes(p):
                        return None
                    sup = [e for e in p.events if e.kind == "call" and is_env(e.value or NONE, "super")]
                    if len(sup) != 1 or sup[0].name != nm or sup[0].args != (par(g, 0),):
                        return "through", "the base class's handling is not done once"
                    for e, x in entries(p):
                        t = tup(x, 2) if x is not None else None
                        if t is None or not is_now(t[0]) or not quantity(p, t[1], e):
                            return "true", f"the entry {show(x) if x else '?'} is not the current time and quantity", e.loc
                    return None

                ps = ctx.paths(g, K, oracle=AfterSuper(prog, K), implicit=False)
                run_step(ctx, ps, trg, f"{K.name}.{nm}", g, ("true", "through"))
        else:
            # built on a container of the package: every method that changes the quantity
            lv = "_real_level" if reserve else "_level"
            own = [c for c in K.mro_classes if not prog.cls("MonitoringMixin").is_sub(c)]
            names = sorted({n for c in own for n, m in c.methods.items()
                            if n != "__init__" and not m.is_property and not m.is_static and (m.qual in ctx.known or not n.startswith("_"))})
            changing = 0
            for nm in names:
                g = prog.method(K, nm)

                def inner(p, nm=nm, lv=lv):
                    ens = entries(p)
                    ws = [e for e in p.events if e.kind == "write" and e.target == attr(SELF, lv) and not e.raised]
                    for e, x in ens:
                        t = tup(x, 2) if x is not None else None
                        if t is None or not is_now(t[0]) or not quantity(p, t[1], e):
                            return "true", f"the entry {show(x) if x else '?'} is not the current time and quantity", e.loc
                    if not ws or p.outcome not in ("return",):
                        return None
                    cur = ws[-1].value
                    if [e for e, x in ens if p.index(e) > p.index(ws[-1])] or redundant(p, cur):
                        return None
                    return "record", "a change of the quantity is not recorded", ws[-1].loc

                ps = ctx.paths(g, K, implicit=False)
                if not any(e.kind == "write" and e.target == attr(SELF, lv) for p in ps for e in p.events) and not any(entries(p) for p in ps):
                    continue
                changing += 1
                run_step(ctx, ps, inner, f"{K.name}.{nm}", g, ("record", "true"))
            if not changing:
                raise AnalysisBroken(f"nothing changes the quantity of {K.name}")


def run_step(ctx, ps, pred, construct, f, rules):
    bad = {}
    for p in ps:
        r = pred(p)
        if r:
            bad.setdefault(r[0], (r[1], r[2] if len(r) > 2 else f.loc, p))
    for k in rules:
        if k in bad:
            ctx.bad(f"{ctx.prop}.{k}", construct, *bad[k])
        else:
            ctx.ok(f"{ctx.prop}.{k}", construct)


# ---------------------------------------------------------------- C23
QUEUED = attr(SELF, "_queued")
REAL = attr(SELF, "_real_level")
FREE = attr(SELF, "_level")


def last_of(p, t):
    ws = [e for e in p.events if e.kind == "write" and e.target == t and not e.raised]
    return ws[-1].value if ws else t


def changes(p):
    """(change of the available amount, of the held amount, of the reservations) over the path; None when unknown."""
    free, real = last_of(p, FREE), last_of(p, REAL)
    return minus(free, FREE), minus(real, REAL), [o for o in map_ops(p, QUEUED)]


ZERO = C(0)


def lists_all(p, t, src):
    """t is a list built of all elements of src, in order."""
    its = p.heap.get(("items", t))
    if its == ():
        return not any(e.kind == "iter" and strip_iter(e.term) == src for e in p.events) and any(
            e.kind == "loop" and strip_iter(e.term) == src for e in p.events)
    if its is None or len(its) != 1:
        return False
    x = its[0]
    return x in (("star", src), ("each", ("elem", src)), ("star", ("call", attr(src, "keys"), (), ()))) or (x[0] == "each" and x[1:2] == (("elem", src),))


@prop("C23")
def c23(ctx: Ctx):
    prog = ctx.prog
    B = prog.cls("ReserveContainer")
    props = {f"{B.methods[n].qual}" for n in B.methods if B.methods[n].is_property}
    classes = [B] + prog.subclasses(B, strict=True)
    T = {"start": "starts with the initial amount held and available and nothing reserved",
         "reserve": "a reservation succeeds exactly if the amount is available and the requester has none; it then takes that amount from what is available only",
         "expire": "an expiration given starts the expiry of just that reservation",
         "cancel": "cancelling makes the reserved amount available again, once; without a reservation nothing changes",
         "take": "taking removes the reservation and exactly its amount from what is held and answers that amount; without a reservation it raises",
         "put": "putting adds the amount to what is held and available, and is refused exactly if it exceeds the capacity and no increase was asked for",
         "conserve": "every other operation keeps reserved plus available equal to what is held",
         "view": "the available amount, its synonym and the requesters are reported as they are"}
    for k, t in T.items():
        ctx.rule(f"C23.{k}", t, 1)
    done = set()

    def go(K, name, pred, rules, gen=False):
        f = prog.method(K, name)
        if f.qual in done:
            return
        done.add(f.qual)
        ps = [p for p in ctx.paths(f, K, inline=props, opaque={"cancel_request"} - {name}) if p.outcome != "exc"]
        if not ps:
            raise AnalysisBroken(f"{f.qual}: no paths")
        all_paths[:] = ps
        run_step(ctx, ps, lambda p: pred(p, f), f"{K.name}.{name}", f, rules)

    all_paths = []

    def same_amounts(p):
        df, dr, ops = changes(p)
        return peq(df, ZERO) and peq(dr, ZERO) and not ops

    def start(p, f):
        if not completes(p):
            return None
        q = p.heap.get(QUEUED)
        if p.heap.get(FREE) != P("init") or p.heap.get(REAL) != P("init"):
            return "start", "the amount held or available is not the initial one"
        if q is None or p.heap.get(("items", q)) != ():
            return "start", "does not start without reservations"
        if p.heap.get(attr(SELF, "capacity")) != P("capacity") or p.heap.get(ENV) != par(f, 0):
            return "start", "the capacity or the clock is not the one given"
        return None

    def reserve(p, f):
        who, amt, exp = par(f, 0), par(f, 1), par(f, 2)
        df, dr, ops = changes(p)
        queued = has_key(p, QUEUED, who)
        if p.outcome == "raise":
            return "reserve", f"raises {show(p.value)}"
        if p.value in (FALSE, NONE):
            if not same_amounts(p):
                return "reserve", "a refused reservation changes something"
            if order(p, FREE, amt) != {-1} and queued is not True:
                return "reserve", "an available amount is refused"
            return None
        if p.value != TRUE:
            return "reserve", f"answers {show(p.value)}"
        if -1 in order(p, FREE, amt):
            return "reserve", "more than what is available can be reserved"
        if queued is not False:
            return "reserve", "a second reservation of one requester can replace the first"
        if not peq(dr, ZERO):
            return "reserve", "reserving changes what is held"
        if not peq(df, minus(ZERO, amt)):
            return "reserve", "what is available does not fall by the amount reserved"
        if len(ops) != 1 or ops[0][0] != "store" or ops[0][1] != who:
            return "reserve", "the reservation is not kept once under its requester"
        v = ops[0][2]
        if not (v[0] == "tuple" and len(v) > 1 and v[1] == amt):
            return "reserve", f"the reservation kept is {show(v)}", ops[0][3].loc
        given = facts(p).get(isnone(exp))
        if given is None:
            t = facts(p).get(truthy(exp))
            given = None if t is None else ("zero" if not t else False)
        exps = [e for e in p.events if e.kind == "call" and e.name == "_expire_request"]
        if given is True:
            return ("expire", "a reservation without expiration expires", exps[0].loc) if exps else None
        if given == "zero":
            return "expire", "an expiration after no time is taken as none"
        if len(exps) != 1:
            return "expire", "the expiration given is not started once"
        e = exps[0]
        g = prog.method(K, "_expire_request")
        if (e.arg(0, params(g)[0]), e.arg(1, params(g)[1]), e.arg(2, params(g)[2])) != (who, exp, v):
            return "expire", "the expiry is started for something else", e.loc
        if any(isinstance(a, ast.Tuple) for a in e.node.args) or any(isinstance(k.value, ast.Tuple) for k in e.node.keywords):
            return "expire", "the expiry is given a copy of the reservation, which it will not recognise", e.loc
        started = "process" in [d.split(".")[-1] for d in g.decorators] or any(
            x.kind == "call" and x.name == "process" and e.value in x.args for x in p.events)
        if not started:
            return "expire", "the expiry is never run", e.loc
        return None

    def cancel(p, f):
        who = par(f, 0)
        df, dr, ops = changes(p)
        missing = [o for o in ops if o[0] == "popdef" and facts(p).get(isnone(o[3].value)) is True]
        ops = [o for o in ops if o not in missing]
        if p.outcome == "raise":
            return "cancel", f"raises {show(p.value)}"
        if not ops:
            if not peq(df, ZERO) or not peq(dr, ZERO) or p.value != FALSE:
                return "cancel", "without removing a reservation the amounts change or success is reported"
            return None if missing or has_key(p, QUEUED, who) is False else ("cancel", "an existing reservation is not removed")
        if len(ops) != 1 or ops[0][0] not in ("pop", "popdef", "remove") or ops[0][1] != who:
            return "cancel", "something else than the reservation is removed", ops[0][3].loc
        if has_key(p, QUEUED, who, ops[0][3]) is not True and not popped(p, ops[0]):
            return "cancel", "a missing reservation is cancelled", ops[0][3].loc
        if not gives(p, df, ops[0], 1):
            return "cancel", "what becomes available is not the reserved amount", ops[0][3].loc
        if not peq(dr, ZERO):
            return "cancel", "cancelling changes what is held"
        return None if p.value == TRUE else ("cancel", f"answers {show(p.value)}")

    def popped(p, op):
        if op[0] == "pop":    # fails for a missing one, which another path handles
            return any(has_key(q, QUEUED, op[1]) is False and q.outcome == "return" for q in all_paths)
        return op[0] == "popdef" and facts(p).get(isnone(op[3].value)) is False

    def entry_terms(p, op):
        who = op[1]
        return {op[3].value, sub(QUEUED, who), ("call", attr(QUEUED, "get"), (who,), ()), ("call", attr(QUEUED, "pop"), (who,), ())} - {None}

    def gives(p, delta, op, sign):
        return any(peq(delta, mul(C(sign), sub(x, C(0)))) for x in entry_terms(p, op))

    def take(p, f):
        who = par(f, 0)
        df, dr, ops = changes(p)
        if p.outcome == "raise":
            if not same_amounts(p):
                return "take", "a failing take changes something"
            return None if has_key(p, QUEUED, who) is False else ("take", "an existing reservation is not fulfilled")
        if len(ops) != 1 or ops[0][0] not in ("pop", "remove") or ops[0][1] != who:
            return "take", "the reservation is not removed once"
        if has_key(p, QUEUED, who, ops[0][3]) is False:
            return "take", "takes without a reservation"
        if not peq(df, ZERO):
            return "take", "taking changes what is available"
        if not gives(p, dr, ops[0], -1):
            return "take", "what is held does not fall by the reserved amount"
        if not any(peq(p.value, sub(x, C(0))) for x in entry_terms(p, ops[0])):
            return "take", f"answers {show(p.value)}"
        return None

    CAP = attr(SELF, "capacity")

    def put(p, f):
        amt, inc = par(f, 0), par(f, 1)
        df, dr, ops = changes(p)
        over = order(p, add(REAL, amt), CAP)
        allowed = facts(p).get(truthy(inc))
        if p.outcome == "raise":
            if not same_amounts(p):
                return "put", "a refused put changes something"
            if over != {1} or allowed is not False:
                return "put", "a put that fits is refused"
            return None
        if ops:
            return "put", "putting changes the reservations", ops[0][3].loc
        if peq(df, ZERO) and peq(dr, ZERO):
            return "put", "nothing is put"
        if not peq(df, amt) or not peq(dr, amt):
            return "put", "what is held and what is available do not both grow by the amount"
        if 1 in over and allowed is not True:
            return "put", "more than the capacity is taken in"
        return None

    def expire(p, f):
        who, t, req = par(f, 0), par(f, 1), par(f, 2)
        ys = [e for e in p.events if e.kind == "yield"]
        if p.outcome == "raise":
            return None
        if len(ys) != 1 or ys[0].value is None or call_name(ys[0].value) != "timeout" or ys[0].value[2][:1] != (t,):
            return "expire", "the reservation does not expire after the given time"
        at = p.index(ys[0])
        acts = [e for e in p.events if (e.kind == "call" and e.name == "cancel_request")]
        ops = map_ops(p, QUEUED)
        cur = (sub(QUEUED, who), ("call", attr(QUEUED, "get"), (who,), ()))

        def mine(k, x):
            if k[0] != x:
                return False
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if b == req and (a in cur or (a[0] == "call" and a[1] == attr(QUEUED, "get") and a[2][:1] == (who,))):
                    return True
            return False

        same = [v for k, v in facts(p).items() if mine(k, "is")]
        gone = has_key(p, QUEUED, who)
        if acts or ops:
            first = (acts or [ops[0][3]])[0]
            if p.index(first) < at:
                return "expire", "the reservation is cancelled before its time", first.loc
            if True not in same:
                return "expire", "another reservation than the one that expires can be cancelled", first.loc
            if acts and (len(acts) != 1 or acts[0].args[:1] != (who,)):
                return "expire", "another requester's reservation is cancelled", first.loc
            if not acts and not (len(ops) == 1 and ops[0][1] == who and ops[0][0] in ("pop", "remove") and gives(p, changes(p)[0], ops[0], 1)):
                return "expire", "the expired reservation is not given back", first.loc
            return None
        if False in same or gone is False or any(k[0] == "isnone" and k[1] in cur and v for k, v in facts(p).items()):
            return None
        return "expire", "a reservation whose time is up is kept"

    SPEC = {"__init__": (start, ("start",)), "reserve": (reserve, ("reserve", "expire")), "cancel_request": (cancel, ("cancel",)),
            "take": (take, ("take",)), "put": (put, ("put",)), "_expire_request": (expire, ("expire",))}
    for K in classes:
        for name, (fn, rules) in SPEC.items():
            go(K, name, fn, rules)

        def law(p, f):
            if not completes(p) or same_amounts(p):
                return None
            return "conserve", "changes the amounts outside reserving, cancelling, taking and putting"

        others = sorted({n for c in K.mro_classes for n, m in c.methods.items()
                         if n not in SPEC and not m.is_static and (m.qual in ctx.known or not n.startswith("_"))})
        for n in others:
            f = prog.method(K, n)
            if not f.is_property:
                go(K, n, law, ("conserve",))
    for name, want in (("available", {FREE}), ("remaining", {FREE})):
        f = prog.method(B, name)
        ctx.each_path("C23.view", f"ReserveContainer.{name}", f, ctx.paths(f, B, implicit=False, inline=props),
                      lambda p: None if p.value in want else f"reports {show(p.value)}", "the amount")
    f = prog.method(B, "queued")

    def keys(p):
        t = p.value
        while t[0] == "call" and t[1] == ("builtin", "list") and len(t[2]) == 1:
            t = t[2][0]
        if lists_all(p, t, QUEUED):
            return None
        if t == QUEUED or t == ("call", attr(QUEUED, "keys"), (), ()):
            return None
        return f"reports {show(p.value)}"

    ctx.each_path("C23.view", "ReserveContainer.queued", f, ctx.paths(f, B, implicit=False), keys, "the requesters")


# ---------------------------------------------------------------- C24
RATE = attr(SELF, "_rate")
LAST = attr(SELF, "_last")
CAPACITY = attr(SELF, "_capacity")
CHECKING = attr(SELF, "_checking")
USERS = attr(SELF, "_active_users")
GROWN = add(LEVEL, mul(RATE, minus(NOW, LAST)))


def final(p, t):
    """Value of self.<t> at the end of the path."""
    ws = [e for e in p.events if e.kind == "write" and e.target == t and not e.raised]
    return ws[-1].value if ws else t


class FlowEnv(Env):
    """The wait of a flow or of the watch over the limits: it is over, or interrupted for a reason."""

    def __init__(self, prog, causes=(), heap=None, sign=None):
        super().__init__(9, prog)
        self.causes, self.heap, self.sign = causes, heap or {}, sign

    KINDS = {"get": ("ContinuousGet", "_ContinuousEvent"), "put": ("ContinuousPut", "_ContinuousEvent")}

    def choices(self, kind, what, st):
        if kind in ("yield", "yieldfrom"):
            out = [("done", ("value", lambda k, s: (s.heap.update(self.heap), NONE)[1]))]
            for n, c in self.causes:
                for sign in (self.sign,) if n != "updated" else (-1, 0, 1):
                    def mk(k, s, n=n, c=c, sign=sign):
                        s.heap.update(self.heap)
                        s.heap[("sign", ("probe",))] = sign
                        t = ("intr", "Interrupt", n, k)
                        s.heap[attr(t, "cause")] = c
                        return t

                    out.append((f"intr-{n}", ("raise", mk)))
            return out
        return None

    def cond(self, key, st):
        sign = st.heap.get(("sign", ("probe",)), self.sign)
        if sign is not None and RATE not in st.heap:
            if key[0] == "lt0":
                d = dict(key[1])
                if set(d) == {RATE}:
                    return d[RATE] * sign < 0
            if key == truthy(RATE):
                return sign != 0
            if key[0] == "eq" and RATE in key[1:]:
                o = key[2] if key[1] == RATE else key[1]
                if o[0] == "const" and o[1] == 0:
                    return sign == 0
        if key[0] == "lt0":
            d = dict(key[1])
            us = [t for t in d if t != () and t[0] == "attr" and t[2] == "rate" and is_env(t[1], "get", "put")]
            if len(us) == 1 and len(d) == 1:
                s = 1 if us[0][1][1] == "put" else -1
                return d[us[0]] * s < 0
        if key[0] == "truthy" and key[1][0] == "attr" and key[1][2] == "rate" and is_env(key[1][1], "get", "put"):
            return True
        return super().cond(key, st)


def c24_level(ctx, prog, K, inl, done):
    """How the level follows the rate, and the rate the flows."""
    for name in ("_set_level", "_add_rate", "add_user", "remove_user", "_set_new_rate"):
        f = prog.method(K, name)
        key = (name, f.qual, prog.method(K, "_set_level").qual)
        if key in done:
            continue
        done.add(key)

        def step(p, f=f, name=name):
            if p.outcome == "exc":
                return None
            if p.outcome != "return":
                return "follow", f"fails with {show(p.value)}"
            ws = [e for e in p.events if e.kind == "write" and not e.raised and e.target in (LEVEL, LAST, RATE)]
            now_is_last = 1 not in order(p, NOW, LAST)
            lv, la, ra = LEVEL, LAST, RATE
            for e in ws:
                if e.target == LEVEL:
                    if not peq(e.value, add(lv, mul(ra, minus(NOW, la)))) and not (now_is_last and e.value == lv):
                        return "follow", f"the level becomes {show(e.value)}", e.loc
                    if not (peq(la, NOW) or now_is_last) and lv != LEVEL:
                        return "follow", "the elapsed time is counted twice", e.loc
                    lv = e.value
                elif e.target == LAST:
                    if e.value != NOW:
                        return "follow", f"the time of the level becomes {show(e.value)}", e.loc
                    la = e.value
                else:
                    if not now_is_last and not (peq(lv, GROWN) and la == NOW):
                        return "follow", "the rate changes before the level is brought up to date", e.loc
                    ra = e.value
            if not now_is_last and not (peq(lv, GROWN) and la == NOW):
                return "follow", "the level is not brought up to date"
            if name == "_set_level":
                return ("follow", f"answers {show(p.value)}") if p.value != lv and not peq(p.value, lv) else None
            # the rate
            u = par(f, 0)
            want = {"_add_rate": add(RATE, u), "add_user": add(RATE, attr(u, "rate")), "remove_user": minus(RATE, attr(u, "rate")),
                    "_set_new_rate": u}[name]
            if not peq(ra, want):
                return "rate", f"the rate becomes {show(ra)}"
            if name in ("add_user", "remove_user"):
                ops = [e for e in p.events if e.kind == "call" and e.recv == USERS]
                if [(e.name, e.args) for e in ops] != [({"add_user": "append", "remove_user": "remove"}[name], (u,))]:
                    return "rate", "the flow is not entered or removed once", (ops[0].loc if ops else f.loc)
            # the watch
            ints = [e for e in p.events if e.kind == "call" and e.name == "interrupt"]
            ck = [e for e in p.events if e.kind == "write" and e.target == CHECKING]
            fs = facts(p)
            old = fs.get(isnone(CHECKING))
            if old is None and fs.get(truthy(CHECKING)) is not None:
                old = not fs[truthy(CHECKING)]
            allowed = True
            if name == "_add_rate":
                allowed = fs.get(truthy(par(f, 1)))
            if ints and (len(ints) > 1 or ints[0].recv != CHECKING or old is not False or allowed is False or
                         not ints[0].args or (ck and p.index(ck[0]) < p.index(ints[0]))):
                return "watch", "something else than the running watch is interrupted once", ints[0].loc
            if not ints and not (old is True or allowed is False):
                return "watch", "the running watch over the limits is not told of the new rate"
            if ints and ints[0].args[0] != C("updated"):
                return "watch", "the watch is interrupted for another reason", ints[0].loc
            if not ck:
                return "watch", "the watch is not renewed"
            sign = order(p, ra, ZERO)
            if ck[-1].value == NONE:
                return None if sign == {0} else ("watch", "a rate that is not zero is not watched", ck[-1].loc)
            v = ck[-1].value
            if call_name(v) != "process" or not v[2] or v[2][0][0] not in ("gen", "call") or not contains_check(v[2][0]):
                return "watch", f"the watch becomes {show(v)}", ck[-1].loc
            started = [e for e in p.events if e.kind == "call" and e.name == "process"]
            if len(started) != 1:
                return "watch", "the watch is started more than once", ck[-1].loc
            wr = [e for e in ws if e.target == RATE]
            return None

        ps = ctx.paths(f, K, inline=inl, implicit=False)
        run_step(ctx, ps, step, f"{K.name}.{name}", f, ("follow",) if name == "_set_level" else ("follow", "rate", "watch"))


def contains_check(t):
    return contains(t, lambda x: isinstance(x, tuple) and len(x) > 1 and ((x[0] == "attr" and x[2:] == ("_check",)) or (
        x[0] == "gen" and str(getattr(x[1], "name", x[1])).split(".")[-1] == "_check")))


def c24_watch(ctx, prog, K, inl, done):
    f = prog.method(K, "_check")
    key = (f.qual, prog.method(K, "_set_level").qual)
    if key in done:
        return
    done.add(key)
    L = ("new", ("probe",), "list", "users")
    n = 0
    bad = {}
    teams = [(), ("put",), ("get",), ("put", "get"), ("get", "put")]
    if ctx.tier == "thorough":
        teams += [t for k in (2, 3) for t in itertools.product(("put", "get"), repeat=k) if t not in teams]
    else:
        teams += [("get", "get"), ("put", "put")]
    for team, sign in itertools.product(teams, (-1, 0, 1)):
        us = tuple(env_term(t, k) for k, t in enumerate(team))
        env = FlowEnv(prog, (("updated", C("updated")), ("other", env_term("cause", 1))), {USERS: L}, sign)
        env_eq = env.equal

        def equal(a, b, env_eq=env_eq):
            for x, y in ((a, b), (b, a)):
                if is_env(x, "cause"):
                    return False
                if is_env(x, "get", "put") and is_env(y, "get", "put"):
                    return x == y
            return env_eq(a, b)

        env.equal = equal
        ps = ctx.paths(f, K, inline=inl, implicit=False, oracle=env, heap={USERS: L, ("items", L): us}, unroll=4, unroll_for=len(us) + 1)
        for p in ps:
            if p.outcome in ("cut", "exc") or not possible(p):
                continue
            n += 1
            r = watch_path(p, f, us, L, sign)
            if r:
                bad.setdefault(r[0], (r[1] + f" (flows: {', '.join(team) or 'none'})", r[2] if len(r) > 2 else f.loc, p))
    if n < 40:
        raise AnalysisBroken(f"only {n} paths of the watch over the limits")
    for k in ("wait", "limit", "flows"):
        if k in bad:
            ctx.bad(f"C24.{k}", f"{K.name}._check", *bad[k])
        else:
            ctx.ok(f"C24.{k}", f"{K.name}._check")


def sign_after(p, t, ev):
    """Possible signs of t by the conditions taken after event ev."""
    class Q:
        pass

    q = Q()
    i = p.index(ev)
    q.conds = lambda upto=None: [(e.term, e.pol) for e in p.events[i:] if e.kind == "cond" and (upto is None or p.index(e) < p.index(upto))]
    return q


def watch_path(p, f, us, L, sign0):
    ys = [e for e in p.events if e.kind in ("yield", "yieldfrom")]
    ws = [e for e in p.events if e.kind == "write" and not e.raised and e.target in (LEVEL, LAST, RATE)]
    rm = [e for e in p.events if e.kind == "call" and e.recv in (L, USERS) and e.name in ("remove", "pop", "clear") and not e.raised]
    ints = [e for e in p.events if e.kind == "call" and e.name == "interrupt"]
    if not ys:
        if sign0:
            return "wait", "a rate that is not zero is not watched"
        return ("wait", "without a rate something changes", ws[0].loc) if ws or rm or ints or p.outcome != "return" else None
    if len(ys) > 1:
        return "wait", "waits more than once", ys[1].loc
    y = ys[0]
    if any(p.index(e) < p.index(y) for e in rm + ints + [w for w in ws if w.target == RATE]):
        return "wait", "flows are ended before the wait is over", y.loc
    lv0 = next((e.value for e in reversed(ws) if e.target == LEVEL and p.index(e) < p.index(y)), LEVEL)
    la0 = next((e.value for e in reversed(ws) if e.target == LAST and p.index(e) < p.index(y)), LAST)
    cur = add(lv0, mul(RATE, minus(NOW, la0)))
    if not peq(cur, GROWN) and 1 in order(p, NOW, LAST, y):
        return "wait", f"the level becomes {show(lv0)} before the wait", y.loc
    if not sign0:
        return "wait", "waits without a rate", y.loc
    if y.value is None or call_name(y.value) != "timeout" or not y.value[2]:
        return "wait", f"waits for {show(y.value)}", y.loc
    lim = CAPACITY if sign0 > 0 else ZERO
    if not peq(y.value[2][0], div(minus(lim, cur), RATE)):
        return "wait", f"waits {show(y.value[2][0])} for the limit {'above' if sign0 > 0 else 'below'}", y.loc
    tag = why(p, y)
    if tag == "other":
        return None if p.outcome == "raise" else ("wait", "an interruption from elsewhere is lost", y.loc)
    if p.outcome == "raise" and exc_name(p.value) not in ("ContainerError", "ContainerEmptyError", "ContainerFullError"):
        return "wait", f"fails with {show(p.value)}", y.loc
    q = sign_after(p, RATE, y)
    lv = next((e.value for e in reversed(ws) if e.target == LEVEL), LEVEL)
    la = next((e.value for e in reversed(ws) if e.target == LAST), LAST)
    s2 = p.heap.get(("sign", ("probe",)), sign0)
    if tag == "done":
        if not peq(lv, lim) or la != NOW:
            return "wait", "when the wait is over the level is not the limit now", y.loc
    elif not (peq(lv, GROWN) and la == NOW) and 1 in order(q, NOW, LAST):
        return "wait", "after a change of rate the level is not brought up to date", y.loc
    # the flows that can go on no longer
    at_empty, at_full = order(q, lv, ZERO), order(q, lv, CAPACITY)
    if not at_empty or not at_full:
        return None    # contradictory conditions
    if tag == "done":
        end = "get" if s2 < 0 else "put"
        if end == "get" and 1 in at_empty or end == "put" and -1 in at_full:
            return None    # contradicts the limit
        at_empty, at_full = at_empty & {0, -1}, at_full & {0, 1}
    elif s2 == 0:
        end = None
    elif s2 < 0:
        end = "get" if 1 not in at_empty else (None if at_empty == {1} else "?")
    else:
        end = "put" if -1 not in at_full else (None if at_full == {-1} else "?")
    if end == "?":
        if rm or ints or p.outcome == "raise":
            return "limit", "flows are ended though no limit is known to be reached", (rm or ints or [y])[0].loc
        return "limit", "whether a limit is reached is not looked at", y.loc
    if end is None:
        if rm or ints or p.outcome == "raise" or any(e.target == RATE for e in ws):
            return "limit", "flows are ended though no limit is reached", (rm or ints or [y])[0].loc
        return None
    doomed = [u for u in us if u[1] == end]
    status = {"get": "empty", "put": "full"}[end]
    flag = attr(SELF, {"get": "error_empty", "put": "error_full"}[end])
    sign = at_empty if end == "get" else at_full
    beyond = {-1} if end == "get" else {1}
    on = next((v for k, v in q.conds() if k == truthy(flag)), None)
    if p.outcome == "raise":
        nm = exc_name(p.value)
        if sign == beyond:
            return None if nm == "ContainerError" else ("limit", f"a level beyond the limit fails as {nm}")
        if nm != {"get": "ContainerEmptyError", "put": "ContainerFullError"}[end]:
            return ("limit", f"reaching the limit fails as {nm}") if 0 in sign and not beyond & sign else None
        if on is not True:
            return "limit", "reaching the limit fails though no error was asked for"
        return None
    if sign == beyond:
        return "limit", "a level beyond the limit is accepted", y.loc
    if on is not False:
        return "limit", "reaching the limit does not fail though an error was asked for", y.loc
    got = [(e.recv, e.args[:1]) for e in ints]
    if sorted(got, key=repr) != sorted([(attr(u, "process"), (C(status),)) for u in doomed], key=repr):
        return "flows", f"the flows interrupted are {[show(e.recv) for e in ints]} instead of the {len(doomed)} that cannot go on", y.loc
    if sorted([e.args for e in rm], key=repr) != sorted([(u,) for u in doomed], key=repr):
        return "flows", "the ended flows are not removed once each", y.loc
    ra = next((e.value for e in reversed(ws) if e.target == RATE), RATE)
    want = RATE
    for u in doomed:
        want = minus(want, attr(u, "rate"))
    if not peq(ra, want):
        return "flows", f"the rate becomes {show(ra)} when {len(doomed)} flows end", y.loc
    if doomed:
        ck = [e for e in p.events if e.kind == "write" and e.target == CHECKING]
        if not ck:
            return "flows", "the remaining flows are not watched", y.loc
        if ck[-1].value == NONE:
            return None if order(q, ra, ZERO) == {0} else ("flows", "the remaining flows are not watched", ck[-1].loc)
        if call_name(ck[-1].value) != "process" or not contains_check(ck[-1].value):
            return "flows", "the remaining flows are not watched", ck[-1].loc
    return None


@prop("C24")
def c24(ctx: Ctx):
    prog = ctx.prog
    B = prog.cls("ContinuousContainer")
    inl = {m.qual for m in B.methods.values() if m.is_property}
    T = {"start": "starts at the initial level, between zero and the capacity, with no flow", "read": "the level read is the last level plus the rate for the time since",
         "follow": "the level is brought up to date, once, before the rate changes", "rate": "a flow adds its rate when it starts and takes it away when it ends",
         "watch": "every change of rate renews the watch over the limits", "wait": "the watch waits until the limit in the direction of the flow is reached",
         "limit": "at a limit the configured error is raised, beyond it an error, before it nothing",
         "flows": "at a limit exactly the flows that cannot go on are ended and their rates taken away",
         "act": "a flow acts from its start for its time unless cancelled or ended by the limit, its callbacks then called", "make": "a flow has the rate of its direction, its time and its limit"}
    for k, t in T.items():
        ctx.rule(f"C24.{k}", t, 1)
    done = set()
    for K in [B] + prog.subclasses(B, strict=True):
        f = prog.method(K, "__init__")
        cap, init = P("capacity"), P("init")

        def start(p):
            if not completes(p):
                if p.outcome == "raise" and -1 not in order(p, init, ZERO) and 1 not in order(p, init, cap) and -1 not in order(p, cap, ZERO):
                    return "a proper initial level is refused"
                return None
            if -1 in order(p, init, ZERO) or 1 in order(p, init, cap):
                return "an initial level outside the bounds is accepted"
            h = p.heap
            if h.get(LEVEL) != init or h.get(CAPACITY) != cap or not peq(h.get(RATE, RATE), ZERO) or h.get(CHECKING) != NONE:
                return "does not start as described"
            if h.get(ENV) != P("env") or h.get(LAST) not in (attr(P("env"), "now"), NOW):
                return "does not start now"
            if h.get(("items", h.get(USERS))) != ():
                return "does not start without flows"
            if h.get(attr(SELF, "error_empty")) != P("error_empty") or h.get(attr(SELF, "error_full")) != P("error_full"):
                return "the errors asked for are not kept"
            return None

        ctx.each_path("C24.start", K.name, f, ctx.paths(f, K, implicit=False, opaque={"_add_entity", "_add_to_group", "_add_special_group", "_add_as_entity"}), start, "creation")
        lv = prog.method(K, "level")
        ctx.each_path("C24.read", f"{K.name}.level", lv, ctx.paths(lv, K, implicit=False, inline=inl),
                      lambda p: None if completes(p) and not any(e.kind == "write" for e in p.events) and peq(p.value, GROWN) or
                      (completes(p) and peq(p.value, LEVEL) and 1 not in order(p, NOW, LAST)) else f"reads {show(p.value)}", "the level")
        rt = prog.method(K, "rate")
        ctx.each_path("C24.read", f"{K.name}.rate", rt, ctx.paths(rt, K, implicit=False, inline=inl),
                      lambda p: None if p.value == RATE else f"reads {show(p.value)}", "the rate")
        c24_level(ctx, prog, K, inl, done)
        c24_watch(ctx, prog, K, inl, done)

    # a flow
    E = prog.cls("_ContinuousEvent")
    CON, STOP, CALLS = attr(SELF, "container"), attr(SELF, "stop_cause"), attr(SELF, "custom_callbacks")
    for K in [E] + prog.subclasses(E, strict=True):
        f = prog.method(K, "_run")
        if (f.qual, "run") in done:
            continue
        done.add((f.qual, "run"))
        env = FlowEnv(prog, (("stop", C("stop")), ("limit", STOP), ("other", env_term("cause", 1))))
        base = env.equal

        def equal(a, b):
            for x, y in ((a, b), (b, a)):
                if is_env(x, "cause"):
                    return False
                if x == STOP and y == C("stop"):
                    return False
            return base(a, b)

        env.equal = equal
        seen = set()

        def run(p):
            if p.outcome in ("cut", "exc"):
                return None
            ys = [e for e in p.events if e.kind == "yield"]
            adds = [e for e in p.events if e.kind == "call" and e.name == "add_user" and e.recv == CON]
            rems = [e for e in p.events if e.kind == "call" and e.name == "remove_user" and e.recv == CON]
            if len(adds) != 1 or adds[0].args != (SELF,):
                return "act", "the flow is not added once to its container"
            if len(ys) != 1 or p.index(ys[0]) < p.index(adds[0]):
                return "act", "the flow does not act while it lasts"
            y = ys[0]
            v = y.value
            if v is None or call_name(v) != "timeout" or not v[2] or v[2][0] != par(f, 0):
                return "act", f"the flow lasts {show(v)}", y.loc
            tag = why(p, y)
            seen.add(tag)
            if tag == "other":
                return None if p.outcome == "raise" else ("act", "an interruption from elsewhere is lost", y.loc)
            if p.outcome != "return":
                return "act", f"ends with {show(p.value)}", y.loc
            cbs = [e for e in p.events if e.kind == "call" and contains(e.fn, lambda x: x == ("elem", CALLS))]
            if tag == "limit":
                if rems:
                    return "act", "a flow ended by the limit takes its rate away a second time", rems[0].loc
                its = [e for e in p.events if e.kind == "iter" and strip_iter(e.term) == CALLS]
                if len(cbs) != len(its) or any(e.args or e.kwargs for e in cbs):
                    return "act", "its callbacks are not called once each", y.loc
                if not any(e.kind in ("loop", "endloop") and e.term is not None and strip_iter(e.term) == CALLS for e in p.events):
                    return "act", "its callbacks are not called", y.loc
                if any(e.kind == "break" for e in p.events):
                    return "act", "not all its callbacks are called", y.loc
                return None
            if cbs:
                return "act", "callbacks are called though no limit is reached", cbs[0].loc
            if len(rems) != 1 or rems[0].args != (SELF,) or p.index(rems[0]) < p.index(y):
                return "act", "the rate of a flow that is over is not taken away once", y.loc
            return None

        ps = ctx.paths(f, K, oracle=env, implicit=False)
        run_step(ctx, ps, run, f"{K.name}._run", f, ("act",))
        if seen != {"done", "stop", "limit", "other"}:
            raise AnalysisBroken(f"endings of a flow seen: {seen}")
    f = prog.method(E, "cancel")

    def cancel(p):
        ints = [e for e in p.events if e.kind == "call" and e.name == "interrupt"]
        alive = next((v for k, v in facts(p).items() if k == truthy(attr(attr(SELF, "process"), "is_alive"))), None)
        if not completes(p):
            return f"fails with {show(p.value)}"
        if ints:
            if len(ints) > 1 or ints[0].recv != attr(SELF, "process") or ints[0].args != (C("stop"),):
                return "something else is interrupted", ints[0].loc
            return None if alive is True else ("a flow that is over is interrupted", ints[0].loc)
        return None if alive is False else "the flow goes on"

    ctx.each_path("C24.act", "_ContinuousEvent.cancel", f, ctx.paths(f, E, implicit=False), cancel, "cancelling")
    for name, s, stt in (("ContinuousPut", 1, "full"), ("ContinuousGet", -1, "empty")):
        K = prog.cls(name)
        f = prog.method(K, "__init__")
        con, rate, time, cb = (par(f, i) for i in range(4))

        def make(p):
            if not completes(p):
                return None if order(p, rate, ZERO) <= {-1, 0} else "a proper rate is refused"
            if order(p, rate, ZERO) != {1}:
                return "a rate that is not positive is accepted"
            h = p.heap
            if h.get(CON) != con:
                return "another container is used"
            if not peq(h.get(attr(SELF, "rate"), NONE), mul(C(s), rate)):
                return f"the rate is {show(h.get(attr(SELF, 'rate')))}"
            if h.get(STOP) != C(stt):
                return f"ends for {show(h.get(STOP))}"
            its = h.get(("items", h.get(CALLS))) if h.get(CALLS) else None
            given = [v for k, v in facts(p).items() if k in (truthy(cb),)] + [not v for k, v in facts(p).items() if k == isnone(cb)]
            if not (h.get(CALLS) == cb and False not in given or its == () and False in given or its == (("star", cb),)):
                return "the callbacks are not those given"
            sp = [e for e in p.events if e.kind == "call" and e.name == "process"]
            if len(sp) != 1 or h.get(attr(SELF, "process")) != sp[0].value:
                return "the flow is not started once"
            g = sp[0].args[0]
            nt = facts(p).get(isnone(time))
            want = C(float("inf")) if nt else time
            if not (g[0] == "gen" and contains(g, lambda x: x == want)):
                return f"the flow is started as {show(g)}", sp[0].loc
            sup = [e for e in p.events if e.kind == "call" and e.name == "__init__" and e.args == (attr(con, "env"),)]
            if not sup and h.get(attr(SELF, "env")) != attr(con, "env"):
                return "the flow has no clock"
            return None

        ctx.each_path("C24.make", name, f, ctx.paths(f, K, implicit=False), make, "a flow")


def why(p, y):
    """How the wait of event y ended: done, or the tag of the interrupt."""
    for e in p.events[p.index(y):]:
        for t in (e.value, e.term):
            if isinstance(t, tuple) and t[:2] == ("intr", "Interrupt"):
                return t[2]
    if isinstance(p.value, tuple) and contains(p.value, lambda x: x[:2] == ("intr", "Interrupt") if isinstance(x, tuple) else False):
        for x in p.value:
            if isinstance(x, tuple) and x[:2] == ("intr", "Interrupt"):
                return x[2]
    return "done"
