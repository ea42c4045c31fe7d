"""C40 clones, C17 what a clone shares with its actor."""
from __future__ import annotations

import ast

from ..api import Ctx, prop
from ..model import AnalysisBroken
from .actor_rules import lit
from .h import *

CLONE = ("clone", 0)
KINDS = {"n": None, "l": None, "r": "ResourceState", "d": "_KeyValueBase", "u": None, "x": None, "m": None}
HAS = "nlrdx"     # states with a value of their own; u was never set, m mimics another actor's


def copy_of(t, orig, heap, deep=False):
    """t is made by copying orig."""
    if t is None:
        return False
    orig = orig if isinstance(orig, list) else [orig]
    if t[0] == "call":
        f, a = t[1], t[2]
        nm = last_name(f)
        if f[0] in ("ext", "func", "builtin") and len(a) >= 1 and (a[0] in orig or heap.get(("alias", a[0])) in orig):
            if deep:
                return nm == "deepcopy"
            return nm in ("copy", "deepcopy", "replace") or (nm in ("list", "dict", "set", "tuple") and not deep)
        if f[0] == "attr" and f[1] in orig and nm in ("copy", "__copy__", "__deepcopy__"):
            return not deep or nm == "__deepcopy__"
        return False
    if t[0] == "new" and t[2] in ("list", "dict", "set") and not deep and t not in orig:
        its = heap.get(("items", t)) or ()
        for o in orig:
            oi = heap.get(("items", o))
            if len(its) == 1 and its[0][0] == "star" and its[0][1] == o:
                return True
            if len(its) == 1 and its[0][0] == "each" and strip_iter(its[0][2]) == o:
                return True
            if oi is not None and tuple(its) == tuple(oi):
                return True
    return False


def setup(over, given_env, logging):
    heap = {}
    heap[attr(SELF, "_state_defs")] = lit(heap, "defs", [(k, ("sd", k)) for k in KINDS])
    heap[attr(SELF, "states")] = ("tuple", *[C(k) for k in KINDS])
    for k in KINDS:
        heap[attr(("sd", k), "_allow_none_default")] = C(k in "um")
        heap[attr(("sd", k), "_no_init")] = C(k == "x")
        heap[attr(("sd", k), "name")] = C(k)
    own = {}
    own["dict"] = heap[attr(SELF, "__dict__")] = lit(heap, "dict", [(k, ("val", k)) for k in HAS] + [
        ("_memory_for_r", ("mem", "r")), ("_state_recorders", lit(heap, "recs", [("rec", ("recorder", 0))]))])
    own["recs"] = ("new", ("probe", "recs"), "dict", "probe")
    own["mim"] = heap[attr(SELF, "_mimic_states")] = lit(heap, "mim", [("m", ("tuple", ("other", 0), C("q")))])
    heap[attr(SELF, "_state_recorders")] = own["recs"]
    own["his"] = heap[attr(SELF, "_state_histories")] = lit(heap, "his", [("n", ("hist", "n")), ("rec", ("hist", "rec"))])
    own["kn"] = heap[attr(SELF, "_knowledge")] = lit(heap, "kn", [("k1", ("kn", "k1")), ("k2", ("kn", "k2"))])
    own["q"] = heap[attr(SELF, "_task_queue")] = lit(heap, "q", [("net", ("queue", "net")), ("two", ("queue", "two"))])
    own["nets"] = heap[attr(SELF, "_task_networks")] = lit(heap, "nets", [("net", ("network", 0)), ("two", ("network", 1))])
    heap[attr(SELF, "_debug_logging")] = C(logging)
    ns = lit(heap, "over", [(k, ("given", k)) for k in over])
    kn = lit(heap, "know", [("k2", ("kgiven", "k2")), ("k3", ("kgiven", "k3"))])
    cd = lit(heap, "cdict", [("n", ("cls", "n")), ("plain", ("cls", "plain")), ("_priv", ("cls", "priv"))])
    for c in (attr(SELF, "__class__"), ("call", ("builtin", "type"), (SELF,), ())):
        heap[attr(c, "__dict__")] = cd
    for a in ("_state_histories", "_knowledge", "_task_queue", "_task_networks", "_mimic_states", "_active_states", "__dict__"):
        heap[attr(CLONE, a)] = lit(heap, "clone" + a, [])
    heap[attr(CLONE, "_debug_log")] = lit(heap, "clonelog", [], "list")
    heap[attr(CLONE, "_debug_logging")] = C(logging)
    heap[attr(CLONE, "states")] = heap[attr(SELF, "states")]
    return heap, own, ns, kn


def oracle(kind, what, st):
    if kind == "cond":
        if what[0] == "isinst" and what[1][0] == "sd":
            names = [last_name(x) for x in (what[2][1:] if what[2][0] == "tuple" else [what[2]])]
            return KINDS[what[1][1]] in names
        if what[0] == "isinst" and what[1][0] == "val":
            return False
        if what[0] in ("isnone", "truthy") and isinstance(what[1], tuple) and what[1][0] in ("mem", "val", "kn", "hist", "queue", "recorder", "given", "kgiven", "network", "clone", "env"):
            return what[0] == "truthy"
        if what[0] == "truthy" and what[1][0] == "call" and last_name(what[1][1]) in ("callable", "hasattr") and what[1][2][0][0] == "cls":
            return what[1][2][0] == ("cls", "n")
        return None
    if kind == "call" and what.fn is not None and what.recv != SELF or (kind == "call" and what.name == "__class__"):
        f = what.fn
        if f == attr(SELF, "__class__") or f == ("call", ("builtin", "type"), (SELF,), ()):
            return [(st.fork(), ("value", CLONE))]
    return None


def scenarios(cx):
    out = [((), False, True), (("n",), False, True), (("d", "r"), True, False), ((), True, True), (("r",), False, False)]
    if cx.tier == "thorough":
        out += [(o, e, l) for o in (("l", "m"), ("u",), ("n", "d"), ("n", "l", "r", "d")) for e in (True, False) for l in (True, False)]
    return out


def clone_paths(cx):
    """(scenario text, over, given_env, path, originals) for every scenario of Actor.clone."""
    prog = cx.prog
    A = prog.cls("Actor")
    f = prog.method(A, "clone")
    out = []
    for over, env, logging in scenarios(cx):
        heap, own, ns, kn = setup(over, env, logging)
        kw = f.node.args.kwarg
        if kw is None:
            raise AnalysisBroken("Actor.clone takes no state overrides")
        ep, kp = par(f, 0), par(f, 1)
        bind = {kw.arg: ns, ep[1]: ("env", "given") if env else NONE, kp[1]: kn}
        ps = cx.paths(f, A, heap=heap, oracle=oracle, bind=bind, implicit=False, defaults=True, unroll=9, unroll_for=9,
                      opaque={"_remove_entity", "mock", "_make_clone"})
        if len(ps) > 8:
            raise AnalysisBroken(f"{f.qual}: {len(ps)} outcomes for one scenario")
        what = f"overrides {list(over)}, environment {'given' if env else 'not given'}"
        for p in ps:
            out.append((what, over, env, logging, p, own, heap))
    return f, out


def ctor(p):
    cs = [e for e in p.events if e.kind == "call" and not e.raised and e.value == CLONE and e.name != "cast"]
    return cs


def final(p, name):
    """What the clone's attribute finally is."""
    t = attr(CLONE, name)
    d = p.heap.get(attr(CLONE, "__dict__"))
    its = p.heap.get(("items", d)) or ()
    for x in reversed(its):
        if x[0] == "tuple" and x[1] == C(name):
            return x[2]
    return p.heap.get(t)


def items(p, t):
    its = p.heap.get(("items", t)) if t is not None else None
    if its is None or any(x[0] != "tuple" or len(x) != 3 for x in its):
        return None
    out = {}
    for x in its:
        if x[1][0] != "const":
            return None
        out[x[1][1]] = x[2]
    return out


def mapping_of(p, t, orig, deep):
    """t is a map of its own with every entry of orig copied (or the copy of the map): None when fine."""
    oi = items(p, orig)
    if t is None:
        return "is not copied"
    if t == orig:
        return "is the original's"
    if copy_of(t, orig, p.heap, deep=deep == "deep"):
        return "shares its entries" if deep == "entries" and not (t[0] == "call" and last_name(t[1]) == "deepcopy") else None
    if deep == "shallow" and t[0] == "new" and items(p, t) == oi:
        return None
    its = items(p, t)
    if its is None:
        its2 = p.heap.get(("items", t)) or ()
        if len(its2) == 1 and its2[0][0] == "each" and strip_iter(its2[0][2]) == orig:
            v = its2[0][1]
            if v[0] == "tuple" and len(v) == 3 and (deep == "shallow" or copied_elem(v[2], orig, deep)):
                return None
            return "shares its entries"
        raise AnalysisBroken(f"clone: cannot tell the contents of {show(t)}")
    if set(its) != set(oi):
        return f"holds {sorted(its)} instead of {sorted(oi)}"
    for k, v in its.items():
        if deep == "shallow":
            if v != oi[k] and not copy_of(v, oi[k], p.heap):
                return f"has another {k}"
        elif not copy_of(v, oi[k], p.heap):
            return "shares its entries" if v == oi[k] else f"has {show(v)} for {k}"
    return None


def copied_elem(v, orig, deep):
    return v[0] == "call" and last_name(v[1]) in ("copy", "deepcopy", "list", "dict") and contains(v, lambda x: x == orig)


def states_rule(p, over, own, f):
    cs = ctor(p)
    if len(cs) != 1:
        return "no clone is made" if not cs else "more than one clone is made"
    e = cs[0]
    kw = e.kwargs
    if "**" in kw:
        return "the states given to the clone are not known"
    for k in KINDS:
        v = kw.get(k)
        if k in over:
            if v != ("given", k):
                return f"the override of a state is not used ({show(v) if v else 'missing'})"
            continue
        val = ("val", k)
        src = [attr(SELF, k), val, sub(own["dict"], C(k))]
        if k == "u":
            if v is not None or final(p, k) is not None:
                return "a state that was never set is set on the clone"
        elif k == "x":
            if v is not None:
                return "a no-init state is handed to the constructor, which refuses it"
            fv = final(p, k)
            if fv is None:
                return "a no-init state keeps its default on the clone"
            if fv in src:
                return "a no-init state's value is the original's own object"
            if not copy_of(fv, src, p.heap):
                return f"a no-init state becomes {show(fv)}"
        elif v is None:
            return f"a state ({'mimicking' if k == 'm' else KINDS[k] or 'plain'}) is not given to the clone"
        elif KINDS[k]:
            ok = v[0] == "call" and last_name(v[1]) == "_make_clone" and v[1][1] == ("sd", k) and SELF in v[2]
            if not ok or (k == "r" and not any(x in v[2] for x in src)):
                return f"a {KINDS[k]} state is {show(v)} on the clone"
        elif v in src:
            return "a state's value is the original's own object"
        elif not copy_of(v, src, p.heap):
            return f"a state becomes {show(v)}"
    return None


def memory_rule(p, over, own, f):
    """How a resource was made is remembered for the clone's own clones, unless it was replaced."""
    fv = final(p, "_memory_for_r")
    if "r" in over:
        return None if fv is None else "the memory of the replaced resource is kept"
    if fv is None:
        return "how the resource was made is forgotten"
    if fv == ("mem", "r"):
        return "the memory of the resource is the original's own"
    return None if copy_of(fv, ("mem", "r"), p.heap) else f"the memory of the resource becomes {show(fv)}"


def records_rule(p, own):
    for nm, orig, deep, txt in (("_state_histories", own["his"], "entries", "history"), ("_task_queue", own["q"], "entries", "task queue"),
                                ("_task_networks", own["nets"], "shallow", "table of networks")):
        r = mapping_of(p, final(p, nm), orig, deep)
        if r:
            return f"the {txt} {r}"
    rec = final(p, "_state_recorders")
    if rec is None:
        return "recording classes lose their data"
    if rec == own["recs"]:
        return "recording classes are the original's own"
    if not copy_of(rec, own["recs"], p.heap, deep=True):
        r = mapping_of(p, rec, own["recs"], "entries")
        if r:
            return f"the recording classes' data {r}"
    return None


def knowledge_rule(p, own):
    t = final(p, "_knowledge")
    if t == own["kn"]:
        return "the knowledge is the original's own"
    its = items(p, t) if t is not None else None
    if its is None:
        raise AnalysisBroken("clone: knowledge of unknown contents")
    if set(its) != {"k1", "k2", "k3"}:
        return f"the clone knows {sorted(its)} instead of what the actor knows and what is given"
    if not copy_of(its["k1"], ("kn", "k1"), p.heap):
        return "knowledge is shared" if its["k1"] == ("kn", "k1") else f"knowledge becomes {show(its['k1'])}"
    for k in ("k2", "k3"):
        if its[k] != ("kgiven", k) and not copy_of(its[k], ("kgiven", k), p.heap):
            return "given knowledge does not replace the actor's"
    return None


def log_rule(p, logging, heap0):
    v = final(p, "_debug_log")
    if v == attr(SELF, "_debug_log"):
        return "the log is the original's own"
    if v is not None and v[0] == "call" and not copy_of(v, attr(SELF, "_debug_log"), p.heap):
        return f"the log becomes {show(v)}"
    return None


def frame_rule(p, own, heap0):
    """Nothing of the original changes but its clone count."""
    n = 0
    for e in p.events:
        if e.raised:
            continue
        if e.kind in ("write", "del"):
            t = e.target
            if t == attr(SELF, "_num_clones"):
                n += 1
                if e.kind == "del" or lin_step(e.value) != 1:
                    return "the clone count does not go up by one", e.loc
                continue
            b = t
            while b[0] in ("attr", "sub"):
                b = b[1]
            if b == SELF or (b[0] == "new" and b in own.values()):
                return f"changes {show(t)} of the original", e.loc
    for k, o in own.items():
        if p.heap.get(("items", o)) != heap0.get(("items", o)):
            return f"changes the original's {k}"
    for e in p.events:
        if e.kind == "call" and not e.raised and e.recv is not None and e.name in (
                "update", "append", "pop", "clear", "setdefault", "extend", "remove", "add", "popitem", "__setitem__", "sort", "reverse"):
            b = e.recv
            while b[0] in ("attr", "sub"):
                b = b[1]
            if b == SELF or b[0] in ("hist", "queue", "mem", "kn", "val") or b in own.values():
                return f"changes {show(e.recv)} of the original", e.loc
    return None if n == 1 else "the clone count does not go up by one"


def lin_step(v):
    """v - self._num_clones when constant."""
    d = lin(("bin", "-", v, attr(SELF, "_num_clones")))
    return dict(d).get((), 0) if set(dict(d)) <= {()} else None


def life_rule(p, env, f):
    cs = ctor(p)
    if len(cs) != 1:
        return "no clone is made"
    e = cs[0]
    rem = [x for x in p.events if x.kind == "call" and x.name == "_remove_entity" and x.recv == CLONE and not x.raised]
    if not rem:
        return "the clone stays among the simulation's entities"
    nm = e.kwargs.get("name")
    if nm is None or not contains(nm, attr(SELF, "name")):
        return "the clone is not named after its actor", e.loc
    if not contains(nm, lambda x: is_attr(x, "_num_clones")):
        return "clones do not get names of their own", e.loc
    if p.heap.get(attr(CLONE, "_is_rehearsing")) != TRUE:
        return "the clone is not marked as rehearsing"
    ev = [x for x in p.events if x.kind == "write" and x.target in (attr(CLONE, "env"), attr(CLONE, "_new_env"))]
    if len(ev) != 1:
        return "the clone does not get an environment of its own"
    v = ev[0].value
    if env:
        if v != ("env", "given"):
            return "the given environment is not used", ev[0].loc
    elif not (v[0] == "call" and last_name(v[1]) == "mock" and attr(SELF, "env") in v[2]) and not (
            v[0] == "new" and v[2] == "obj" and "MockEnvironment" in str(v[3])):
        return f"the clone's environment is {show(v)}, not a mock clock", ev[0].loc
    if e.kwargs.get("debug_log", TRUE) not in (attr(SELF, "_debug_logging"), C(True), C(False)):
        return "the clone logs otherwise than its actor", e.loc
    if p.value != CLONE:
        return "another actor is returned"
    return None


def clone_rules(cx: Ctx, pre: str):
    f, all_ = clone_paths(cx)
    cx.rule(f"{pre}.states", "a clone is a new object of its actor's class and gets a copy of every state's value, else the given override", 5)
    cx.rule(f"{pre}.records", "a clone's histories, recorders, queues, networks, knowledge and log are its own copies", 5)
    cx.rule(f"{pre}.frame", "cloning changes nothing of the actor but its clone count", 5)
    cx.rule(f"{pre}.life", "a clone is named after its actor, marked as rehearsing, in its own clock and not among the entities", 5)
    for what, over, env, logging, p, own, heap0 in all_:
        rs = [("states", (lambda: "cloning fails") if not completes(p) else (lambda: states_rule(p, over, own, f) or memory_rule(p, over, own, f)))]
        if completes(p):
            rs += [("records", lambda: records_rule(p, own) or knowledge_rule(p, own) or log_rule(p, logging, heap0)),
                   ("frame", lambda: frame_rule(p, own, heap0)), ("life", lambda: life_rule(p, env, f))]
        for rid, fn in rs:
            r = fn()
            txt, loc = r if isinstance(r, tuple) else (r, f.loc)
            if txt:
                cx.bad(f"{pre}.{rid}", f"{f.qual} {txt}", f"{what}: {txt}", loc, p)
            else:
                cx.ok(f"{pre}.{rid}", f"{f.qual} {what}")


# -- the copies kinds of states make -------------------------------------------------------------------
def kind_rules(cx: Ctx):
    prog = cx.prog
    cx.rule("C40.kind", "every kind of state that copies itself gives a new object with the same contents and changes nothing", 5)
    KV = prog.cls("_KeyValueBase")
    RS = prog.cls("ResourceState")
    for c in [*prog.subclasses(KV, strict=True), *prog.subclasses(RS)]:
        f = prog.method(c, "_make_clone")
        inst = par(f, 0)
        multi = c.name == "MultiStoreState" or any(k.name == "MultiStoreState" for k in c.mro_classes)
        res = c in prog.subclasses(RS)
        heap = {attr(SELF, "name"): C("s")}
        own = {"a": ("res", 1), "b": ("res", 2)}
        if "Dataclass" in c.name:
            stored = ("val", "s")
        else:
            stored = lit(heap, "stored", list(own.items()))
        if not res:
            heap[attr(inst, "__dict__")] = lit(heap, "dict", [("s", stored)])
            heap[attr(inst, "s")] = stored
        ps = cx.paths(f, c, heap=heap, implicit=False, defaults=True, opaque={"_copy_resource"})
        for p in ps:
            r = None
            v = norm(p.value) if p.value is not None else None
            if v is not None and ("alias", v) in p.heap:
                v = p.heap[("alias", v)]
            if not completes(p):
                r = "cannot be copied"
            elif [e for e in p.events if e.kind in ("write", "del") and root(e.target) in (inst, stored)] or (
                    not res and p.heap.get(("items", stored)) != heap.get(("items", stored))):
                r = "changes the original"
            elif res:
                r = resource_copy(p, v, inst, par(f, 1))
            elif v in (None, stored):
                r = "is the original's own object"
            elif multi:
                its = items(p, v)
                if its is None:
                    r = "shares its stores" if copy_of(v, stored, p.heap) else f"becomes {show(v)}"
                elif set(its) != set(own):
                    r = f"holds {sorted(its)} instead of its stores"
                elif any(w[0] != "call" or last_name(w[1]) != "_copy_resource" or w[2][:2] != (inst, own[k]) or len(w[2]) + len(w[3]) != 3
                         for k, w in its.items()):
                    r = "shares its stores" if any(w == own[k] for k, w in its.items()) else "has other stores"
                elif any(not any(x[0] == "tuple" and x[1:] == (C("capacity"), attr(own[k], "capacity")) for x in p.heap.get(("items", w[2][2])) or ())
                         for k, w in its.items() if len(w[2]) == 3):
                    r = "forgets the capacity of its stores"
            elif copy_of(v, stored, p.heap):
                pass
            elif items(p, v) == {"a": own["a"], "b": own["b"]}:
                pass
            else:
                r = f"becomes {show(v)}"
            if r:
                cx.bad("C40.kind", f"{f.qual} for {c.name}", f"a {c.name}'s value {r}", f.loc, p)
                break
        else:
            cx.ok("C40.kind", f"{f.qual} for {c.name}")
    copy_resource(cx)


def root(t):
    while t[0] in ("attr", "sub"):
        t = t[1]
    return t


def resource_copy(p, v, inst, res):
    """A resource state's copy is made from the resource with the remembered arguments, else its capacity."""
    if v is None or v[0] != "call" or last_name(v[1]) != "_copy_resource":
        return f"becomes {show(v)}"
    a = list(v[2]) + [x for _, x in v[3]]
    if a[:2] != [inst, res]:
        return "is copied from something else"
    if len(a) < 3:
        return "is copied without its arguments"
    cap = attr(res, "capacity")
    if not (contains(a[2], lambda x: x[0] == "const" and isinstance(x[1], str) and x[1].startswith("_memory_for_"))
            or any(contains(y, cap) for y in p.heap.get(("items", a[2])) or ())):
        return "forgets how the resource was made"
    return None


def copy_resource(cx: Ctx):
    prog = cx.prog
    cx.rule("C40.resource", "copying a resource makes a new one of its class outside the entities, with its items or level, and leaves it alone", 3)
    f = prog.func("_copy_resource")
    inst, res, kwp = (par(f, i) for i in range(3))
    new = ("newres", 0)
    for kind in ("Store", "Container", "named Store"):
        heap = {attr(new, "items"): lit({}, "x", [], "list")}

        def orc(k, what, st, kind=kind):
            if k == "cond" and what[0] == "isinst" and what[1] in (res, new):
                names = [last_name(x) for x in (what[2][1:] if what[2][0] == "tuple" else [what[2]])]
                if any(n in kind for n in names):
                    return True
                if "NamedUpstageEntity" in names or any(n in ("MonitoringMixin",) or n.startswith("SelfMonitoring") for n in names):
                    return kind.startswith("named")
                return False
            if k == "call" and what.fn is not None and (what.fn == attr(res, "__class__") or what.fn == ("call", ("builtin", "type"), (res,), ())):
                return [(st.fork(), ("value", new))]
            return None
        for p in cx.paths(f, None, heap={}, oracle=orc, implicit=False, opaque={"_remove_entity"}):
            r = None
            cs = [e for e in p.events if e.kind == "call" and e.value == new and e.name != "cast"]
            ws = [e for e in p.events if e.kind == "write" and contains(e.target, lambda x: x == res)]
            mut = [e for e in p.events if e.kind == "call" and e.recv is not None and contains(e.recv, lambda x: x == res)
                   and e.name in ("append", "pop", "clear", "extend", "remove", "sort", "get", "put", "insert")]
            if not completes(p):
                r = "fails"
            elif len(cs) != 1 or norm(p.value) != new:
                r = "returns no new resource of the same class"
            elif cs[0].arg(0, "env") != attr(inst, "env") or cs[0].kwargs.get("**") != kwp:
                r = "is not made with the remembered arguments"
            elif ws or mut:
                r = "changes the original"
            elif "Store" in kind:
                v = [e.value for e in p.events if e.kind == "write" and e.target == attr(new, "items")]
                its = attr(res, "items")
                ext = [e for e in p.events if e.kind == "call" and e.recv == attr(new, "items") and e.name == "extend" and e.args[0] == its]
                if v and v[-1] == its:
                    r = "shares the list of items"
                elif not (v and copy_of(v[-1], its, p.heap)) and not ext:
                    r = "has other items"
                elif kind.startswith("named") and not [e for e in p.events if e.kind == "call" and e.name == "_remove_entity" and e.recv == new]:
                    r = "stays among the simulation's entities"
            else:
                v = [norm(e.value) for e in p.events if e.kind == "write" and e.target == attr(new, "_level")]
                lv = (attr(res, "level"), attr(res, "_level"))
                if not v or not (v[-1] in lv or (v[-1][0] == "call" and v[-1][1] == ("builtin", "float") and v[-1][2][0] in lv)):
                    r = "has another level"
            if r:
                cx.bad("C40.resource", f"{f.qual} {kind}", f"the copy of a {kind} {r}", f.loc, p)
                break
        else:
            cx.ok("C40.resource", f"{f.qual} {kind}")


@prop("C40")
def c40(cx: Ctx):
    clone_rules(cx, "C40")
    kind_rules(cx)
