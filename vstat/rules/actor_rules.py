"""C04 building an actor."""
from __future__ import annotations

import ast
import itertools

from ..api import Ctx, prop
from ..engine import Raise
from ..model import AnalysisBroken
from .h import *

DEFS = attr(SELF, "_state_defs")
CONTAINERS = ("_active_states", "_mimic_states", "_mimic_states_by_task", "_states_by_task", "_tasks_by_state",
              "_task_networks", "_task_queue", "_knowledge", "_debug_log", "_state_histories")


def lit(heap, tag, items, kind="dict"):
    """A container with known contents."""
    d = ("new", ("probe", tag), kind, "probe")
    heap[("items", d)] = tuple(("tuple", C(k), v) for k, v in items) if kind == "dict" else tuple(items)
    return d


# -- states ---------------------------------------------------------------------------------------
class Spec:
    """One declared state: needs a value / has a default / cannot be given, and the names of its recordings."""

    def __init__(self, default=False, no_init=False, rec=()):
        self.default, self.no_init, self.rec = default, no_init, rec

    def __repr__(self):
        return ("no_init" if self.no_init else "default" if self.default else "required") + ("+" + ",".join(self.rec) if self.rec else "")


def expected(specs, given):
    """What the statement prescribes: None (an error) or the defaults to apply, in order."""
    if any(g not in specs or specs[g].no_init for g in given):
        return None
    miss = [n for n in specs if n not in given]
    if any(not specs[n].default for n in miss) or "log" in specs:
        return None
    names = [n for n in specs] + [r for s in specs.values() for r in s.rec]
    return None if len(set(names)) != len(names) else miss


def scenarios(deep):
    kinds = [Spec(), Spec(default=True), Spec(default=True, no_init=True)]
    out = []
    for a, b in itertools.product(kinds, kinds):
        for given in ((), ("b",), ("a",), ("a", "b"), ("b", "a"), ("z",), ("a", "b", "z"), ("z", "a")):
            out.append(({"b": b, "a": a}, given))
    d = Spec(default=True)
    three = {"z": d, "x": d, "y": d}
    for given in ((), ("y",), ("x",), ("y", "x"), ("z",), ("x", "y", "z")):
        out.append((three, given))
    out.append(({"z": d, "x": Spec(), "y": d}, ("y",)))
    out.append(({}, ()))
    out.append(({}, ("q",)))
    for nm in ("log", "logs"):
        out.append(({nm: d}, ()))
        out.append(({"b": d, nm: d}, (nm,)))
    for ra, rb in ((("b",), ()), ((), ("a",)), (("r",), ("r",)), (("r", "r"), ()), (("a",), ()), ((), ("r", "s", "r")), (("r",), ("s",)),
                   (("r", "s"), ("t", "u"))):
        out.append(({"b": Spec(True, rec=rb), "a": Spec(True, rec=ra)}, ()))
        out.append(({"b": Spec(True, rec=rb), "a": Spec(True, rec=ra)}, ("a", "b")))
    if deep:
        for ks in itertools.product(kinds, repeat=3):
            sp = dict(zip("cab", ks))
            for n in range(4):
                for given in itertools.permutations("abc", n):
                    out.append((sp, given))
    return out


def init_states(cx: Ctx):
    prog = cx.prog
    A = prog.cls("Actor")
    f = prog.method(A, "__init_states")
    cx.rule("C04.states", "building an actor sets every given state to its value and every other to its default in declaration "
                          "order, or raises: unknown name, value for a no-init state, missing value, clashing names", 60)
    bad = {}
    for specs, given in scenarios(cx.tier == "thorough"):
        heap = {}
        heap[DEFS] = lit(heap, "defs", [(n, ("sd", n)) for n in specs])
        G = lit(heap, "given", [(n, ("given", n)) for n in given])
        for n, s in specs.items():
            d = ("sd", n)
            heap[attr(d, "_no_init")] = C(s.no_init)
            heap[attr(d, "name")] = C(n)
            heap[attr(d, "_recording_functions")] = lit(heap, "rec" + n, [("tuple", ("rf", n, i), C(r)) for i, r in enumerate(s.rec)], "list")
        heap[attr(SELF, "states")] = ("tuple", *[C(n) for n in specs])

        def oracle(kind, what, st, specs=specs):
            if kind == "call" and what.name == "has_default" and what.recv is not None and what.recv[0] == "sd":
                return [(st.fork(), ("value", C(specs[what.recv[1]].default)))]
            if kind == "cond" and what[0] in ("isnone", "truthy") and isinstance(what[1], tuple) and what[1][0] in ("sd", "rf"):
                return what[0] == "truthy"
            return None

        kw = f.node.args.kwarg
        bind = {kw.arg: G} if kw is not None else {params(f)[0]: G}
        ps = cx.paths(f, A, heap=heap, bind=bind, oracle=oracle, defaults=True, implicit=False, unroll=9, unroll_for=9,
                      opaque={"_set_default", "__set__"})
        want = expected(specs, given)
        what = f"states {{{', '.join(f'{k}: {v!r}' for k, v in specs.items())}}} given {list(given)}"
        if len(ps) > 256:
            raise AnalysisBroken(f"{f.qual}: {len(ps)} outcomes for {what}")
        for p in ps:
            if want is None:
                r = None if raises(p) else "no error is raised"
            elif not completes(p):
                r = "raises for a valid actor"
            else:
                r = state_effects(p, given, want)
            if r:
                bad[r] = (what, p)
                break
        else:
            cx.ok("C04.states", what)
    for r, (what, p) in bad.items():
        cx.bad("C04.states", f"{f.qual} {r}", f"{what}: {r}", f.loc, p)


def state_effects(p, given, want):
    sets, defs = [], []
    for e in p.events:
        if e.raised:
            continue
        if e.kind == "write" and e.target[0] == "attr" and e.target[1] == SELF and e.target[2] in (*given, *want):
            sets.append((e.target[2], e.value))
        elif e.kind == "call" and e.name == "__setattr__" and len(e.args) >= 2 and e.args[-2][0] == "const":
            sets.append((e.args[-2][1], e.args[-1]))
        elif e.kind == "call" and e.recv is not None and e.recv[0] == "sd":
            if e.name == "__set__" and len(e.args) == 2 and e.args[0] == SELF:
                sets.append((e.recv[1], e.args[1]))
            elif e.name == "_set_default":
                if e.args != (SELF,) and e.arg(0, "instance") != SELF:
                    return "the default is set on something else"
                defs.append(e.recv[1])
    if sorted(n for n, _ in sets) != sorted(given):
        return "not every given state is set exactly once"
    if any(v != ("given", n) for n, v in sets):
        return "a state gets another value than the one given"
    if sorted(defs) != sorted(want):
        return "not every missing state gets its default exactly once"
    if defs != list(want):
        return "defaults are not applied in declaration order"
    return None


def is_fresh(v):
    """Made by this very evaluation."""
    if v[0] == "new":
        return v[2] in ("dict", "list", "set") or (v[2] == "obj" and "collections" in str(v[3]))
    return v[0] == "call" and v[1][0] in ("builtin", "ext") and v[1][1].split(".")[-1] in (
        "dict", "list", "set", "defaultdict", "deque", "Counter", "OrderedDict")


def constructor(cx: Ctx):
    prog = cx.prog
    A = prog.cls("Actor")
    f = prog.method(A, "__actual_init__")
    cx.rule("C04.own", "every container of an actor is made anew for it before its states are set", len(CONTAINERS))
    cx.rule("C04.init", "an actor's constructor sets its name, then its states exactly once from all given values, then the initial knowledge", 2)
    ps = cx.paths(f, A, implicit=False, defaults=True, opaque={"set_bulk_knowledge", "_add_entity", "__init_states", "set_knowledge"})
    kw = f.node.args.kwarg
    if kw is None:
        raise AnalysisBroken(f"{f.qual} takes no states")
    kpar = P("initial_knowledge")
    for name in CONTAINERS:
        def pred(p, name=name):
            if not completes(p):
                return None
            ini = [e for e in p.events if e.kind == "call" and e.name == "__init_states"]
            ws = [e for e in p.events if e.kind == "write" and e.target == attr(SELF, name)]
            if not ws:
                return f"{name} is not set on the actor"
            if not all(is_fresh(e.value) for e in ws):
                return f"{name} is set to {show(ws[0].value)}, not to a container of its own", ws[0].loc
            if ini and not before(p, ws[0], ini[0]):
                return f"{name} is set only after the states"
            others = [e for e in p.events if e.kind == "write" and e.target[0] == "attr" and e.target != attr(SELF, name) and e.value == ws[-1].value]
            if others:
                return f"{name} and {show(others[0].target)} are one container", others[0].loc
            return None
        cx.each_path("C04.own", f"{f.qual} {name}", f, ps, pred, "container of an actor")

    def run(p):
        if not completes(p):
            return None
        ini = [e for e in p.events if e.kind == "call" and e.name == "__init_states"]
        if len(ini) != 1 or ini[0].recv != SELF:
            return "the states are not initialised exactly once"
        e = ini[0]
        if e.args or e.kwargs != {"**": P(kw.arg)}:
            return "not all given states are passed on unchanged", e.loc
        nm = [x for x in p.events if x.kind == "write" and x.target == attr(SELF, "name")]
        if not nm or any(x.value != P("name") for x in nm) or not before(p, nm[0], e):
            return "the name is not set before the states"
        return None

    cx.each_path("C04.init", f"{f.qual} states", f, ps, run, "building an actor")

    def know(p):
        if not completes(p):
            return None
        given = facts(p).get(isnone(kpar))
        if given is None:
            given = None if truthy(kpar) not in facts(p) else not facts(p)[truthy(kpar)]
        bulk = [e for e in p.events if e.kind == "call" and not e.raised and kpar in e.all_args() or
                (e.kind == "iter" and contains(e.term, lambda x: x == kpar))]
        if given is True:
            return None if not any(e.name == "set_bulk_knowledge" for e in bulk) else "knowledge is set although none is given"
        if not bulk:
            return "the initial knowledge is dropped"
        own = [e for e in p.events if e.kind == "write" and e.target == attr(SELF, "_knowledge")]
        if own and not before(p, own[-1], bulk[0]):
            return "the initial knowledge is dropped"
        return None

    cx.each_path("C04.init", f"{f.qual} knowledge", f, ps, know, "building an actor")


def forwards(cx: Ctx):
    """Every way to construct an actor hands all of its arguments on."""
    prog = cx.prog
    A = prog.cls("Actor")
    cx.rule("C04.forward", "the constructors of actors hand every given argument on", 2)
    sub = prog.method(A, "__init_subclass__")
    ctors = [prog.method(A, "__init__")]
    ctors += [g for g in prog.all_functions if g.parent is sub and any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__actual_init__" for n in ast.walk(g.node))]
    for g in ctors:
        a = g.node.args
        names = [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)]
        me = P(names[0]) if g.parent is not None else SELF
        for p in cx.paths(g, A if g.parent is None else None, implicit=False, opaque={"__actual_init__"}):
            if not completes(p):
                continue
            cs = [e for e in p.events if e.kind == "call" and e.name == "__actual_init__"]
            r = None
            if len(cs) != 1 or cs[0].recv not in (me, SELF):
                r = "the actor is not initialised exactly once"
            else:
                for n in names[1:]:
                    if cs[0].kwargs.get(n) != P(n):
                        r = f"`{n}` is not handed on"
                if a.kwarg is None or cs[0].kwargs.get("**") != P(a.kwarg.arg):
                    r = "the given states are not handed on"
            cx.check(r is None, "C04.forward", g.qual, f"{r}", g.loc, p)


def declared(cx: Ctx):
    """The table of an actor class's states."""
    prog = cx.prog
    A = prog.cls("Actor")
    f = prog.method(A, "__init_subclass__")
    cx.rule("C04.declared", "an actor class knows every state declared in it or in any class it inherits from, base classes first", 1)
    heap = {}
    bases = [("base", i) for i in range(4)]
    tabs = [[("z", "sd"), ("f", "other")], [("a", "sd")], [], [("g", "other"), ("q", "sd"), ("b", "sd")]]
    for b, tab in zip(bases, tabs):
        heap[attr(b, "__dict__")] = lit(heap, b, [(k, (w, k)) for k, w in tab])
        for k, w in tab:
            heap[attr((w, k), "_no_init")] = C(True)
    heap[attr(SELF, "__dict__")] = heap[attr(bases[3], "__dict__")]
    bases[3] = SELF
    mro = lit(heap, "mro", bases[::-1], "list")
    heap[attr(SELF, "__mro__")] = ("tuple", *bases[::-1])

    def oracle(kind, what, st):
        if kind == "call" and what.name == "mro":
            return [(st.fork(), ("value", mro))]
        if kind == "cond" and what[0] == "isinst" and what[1][0] in ("sd", "other"):
            return what[1][0] == "sd"
        return None

    ups = {g.qual for c in A.mro_classes for g in [c.methods.get("__init_subclass__")] if g is not None and c is not A}
    n = 0
    for p in cx.paths(f, A, heap=heap, oracle=oracle, implicit=False, opaque=ups, unroll=5, unroll_for=5, defaults=True):
        if not completes(p):
            continue
        n += 1
        ws = [e for e in p.events if e.kind == "write" and e.target[0] == "attr" and e.target[2] == "_state_defs"]
        r = None
        if not ws:
            r = "the class gets no table of states"
        else:
            its = p.final.get(("items", ws[-1].value)) if hasattr(p, "final") else None
            its = its or ws[-1].items(ws[-1].value)
            if its is None:
                raise AnalysisBroken(f"{f.qual}: table of states is {show(ws[-1].value)}")
            if [x[1:] for x in its] != [(C(k), ("sd", k)) for k in "zaqb"]:
                r = f"the table of states is {[show(x) for x in its]} for classes declaring z | a | | q, b"
        if r:
            cx.bad("C04.declared", f.qual, r, f.loc, p)
            return
    if n == 0:
        raise AnalysisBroken(f"{f.qual} never completes")
    cx.ok("C04.declared", f.qual)


def defaults(cx: Ctx):
    prog = cx.prog
    S = prog.cls("State")
    cx.rule("C04.default", "setting a default stores what the factory newly returns, else the default; a state has a default "
                           "exactly when it can be set", 2)
    f = prog.method(S, "_set_default")
    inst = par(f, 0)
    fac, dv = attr(SELF, "_default_factory"), attr(SELF, "_default")

    def pred(p):
        cs = [e for e in p.events if e.kind == "call" and e.fn == fac and not e.raised]
        st = [e for e in p.events if e.kind == "call" and e.name == "__set__" and not e.raised] + \
             [e for e in p.events if e.kind == "write" and contains(e.target, lambda x: x == inst)]
        hasf = facts(p).get(isnone(fac))
        if not completes(p):
            if raises(p) and (st or cs):
                return "fails after the default was made"
            if raises(p) and not (facts(p).get(isnone(dv)) is True and hasf is True):
                return "refuses a default that is there"
            return None
        if not st:
            return None if facts(p).get(isnone(dv)) is True and hasf is True and facts(p).get(truthy(attr(SELF, "_allow_none_default"))) is True \
                else "completes without setting the default"
        if len(st) != 1:
            return "sets the default more than once"
        e = st[0]
        v = e.args[-1] if e.kind == "call" else e.value
        if e.kind == "call" and (e.recv != SELF or e.arg(0) != inst):
            return "sets the default elsewhere", e.loc
        if e.kind == "write" and e.target[0] != "attr":
            return "puts the default into the instance without setting the state", e.loc
        if hasf is False and facts(p).get(isnone(dv)) is not False:
            return None if len(cs) == 1 and v == cs[0].value and not cs[0].all_args() else "the factory's new value is not what is set"
        if facts(p).get(isnone(dv)) is False and not cs and v == dv:
            return None
        if v == dv and not cs and hasf is True:
            return None
        return f"sets {show(v)}"

    cx.each_path("C04.default", f.qual, f, cx.paths(f, S, implicit=False, opaque={"__set__"}), pred, "setting a default")
    g = prog.method(S, "has_default")
    al = attr(SELF, "_allow_none_default")
    for a, d, h in itertools.product((True, False), repeat=3):
        heap = {al: C(a), dv: C(1) if d else NONE, fac: ("fn", "factory") if h else NONE}
        w = a or d or h

        def orc(kind, what, st):
            return what[0] == "truthy" if kind == "cond" and what[0] in ("isnone", "truthy") and what[1] == ("fn", "factory") else None
        for p in cx.paths(g, S, heap=heap, implicit=False, oracle=orc):
            r = truth(p.value)
            if not completes(p) or r is None or r != w:
                cx.bad("C04.default", g.qual, f"says {show(p.value)} for allow_none={a}, default {'given' if d else 'absent'}, factory "
                                              f"{'given' if h else 'absent'}", g.loc, p)
                return
    cx.ok("C04.default", g.qual)


def truth(v):
    if v is None:
        return None
    if v[0] == "const":
        return bool(v[1])
    if v[0] == "fn":
        return True
    if v[0] == "not":
        r = truth(v[1])
        return None if r is None else not r
    if v[0] in ("and", "or"):
        rs = [truth(x) for x in v[1:]]
        return None if None in rs else (all(rs) if v[0] == "and" else any(rs))
    if v[0] == "cmp" and v[1] in ("is", "is not", "==", "!="):
        a, b = v[2], v[3]
        if NONE in (a, b):
            o = b if a == NONE else a
            if o[0] in ("const", "fn"):
                return (o == NONE) == (v[1] in ("is", "=="))
    return None


# -- sharing --------------------------------------------------------------------------------------
MUT = {"add", "append", "update", "pop", "remove", "setdefault", "clear", "extend", "insert", "discard", "popitem", "appendleft", "popleft"}


def sharing(cx: Ctx):
    prog = cx.prog
    cx.rule("C04.class", "no class of the package has a mutable class attribute and no function a mutable default argument that is kept or changed", 40)
    cx.rule("C04.descriptor", "a state keeps nothing of an actor in itself except under that actor (or callback source)", 12)
    for c in prog.classes():
        r = None
        for b in c.node.body:
            v = getattr(b, "value", None) if isinstance(b, (ast.Assign, ast.AnnAssign)) else None
            if v is not None and mutable(v) and not is_enumish(c):
                t = b.targets[0] if isinstance(b, ast.Assign) else b.target
                if isinstance(t, ast.Name) and t.id not in ("__slots__", "__match_args__") and used_mutably(prog, c, t.id):
                    r = (f"class attribute `{t.id}` is one container for all its objects", b.lineno)
        cx.check(r is None, "C04.class", c.qual, r[0] if r else "", f"{c.module.path}:{r[1]}" if r else "")
    for f in prog.all_functions:
        a = f.node.args
        ps = list(a.posonlyargs) + list(a.args)
        for x, d in [*zip(ps[len(ps) - len(a.defaults):], a.defaults), *zip(a.kwonlyargs, a.kw_defaults)]:
            if d is not None and mutable(d) and kept(f, x.arg):
                cx.bad("C04.class", f"{f.qual} {x.arg}", f"default of `{x.arg}` is one container for all calls", f.loc)
    for c in prog.subclasses(prog.cls("State")):
        r = None
        for m in c.methods.values():
            if m in prog.building():
                continue
            ps = set(params(m))
            al = {n.targets[0].id for n in ast.walk(m.node) if isinstance(n, ast.Assign) and len(n.targets) == 1
                  and isinstance(n.targets[0], ast.Name) and own_attr(n.value, set())}
            for n in ast.walk(m.node):
                key = None
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    key = ast.Constant(None)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and own_attr(n.value, al):
                    key = n.slice
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and own_attr(n.func.value, al):
                    key = n.args[0] if n.args else ast.Constant(None)
                if key is None:
                    continue
                if isinstance(key, ast.Name) and key.id in ps:
                    continue
                if isinstance(key, ast.Call) and ast.unparse(key.func) == "id":
                    r = (m, n, "keyed by an identity that may be reused")
                    break
                r = (m, n, "which all actors of the class share")
                break
        cx.check(r is None, "C04.descriptor", r[0].qual if r else c.qual,
                 f"changes `{ast.unparse(r[1])}`, {r[2]}" if r else "", f"{c.module.path}:{r[1].lineno}" if r else "")


def own_attr(e, aliases):
    """self.<x> or a local name for it."""
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
        return e.attr != "__dict__" or True
    return isinstance(e, ast.Name) and e.id in aliases


def mutable(v):
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] in ("list", "dict", "set", "defaultdict", "Counter", "deque", "OrderedDict", "DotDict")


def is_enumish(c):
    return any(ast.unparse(b).split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag", "Protocol") for b in c.node.bases)


def used_mutably(prog, c, name):
    """Some code changes <anything>.<name> in place."""
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute) and n.value.attr == name:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == name:
                return True
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                return True
    return False


def kept(f, name):
    """The parameter is stored in an object, returned or changed in place."""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and isinstance(n.value, ast.Name) and n.value.id == name:
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if any(not isinstance(t, ast.Name) for t in ts):
                return True
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            return True
    return False


@prop("C04")
def c04(cx: Ctx):
    init_states(cx)
    constructor(cx)
    forwards(cx)
    declared(cx)
    defaults(cx)
    sharing(cx)
