"""C01 contexts, C02 stage, C03 registry."""
from __future__ import annotations

import ast

from ..api import Ctx, prop
from ..engine import FALSE, NONE, SELF, TRUE, attr, call_name, contains, has_attr, is_attr, last_name, same, strip_iter
from ..model import AnalysisBroken
from .h import *


def ctx_vars(prog):
    """Module-level ContextVar globals of the base module: name -> module."""
    out = {}
    for m in prog.modules.values():
        for n, v in m.globals.items():
            if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "ContextVar":
                out[n] = m.name
    return out


def init_attrs(cx, cls):
    """self attribute -> value given by __init__ on all its paths."""
    f = cx.prog.method(cls, "__init__")
    out = {}
    for p in cx.paths(f, cx.prog.cls(cls) if isinstance(cls, str) else cls):
        if not completes(p):
            continue
        cur = {e.target[2]: e.value for e in p.events if e.kind == "write" and e.target[0] == "attr" and e.target[1] == SELF}
        for k, v in cur.items():
            out.setdefault(k, set()).add(v)
    return {k: next(iter(v)) if len(v) == 1 else None for k, v in out.items()}, f


@prop("C01")
def c01(cx: Ctx):
    prog = cx.prog
    cvars = ctx_vars(prog)
    if len(cvars) < 4:
        raise AnalysisBroken(f"only {len(cvars)} context variables found")
    K = prog.cls("EnvironmentContext")
    attrs, init = init_attrs(cx, K)

    def res(t):
        """Resolve self.<attr> bound once in the constructor."""
        if t[0] == "attr" and t[1] == SELF and attrs.get(t[2]) is not None:
            return attrs[t[2]]
        return t

    def which(t):
        t = res(t)
        return t[2] if t[0] == "glob" and t[2] in cvars else None

    ini = {n: par(init, i) for i, n in enumerate(["time", "seed", "gen"])}
    cx.rule("C01.enter", "entering sets every context variable exactly once, on every path, to a fresh item of its kind and "
                         "keeps the token", 4)
    cx.rule("C01.env", "the clock starts at the requested time and is what the context yields", 1)
    cx.rule("C01.random", "the stage's generator is the one given, or random.Random(seed) when none is given", 1)
    cx.rule("C01.exit", "leaving resets every context variable with its own token, on every path, and does not swallow", 4)
    enter, exit_ = prog.method(K, "__enter__"), prog.method(K, "__exit__")
    tokens = {}
    for p in cx.paths(enter, K, implicit=False):
        if not completes(p):
            cx.bad("C01.enter", "enter", f"entering can end with {p.outcome}", enter.loc, p)
            continue
        got = {}
        for e in p.calls("set"):
            g = e.recv and which(e.recv)
            if g:
                got.setdefault(g, []).append(e)
        vals = {}
        for g in cvars:
            es = got.get(g, [])
            if len(es) != 1:
                cx.bad("C01.enter", g, f"{g} is set {len(es)} times when entering", enter.loc, p)
                continue
            v = res(es[0].arg(0))
            vals[g] = v
            fresh = v[0] == "new" or (v[0] == "call" and last_name(v[1]) in ("defaultdict", "dict", "list"))
            if fresh:
                made = next((e for e in p.calls() if e.value == v), None)
                if made is not None:
                    has = [a for a in made.all_args() if res(a) != ("builtin", "list") and not (a[0] == "new" and a[-1] == "empty")]
                    maker = {n for n in ("DotDict", "SpecialContexts") if ctor_of(v, n)} | (
                        {last_name(v[1])} & {"defaultdict", "dict", "list"} if v[0] == "call" else set())
                    fresh = not (has and maker)
                elif v[0] == "new" and v[2] in ("dict", "list") and len(v) > 3:
                    fresh = v[3] == "empty"
            cx.check(fresh, "C01.enter", g, f"{g} is set to {show(v)}, which is not created by this entry", es[0].loc, p)
            tok = [e for e in p.writes() if e.value == es[0].value and e.target[1] == SELF]
            if tok:
                tokens[g] = tok[-1].target[2]
            else:
                cx.bad("C01.exit", g, f"the token of {g} is not kept", es[0].loc, p)
        envv = next((v for v in vals.values() if ctor_of(v, "Environment")), None)
        ok = envv is not None and p.value == envv
        if ok:
            ce = next(e for e in p.calls() if e.value == envv)
            a = ce.arg(0, "initial_time")
            ok = a is not None and res(a) == ini["time"]
        cx.check(ok, "C01.env", "environment", "the clock is not created at the requested initial time and returned", enter.loc, p)
        st = next((v for v in vals.values() if ctor_of(v, "DotDict")), None)
        if st is None:
            cx.bad("C01.random", "stage", "no stage object is created", enter.loc, p)
            continue
        ws = [e for e in p.events if (e.kind == "write" and e.target in (attr(st, "random"), sub(st, C("random"))))]
        allw = [e for e in p.events if e.kind == "write" and e.target[1] == st]
        fx = {k: v for k, v in facts(p).items()}
        gen_none = next((v for k, v in fx.items() if k[0] == "isnone" and res(k[1]) == ini["gen"]), None)
        ok = len(ws) == 1 and len(allw) == 1
        if ok:
            v = res(ws[0].value)
            if v == ini["gen"]:
                ok = gen_none is False
            elif ctor_of(v, "Random"):
                ce = next(e for e in p.calls() if e.value == v)
                ok = gen_none is True and len(ce.args) == 1 and res(ce.args[0]) == ini["seed"]
            else:
                ok = False
        cx.check(ok, "C01.random", "random", "the stage's generator is not the requested one", enter.loc, p)
    for p in cx.paths(exit_, K, implicit=False):
        for g in cvars:
            rs = [e for e in p.calls("reset") if e.recv is not None and which(e.recv) == g]
            ok = completes(p) and len(rs) == 1 and is_attr(rs[0].arg(0), tokens.get(g, "?"), SELF)
            cx.check(ok, "C01.exit", g, f"leaving does not reset {g} with its own token", exit_.loc, p)
        cx.check(p.value in (NONE, FALSE), "C01.exit", "swallow", "leaving can swallow the exception", exit_.loc, p)
    # the special lists are created per context
    cx.rule("C01.lists", "the per-context lists are created for each context", 3)
    SC = prog.cls("SpecialContexts")
    for name, v in SC.attrs.items():
        ok = isinstance(v, ast.Call) and any(k.arg == "default_factory" for k in v.keywords)
        cx.check(ok, "C01.lists", name, "list is shared between contexts", f"{SC.module.rel}:{v.lineno}")
    # top-level helpers
    cx.rule("C01.top", "the context made current at the top level gets the caller's arguments and is entered/left", 2)
    f = prog.func("base:create_top_context")
    for p in cx.paths(f):
        mk = [e for e in p.calls("EnvironmentContext")]
        ok = len(mk) == 1
        if ok:
            e = mk[0]
            got = [e.arg(i, n) for i, n in enumerate(params(init)[:3])]
            ok = got == [par(f, i) for i in range(3)] and p.value == e.value and len(
                [c for c in p.calls("__enter__") if c.recv == e.value]) == 1
        cx.check(ok, "C01.top", "create", "create_top_context does not enter a context with the given arguments", f.loc, p)
    f = prog.func("base:clear_top_context")
    for p in cx.paths(f):
        ok = len([c for c in p.calls("__exit__") if c.recv == par(f, 0)]) == 1
        cx.check(ok, "C01.top", "clear", "clear_top_context does not leave the context", f.loc, p)
    cx.rule("C01.access", "an accessor returns its context item and raises when there is no context", 7)
    accessors(cx, prog, cvars, "C01.access")


def accessors(cx, prog, cvars, rid, only=()):
    spec = {"env": ("Environment", None), "stage": ("Stage", None), "get_actors": ("SpecialContexts", "actors"),
            "get_monitored": ("SpecialContexts", "monitored"), "get_recorded": ("SpecialContexts", "data_recorded"),
            "get_all_entity_groups": ("Entities", None), "get_entity_group": ("Entities", "$group")}
    if only:
        spec = {k: v for k, v in spec.items() if k in only}
    label = {}
    for g, m in cvars.items():
        v = prog.modules[m].globals[g]
        label[v.args[0].value if v.args and isinstance(v.args[0], ast.Constant) else g] = g
    U = prog.cls("UpstageBase")
    for name, (lab, fld) in spec.items():
        f = prog.method(U, name)
        g = label.get(lab)
        if g is None:
            raise AnalysisBroken(f"context variable {lab} not found")
        gets = lambda t: t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and t[1][1] == ("glob", cvars[g], g)
        bad = None
        for p in cx.paths(f, U):
            gv = [e for e in p.events if e.kind == "call" and e.name == "get" and e.recv == ("glob", cvars[g], g)]
            if not gv:
                bad = ("the context item is not read", p)
            elif any(e.args or e.kwargs for e in gv):
                bad = ("a default hides the missing context", p)
            elif any(e.raised for e in gv):
                if completes(p):
                    bad = ("a missing context goes unnoticed", p)
            elif completes(p):
                v = p.value
                item = next(e.value for e in gv)
                if fld is None:
                    ok = v == item
                elif fld == "$group":
                    k = par(f, 0)
                    ok = (v[0] == "call" and v[1] == attr(item, "get") and v[2][0] == k) or v == sub(item, k) or (
                        v[0] == "new" and v[2] == "list" and v[3] == "empty")
                    if v[0] == "new":
                        ok = ok and facts(p).get(("in", k, item)) is False
                else:
                    ok = v == attr(item, fld)
                if not ok:
                    bad = (f"returns {show(v)}", p)
            if bad:
                break
        if bad:
            cx.bad(rid, name, bad[0], f.loc, bad[1])
        else:
            cx.ok(rid, name)


@prop("C02")
def c02(cx: Ctx):
    prog = cx.prog
    D = prog.cls("DotDict")
    own = {n for k in D.mro if not isinstance(k, str) for n in k.methods}
    dicty = any(isinstance(k, str) and k.split(".")[-1] in ("dict", "UserDict", "OrderedDict") for k in D.mro)
    shadowed = sorted(n for n in dir(dict) if not n.startswith("_") and n not in own) if dicty and "__getattribute__" not in own else []
    cx.rule("C02.set", "a stage attribute is stored only on paths where its name was found absent; otherwise it raises", 1)
    cx.rule("C02.get", "a stage attribute that is absent raises, a present one is returned unchanged", 1)
    cx.rule("C02.add", "adding a variable stores the value under its name only when the name was found absent", 1)
    cx.rule("C02.read", "reading an absent variable raises, a present one is returned unchanged", 1)

    def stores(p, base, key):
        out = []
        for e in eff(p):
            if e.kind == "write" and e.target in (sub(base, key), ("sub", base, key)):
                out.append((e, e.value))
            elif e.kind == "call" and e.name in ("__setitem__", "setdefault", "__setattr__") and e.args:
                if e.recv is not None and (e.recv == base or e.recv[0] == "super") and e.args[0] == key:
                    out.append((e, e.args[1] if len(e.args) > 1 else NONE))
            elif e.kind == "call" and e.name == "setattr" and len(e.args) == 3 and e.args[0] == base and e.args[1] == key:
                out.append((e, e.args[2]))
            elif e.kind == "call" and e.name in ("update", "pop", "clear", "__delitem__") and e.recv == base:
                out.append((e, None))
            elif e.kind == "del" and e.target[1] == base:
                out.append((e, None))
        return out

    def w(rid, f, base_of, cls, key, val):
        for p in cx.paths(f, cls):
            base = base_of(p)
            if base is None:
                if completes(p):
                    cx.bad(rid, f.name, "completes without a stage", f.loc, p)
                continue
            ss = stores(p, base, key)
            k = ("in", key, base)
            if completes(p):
                ok = len(ss) == 1 and ss[0][1] == val and facts(p, ss[0][0]).get(k) is False
                msg = "the value is stored without the name having been found absent" if ss else "nothing is stored"
            else:
                ok = not ss or facts(p, ss[0][0]).get(k) is False
                msg = "a rejected definition changes the stage"
            if p.outcome == "raise" and facts(p).get(k) is False and not ss:
                ok, msg = False, "a new variable is refused"
            if not cx.check(ok, rid, f.name, msg, f.loc, p):
                return

    f = prog.method(D, "__setattr__")
    w("C02.set", f, lambda p: SELF, D, par(f, 0), par(f, 1))

    def stage_of(p):
        e = [e for e in p.calls("get") if e.recv and e.recv[0] == "glob"]
        return e[0].value if e else None

    f = prog.func("base:add_stage_variable")
    w("C02.add", f, stage_of, None, par(f, 0), par(f, 1))

    def r(rid, f, base_of, cls, key):
        for p in cx.paths(f, cls):
            base = base_of(p)
            if base is None:
                ok, msg = not completes(p), "completes without a stage"
            elif completes(p):
                k = facts(p).get(("in", key, base))
                v = p.value
                if v[0] == "call" and v[1] == ("builtin", "getattr") and base != SELF and shadowed:
                    cx.bad(rid, f.name, f"reads the attribute of the stage, which for {', '.join(shadowed[:4])}... is the dict's own method "
                           "and not the variable defined under that name", f.loc, p)
                    return
                val = v in (sub(base, key), ("call", attr(base, "get"), (key,), ()), ("call", attr(base, "__getitem__"), (key,), ())) or (
                    v[0] == "call" and v[1] == ("builtin", "getattr") and v[2] == (base, key))
                # a plain subscript raises by itself when the name is absent
                direct = v == sub(base, key) or (v[0] == "call" and last_name(v[1]) in ("getattr", "__getitem__"))
                ok, msg = val and (k is True or (k is None and direct)), f"returns {show(v)} without the name having been found"
            else:
                ok = facts(p).get(("in", key, base)) is not True
                msg = "raises for a defined variable"
            if not cx.check(ok, rid, f.name, msg, f.loc, p):
                return

    f = prog.method(D, "__getattr__")
    r("C02.get", f, lambda p: SELF, D, par(f, 0))
    f = prog.func("base:get_stage_variable")
    r("C02.read", f, stage_of, None, par(f, 0))
    f = prog.func("base:get_stage")
    for p in cx.paths(f):
        b = stage_of(p)
        cx.check((b is None and not completes(p)) or (b is not None and p.value == b), "C02.read", "get_stage",
                 "the stage object returned is not the context's", f.loc, p)
    # a name that the stage's own type has is found there, before any variable of that name
    cx.rule("C02.shadow", "no variable can be defined whose attribute read finds a method of the stage instead", 1)
    f = prog.method(D, "__setattr__")
    refused = any(p.outcome == "raise" and any(k[0] == "truthy" and k[1][0] == "call" and last_name(k[1][1]) == "hasattr" and v or
                                               k[0] == "in" and contains(k[2], lambda t: call_name(t) == "dir") and v for k, v in facts(p).items())
                  for p in cx.paths(f, D))
    cx.check(not shadowed or refused, "C02.shadow", "DotDict attribute names of dict",
             f"a variable named {', '.join(shadowed)} can be defined, but reading it as an attribute gives the dict's method", f.loc)


def registry(cx, prog, N, skipped):
    """The groups of a context after an entity is registered, for every small registry it can meet."""
    from .. import value as V
    cx.rule("C03.registry", "registering an entity adds it last, once, to each of its groups that is not skipped, unless it is already there (an error), "
            "and leaves every other entry of the context's registry alone", 8)
    f = prog.method(N, "_add_entity")
    var = next((n for n, m in ctx_vars(prog).items() if "ENTIT" in n and "SPECIAL" not in n), None)
    if var is None:
        raise AnalysisBroken("the context variable of the entity groups was not found")
    mod = ctx_vars(prog)[var]
    for start in (None, {}, {"other": ["x"]}, {"g": ["x"]}, {"g": ["x", "y"], "other": ["me", "x"]}, {"g": ["me"]}, {"g": ["x"], "h": ["x"]}, {"h": ["x"], "z": []}):
        for groups in (["g"], ["g", "h"], [], [*skipped, "g"], skipped):
            box = {}

            def run(it, start=start, groups=groups):
                me = V.Obj(N, {})
                them = {n: V.Obj(N, {}) for n in "xy"} | {"me": me}
                held = None if start is None else {k: [them[n] for n in v] for k, v in start.items()}
                it.box = {"held": held, "at": held, "them": them, "special": []}
                it.call(it.getattr(me, "_add_entity"), [set(groups)], {})
                return None

            def call(it, ft, args, kw):
                if ft == ("attr", ("sym", "groups"), "get"):
                    if it.box["at"] is not None:
                        return it.box["at"]
                    if args:
                        return args[0]
                    raise it.exc("LookupError")
                if ft == ("attr", ("sym", "groups"), "set"):
                    it.box["at"] = args[0]
                    return V.T(("token",))
                return None
            special = {c.methods["_add_special_group"].qual: lambda it, a, k: it.box["special"].append(a[0]) for m in prog.modules.values() for c in m.classes.values() if "_add_special_group" in c.methods}
            rs = V.explore(prog, run, intercept={(mod, var): V.T(("sym", "groups")), "call": call, **special})
            now = {k: list(v) for k, v in (start or {}).items()}
            dup = any("me" in now.get(g, []) for g in groups)
            for g in groups:
                if g not in skipped:
                    now.setdefault(g, []).append("me")
            what = f"groups {groups} of an entity, the registry being {'unset' if start is None else start}"
            for r in rs:
                b = r.it.box
                if dup:
                    cx.check(r.outcome == "raise", "C03.registry", what, "an entity already in the group is registered again", f.loc)
                    continue
                names = {id(o): n for n, o in b["them"].items()}
                got = None if b["at"] is None else {k: [names.get(id(o)) for o in v] for k, v in b["at"].items() if v or k in now}
                want = {k: v for k, v in now.items()}
                cx.check(r.outcome != "return" or len(b["special"]) == 1 and b["special"][0] is b["them"]["me"], "C03.special", what,
                         f"the special registration runs {len(b['special'])} times", f.loc)
                ok = r.outcome == "return" and (got or {}) == want and (start is None or b["at"] is b["held"])
                cx.check(ok, "C03.registry", what, f"the registry becomes {got if r.outcome == 'return' else 'an error'}", f.loc)


def class_groups(cx, prog, N):
    """The groups a class declaration gives its class."""
    from .. import value as V
    f = prog.method(N, "__init_subclass__")
    bad = None
    for parents in ((), ({"Parent"},), ({"Parent", "fleet"}, {"Other"}), (set(), {"Grand"}), (None, {"Grand"})):
        for given in ("nothing", None, "fleet", ["fleet"], ["fleet", "fast"], ("Mine",), []):
            for skip in (None, False, True):
                for on in (None, True, False):
                    kw = {} if given == "nothing" else {"entity_groups": given}
                    kw |= {} if skip is None else {"skip_classname": skip}
                    kw |= {} if on is None else {"add_to_entity_groups": on}

                    def run(it):
                        me = V.Obj("type", {"__name__": "Mine", "__qualname__": "Mine"}, "Mine")
                        known = me.attrs
                        line = [me, *(V.Obj("type", {} if g is None else {"_entity_groups": set(g)}, "Parent") for g in parents), V.Obj("type", {}, "object")]
                        known["mro"] = lambda it, a, k: list(line)
                        known["__mro__"] = tuple(line)
                        known["__bases__"] = tuple(line[1:])
                        it.at_end = line
                        if parents and parents[0] is not None:      # inherited until it is set
                            known["_entity_groups"] = line[1].attrs["_entity_groups"]
                        it.call_func(f, [], dict(kw), me)
                        return None
                    want = set()
                    if on is not False:
                        own = [] if given in ("nothing", None) else [given] if isinstance(given, str) else given
                        want = set(own) | (set() if skip else {"Mine"}) | {g for gs in parents if gs for g in gs}
                    why = None
                    for r in V.explore(prog, run, max_iter=8):
                        line = r.it.at_end if hasattr(r.it, "at_end") else []
                        got = line[0].attrs.get("_entity_groups")
                        if r.outcome != "return" or got is None or set(r.it.items(got)) != want:
                            why = f"has the groups {sorted(r.it.items(got)) if r.outcome == 'return' and got is not None else 'an error'}, not {sorted(want)}"
                        elif any(got is b.attrs.get("_entity_groups") for b in line[1:]) or any(
                                set(b.attrs["_entity_groups"]) != g for b, g in zip(line[1:], parents) if g is not None):
                            why = "shares its set of groups with an ancestor"
                    if why:
                        bad = bad or f"a class declared with {kw or 'nothing'} below {list(parents)} {why}"
                    cx.ok("C03.groups", f"{kw} {parents}")
    if bad:
        cx.bad("C03.groups", "__init_subclass__", bad, f.loc)


@prop("C03")
def c03(cx: Ctx):
    prog = cx.prog
    N = prog.cls("NamedUpstageEntity")
    cx.rule("C03.special", "registering an entity also runs its special-list registration, once", 8)
    cx.rule("C03.init", "constructing an entity registers it in its class's groups, once", 1)
    cx.rule("C03.groups", "a class's groups are the declared ones, its name unless opted out, and all its ancestors' groups; "
                          "none when registration is off", 40)
    cx.rule("C03.lists", "actors and monitoring resources are appended once to their context list", 2)
    cx.rule("C03.query", "the queries give exactly the lists of the context, of the group asked for", 4)
    accessors(cx, prog, ctx_vars(prog), "C03.query", ("get_actors", "get_monitored", "get_entity_group", "get_all_entity_groups"))
    cx.rule("C03.skip", "only the framework's own classes are skipped as group names", 1)
    sk = prog.modules[N.module.name].globals.get("SKIP_GROUPS")
    if sk is None:
        raise AnalysisBroken("SKIP_GROUPS not found")
    names = {x.value for x in ast.walk(sk) if isinstance(x, ast.Constant)}
    extra = {n for n in names if n not in prog.by_class}
    cx.check(not extra, "C03.skip", "skip", f"group names {sorted(extra)} are skipped", f"{N.module.rel}:{sk.lineno}")

    registry(cx, prog, N, sorted(names))
    f = prog.method(N, "__init__")
    for p in cx.paths(f, N, opaque={"_add_entity"}):
        c = p.calls("_add_entity")
        ok = not completes(p) or (len(c) == 1 and c[0].recv == SELF and c[0].arg(0) == attr(SELF, "_entity_groups"))
        cx.check(ok, "C03.init", "__init__", "construction does not register the entity in its class's groups", f.loc, p)

    class_groups(cx, prog, N)
    # special lists
    for cname, fld in (("Actor", "actors"), ("MonitoringMixin", "monitored")):
        K = prog.cls(cname)
        f = prog.method(K, "_add_special_group")
        if f.cls is N:
            cx.bad("C03.lists", cname, "not added to its context list", K.module.rel)
            continue
        ok = True
        some = False
        for p in cx.paths(f, K):
            app = [e for e in p.calls("append") if is_attr(e.recv, fld)]
            dup = next((v for k, v in facts(p).items() if k[0] == "in" and k[1] == SELF), None)
            if completes(p):
                good = (len(app) == 1 and app[0].args == (SELF,) and dup is not True) or (not app and dup is True)
                some |= len(app) == 1
                if not good:
                    cx.bad("C03.lists", cname, f"added {len(app)} times to the context's {fld}", f.loc, p)
                    ok = False
                    break
        if ok:
            cx.check(some, "C03.lists", cname, f"never added to {fld}", f.loc)
