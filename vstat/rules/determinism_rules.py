"""C34: the same seed gives the same run."""
from __future__ import annotations

import ast

from ..api import REGISTRY, Ctx, prop
from ..setorder import SetOrder

# what these modules give is different in every process, thread or second
OUTSIDE = {"secrets", "threading", "asyncio", "concurrent", "multiprocessing", "socket", "tempfile", "subprocess", "gc", "weakref",
           "signal", "select", "getpass", "platform", "ctypes", "queue", "glob", "faulthandler", "resource", "tracemalloc", "_random"}
CLOCKS = {"time", "datetime"}
PURE_TIME = {"strftime", "gmtime", "timedelta", "struct_time", "datetime"}
IDENT = {"uuid1", "uuid4"}
CACHES = {"lru_cache", "cache", "cached_property"}
STATEFUL = {"count", "cycle", "iter", "Random", "deque", "Counter", "defaultdict", "dict", "list", "set", "OrderedDict"}
CONTEXTUAL = {"env", "stage", "get"}


def parents(tree):
    out = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def imports(tree):
    """local name -> dotted origin."""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def dotted(e, imp):
    if isinstance(e, ast.Name):
        return imp.get(e.id)
    if isinstance(e, ast.Attribute):
        b = dotted(e.value, imp)
        return f"{b}.{e.attr}" if b else None
    return None


def enclosing(n, par):
    names = []
    while n in par:
        n = par[n]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.append(n.name)
    return ".".join(reversed(names)) or "<module>"


def in_func(n, par):
    while n in par:
        n = par[n]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return n
    return None


def annotation(n, par):
    """Inside an annotation, or a TYPE_CHECKING block."""
    while n in par:
        p = par[n]
        if isinstance(p, ast.arg) or (isinstance(p, ast.AnnAssign) and p.annotation is n) or (
                isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)) and p.returns is n):
            return True
        n = p
    return False


def identity_use(n, par):
    """A use of an object's identity that only tells objects apart."""
    p = par.get(n)
    while isinstance(p, (ast.Tuple, ast.Starred)):
        n, p = p, par.get(p)
    if isinstance(p, (ast.FormattedValue, ast.Subscript, ast.Set, ast.SetComp)):
        return True
    if isinstance(p, ast.DictComp):
        return p.key is n
    if isinstance(p, ast.Dict):
        return n in p.keys
    if isinstance(p, ast.Compare):
        return all(isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in p.ops)
    if isinstance(p, ast.Call) and n in p.args:
        f = p.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        return name in ("hash", "add", "discard", "get", "setdefault", "pop", "remove", "str", "repr", "format")
    if isinstance(p, ast.Return):
        fn = in_func(n, par)
        return getattr(fn, "name", "") in ("__hash__", "__repr__", "__str__") or getattr(fn, "name", "").startswith("_")
    if isinstance(p, ast.Assign):
        return all(isinstance(t, ast.Name) for t in p.targets)   # the name's own uses are looked at
    return False


@prop("C34")
def determinism(ctx: Ctx):
    prog = ctx.prog
    ctx.rule("C34.sets", "nothing done, returned or kept depends on the iteration order of a set", 8)
    ctx.rule("C34.random", "every random draw comes from the stage's generator, which is the one given or is made from the seed given")
    ctx.rule("C34.outside", "nothing is read from the clock, the process or another source outside the simulation", 20)
    ctx.rule("C34.identity", "object identity, hashes and unique identifiers only tell objects apart")
    ctx.rule("C34.process", "no run changes state of the process that a later run can see", 20)

    so = SetOrder(prog)
    ctx.functions |= {f.qual for f in so.funcs}
    ctx.ok("C34.sets", "set uses", so.sites)
    for (q, what), (f, node, _) in sorted(so.found.items(), key=lambda kv: (kv[0][0], kv[1][1].lineno)):
        ctx.bad("C34.sets", q, what, f"{f.module.rel}:{node.lineno}")

    for m in prog.modules.values():
        par, imp = parents(m.tree), imports(m.tree)
        here = lambda n: f"{m.rel}:{n.lineno}"  # noqa: E731
        uids = set()
        broken = False

        def bad(rule, n, msg):
            nonlocal broken
            broken = True
            ctx.bad(rule, f"{m.name}:{enclosing(n, par)}", msg, here(n))

        for name, d in imp.items():
            if d.split(".")[0] in OUTSIDE:
                node = next(n for n in ast.walk(m.tree) if isinstance(n, (ast.Import, ast.ImportFrom))
                            and any((a.asname or a.name.split(".")[0]) == name for a in n.names))
                used = [n for n in ast.walk(m.tree) if isinstance(n, ast.Name) and n.id == name and not annotation(n, par)]
                if used:
                    bad("C34.outside", used[0], f"uses `{d}`, which does not depend on the simulation alone")
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load) and not annotation(n, par):
                if isinstance(par.get(n), ast.Attribute):
                    continue
                d = dotted(n, imp)
                if d:
                    top, _, rest = d.partition(".")
                    if top == "random" or d.startswith("numpy.random") or top == "numpy" and "random" in rest:
                        call = par.get(n)
                        is_new = d == "random.Random" and (
                            (isinstance(call, ast.Call) and call.func is n and (call.args or call.keywords)
                             and not (call.args and isinstance(call.args[0], ast.Constant)))
                            or (isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id in ("isinstance", "cast")))
                        if not is_new or (in_func(n, par) is None):
                            bad("C34.random", n, f"`{ast.unparse(call if isinstance(call, ast.Call) else n)[:80]}` is not drawn from the stage's generator")
                        else:
                            ctx.ok("C34.random", f"{m.name}:{enclosing(n, par)}")
                    elif top in CLOCKS:
                        call = par.get(n)
                        leaf = d.split(".")[-1]
                        pure = leaf in PURE_TIME and isinstance(call, ast.Call) and call.func is n and (
                            call.args if leaf == "gmtime" else len(call.args) >= 2 if leaf == "strftime" else True)
                        if not pure:
                            bad("C34.outside", n, f"`{ast.unparse(call if isinstance(call, ast.Call) else n)[:80]}` reads the wall clock")
                    elif d.startswith("os.") and not d.startswith("os.path.") or d in ("sys.getrefcount", "sys.argv", "sys.getsizeof",
                                                                                         "sys.hash_info", "sys.flags"):
                        bad("C34.outside", n, f"`{d}` does not depend on the simulation alone")
                    elif top == "uuid":
                        t = par.get(par.get(n))
                        if d.split(".")[-1] in IDENT and isinstance(t, (ast.Assign, ast.AnnAssign)):
                            ts = t.targets if isinstance(t, ast.Assign) else [t.target]
                            for x in ts:
                                if isinstance(x, ast.Attribute):
                                    uids.add(x.attr)
                                else:
                                    bad("C34.identity", n, f"`{ast.unparse(t)}` is a unique identifier not kept as an object's identity")
                        elif d.split(".")[-1] in IDENT:
                            bad("C34.identity", n, f"`{ast.unparse(n)}` makes a unique identifier that is not kept as an object's identity")
                if isinstance(n, ast.Name) and n.id in ("id", "hash") and n.id not in imp and not isinstance(par.get(n), ast.Attribute):
                    fn = in_func(n, par)
                    local = fn is not None and any(a.arg == n.id for a in getattr(fn, "args").args) if fn is not None else False
                    if local:
                        continue
                    call = par.get(n)
                    if isinstance(call, ast.keyword) or not (isinstance(call, ast.Call) and call.func is n):
                        bad("C34.identity", n, f"`{n.id}` is used to order or compute something")
                    elif not identity_use(call, par) and not (n.id == "hash" and isinstance(fn, ast.FunctionDef) and fn.name == "__hash__"):
                        bad("C34.identity", n, f"`{ast.unparse(call)}` does more than tell objects apart")
                    else:
                        t = par.get(call)
                        if isinstance(t, ast.Assign) and fn is not None:
                            for x in ast.walk(fn):
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and any(
                                        isinstance(y, ast.Name) and y.id == x.id for y in t.targets) and not identity_use(x, par):
                                    bad("C34.identity", x, f"`{ast.unparse(call)}` does more than tell objects apart")
                        ctx.ok("C34.identity", f"{m.name}:{enclosing(n, par)}")
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr in uids and isinstance(n.ctx, ast.Load):
                fn = in_func(n, par)
                if not identity_use(n, par) or isinstance(par.get(n), ast.FormattedValue) and getattr(fn, "name", "") not in ("__repr__", "__str__"):
                    bad("C34.identity", n, f"`{ast.unparse(n)}` is a unique identifier used for more than telling objects apart")
                else:
                    ctx.ok("C34.identity", f"{m.name}:{enclosing(n, par)}")

        # -- state of the process ----------------------------------------------------------------------
        top = {t.id for s in m.tree.body for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else [])
               if isinstance(t, ast.Name)}
        mut = {t.id for s in m.tree.body if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None
               for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)
               and (isinstance(s.value, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp))
                    or isinstance(s.value, ast.Call) and getattr(s.value.func, "id", getattr(s.value.func, "attr", "")) in STATEFUL)}
        for n in ast.walk(m.tree):
            fn = in_func(n, par)
            if isinstance(n, ast.Global):
                bad("C34.process", n, f"`{ast.unparse(n)}`: a run changes a variable of the module")
            elif fn is None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next" and n.args and \
                    isinstance(n.args[0], ast.Name) and n.args[0].id in mut and not shadowed(n.args[0].id, fn):
                bad("C34.process", n, f"`{ast.unparse(n)}`: a counter of the process")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id in mut and not shadowed(n.func.value.id, fn) and n.func.attr in (
                        "append", "add", "update", "setdefault", "pop", "clear", "extend", "insert", "remove", "discard", "popleft",
                        "random", "uniform", "choice", "shuffle", "randint", "seed"):
                bad("C34.process", n, f"`{ast.unparse(n)[:80]}` changes a variable of the module")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in ts:
                    b = t
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        last, b = b, b.value
                    if b is t or not isinstance(b, ast.Name):
                        continue
                    if isinstance(t, ast.Subscript) and b.id in mut and not shadowed(b.id, fn):
                        bad("C34.process", n, f"`{ast.unparse(n)[:80]}` changes a variable of the module")
                    elif isinstance(t, (ast.Attribute, ast.Subscript)) and isinstance(last, ast.Attribute) and class_name(b, prog, fn) \
                            and getattr(fn, "name", "") not in ("__init_subclass__", "__set_name__"):
                        bad("C34.process", n, f"`{ast.unparse(n)[:80]}` changes a class")
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for dec in n.decorator_list:
                    c = dec.func if isinstance(dec, ast.Call) else dec
                    nm = c.id if isinstance(c, ast.Name) else c.attr if isinstance(c, ast.Attribute) else ""
                    if nm in CACHES and (nm == "cached_property" or in_func(n, par) is None):
                        why = impure(n, par, imp, top)
                        if why and nm != "cached_property":
                            bad("C34.process", n, f"`{n.name}` is remembered across runs but {why}")
                        else:
                            ctx.ok("C34.process", f"{m.name}:{enclosing(n, par)}.{n.name}")
                for dflt in (*n.args.defaults, *n.args.kw_defaults):
                    if dflt is not None and (isinstance(dflt, (ast.List, ast.Dict, ast.Set)) or isinstance(dflt, ast.Call)
                                             and getattr(dflt.func, "id", getattr(dflt.func, "attr", "")) in STATEFUL):
                        pos = [*n.args.posonlyargs, *n.args.args]
                        nm = dict(zip([id(x) for x in n.args.defaults], pos[len(pos) - len(n.args.defaults):])) | dict(
                            (id(v), a) for v, a in zip(n.args.kw_defaults, n.args.kwonlyargs))
                        if changes(n, nm[id(dflt)].arg):
                            bad("C34.process", n, f"the default of `{nm[id(dflt)].arg}` is changed by calls")
        if not broken:
            ctx.ok("C34.outside", m.name)
            ctx.ok("C34.process", m.name)

    # class variables that hold a container changed through an instance
    for c in prog.classes():
        shared = {k for k, v in c.attrs.items() if isinstance(v, (ast.Dict, ast.List, ast.Set)) or isinstance(v, ast.Call)
                  and getattr(v.func, "id", getattr(v.func, "attr", "")) in STATEFUL}
        own = {t.attr for g in c.methods.values() for n in ast.walk(g.node) if isinstance(n, (ast.Assign, ast.AnnAssign))
               for t in (n.targets if isinstance(n, ast.Assign) else [n.target])
               if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"}
        for g in c.methods.values():
            if g.name in ("__init_subclass__", "__set_name__"):
                continue
            for n in ast.walk(g.node):
                x = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        "append", "add", "update", "setdefault", "pop", "clear", "extend", "insert", "remove", "discard"):
                    x = n.func.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next" and n.args:
                    x = n.args[0]
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    x = n.value
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls", c.name) \
                        and x.attr in shared - own:
                    ctx.bad("C34.process", g.qual, f"`{ast.unparse(n)[:80]}` changes a variable all instances share", f"{g.module.rel}:{n.lineno}")

    stage_generator(ctx)


def shadowed(name, fn):
    if fn is None:
        return False
    if any(a.arg == name for a in (*fn.args.posonlyargs, *fn.args.args, *fn.args.kwonlyargs)):
        return True
    return not isinstance(fn, ast.Lambda) and any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(fn))


def class_name(b, prog, fn):
    if b.id == "cls":
        return True
    if shadowed(b.id, fn):
        return False
    return any(c.name == b.id for c in prog.classes())


def changes(fn, arg):
    for x in ast.walk(fn):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == arg:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == arg \
                and x.func.attr in ("append", "add", "update", "setdefault", "pop", "clear", "extend", "insert", "remove", "discard"):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "next" and x.args and isinstance(x.args[0], ast.Name) \
                and x.args[0].id == arg:
            return True
        if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, ast.Name) and x.value.id == arg:
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            if any(isinstance(t, ast.Attribute) for t in ts):
                return True
    return False


def impure(n, par, imp, top):
    """Why a function's results cannot be remembered, or None."""
    args = [a.arg for a in (*n.args.posonlyargs, *n.args.args)]
    if args and args[0] in ("self", "cls"):
        return "reads an object that can change"
    for x in ast.walk(n):
        if isinstance(x, ast.Attribute) and x.attr in ("env", "stage", "now", "random"):
            return f"reads `{ast.unparse(x)}`"
        if isinstance(x, ast.Name) and x.id.endswith("_CONTEXT_VAR"):
            return f"reads `{x.id}`"
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("get_stage_variable", "UpstageBase"):
            return f"reads `{ast.unparse(x)}`"
    return None


def stage_generator(ctx):
    """The generator put on the stage is decided with the contexts."""
    ctx.rule("C34.stage", "a context's stage gets the generator it was given, or a new one made from its seed")
    sub = Ctx("C01", ctx.prog, ctx.tier)
    REGISTRY["C01"](sub)
    for f in sub.findings:
        if f["rule"] == "C01.random":
            ctx.bad("C34.stage", f["construct"], f["message"], f["location"])
    for o in sub.obligations:
        if o["rule"] == "C01.random" and o["ok"]:
            ctx.ok("C34.stage", o["construct"])
