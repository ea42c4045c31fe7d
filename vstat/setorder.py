"""Where the iteration order of a set can be seen.

A forward kind inference over the syntax tree of every function, joined over the whole package:
  S        a set (or a set-like view)
  T        a sequence whose order is a set's
  D        a dictionary whose order is a set's
  (C, k)   a container of things of kind k
An operation that lets the order of S, T or D decide an effect, a result or an order kept is reported.
"""
from __future__ import annotations

import ast

SETS = {"set", "frozenset", "Set", "FrozenSet", "AbstractSet", "MutableSet", "WeakSet"}
SET_OPS = {"union", "intersection", "difference", "symmetric_difference"}
FREE = {"len", "set", "frozenset", "any", "all", "bool", "isinstance", "id", "hash", "type", "issubset", "issuperset", "isdisjoint",
        "update", "difference_update", "intersection_update", "symmetric_difference_update", "union", "intersection",
        "difference", "symmetric_difference", "cast", "hasattr", "Counter", "callable", "issubclass", "is_subset"}
SEQ = {"list", "tuple", "iter", "enumerate", "reversed", "zip", "map", "filter", "deque", "chain", "islice", "copy", "deepcopy"}
def tells(call):
    fn = call.func
    name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
    return name in TELL or name.endswith(("Error", "Exception", "Warning"))


TELL = {"log", "warn", "debug", "info", "warning", "error", "print", "add_note"}
ITEM_OPS = {"add", "discard", "remove", "pop", "difference_update", "update", "clear"}


def join(a, b):
    if a == b or b is None:
        return a
    if a is None:
        return b
    for k in ("T", "D", "S"):
        if k in (a, b):
            return k
    return ("C", join(a[1], b[1]))


class SetOrder:
    def __init__(self, prog):
        self.prog = prog
        self.attrs: dict[str, object] = {}
        self.rets: dict[str, object] = {}
        self.params: dict[tuple, object] = {}
        self.byname: dict[str, list] = {}
        self.found: dict = {}
        self.told: dict = {}
        self.sites = 0
        self.funcs = [f for f in prog.all_functions if isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef))]
        for f in self.funcs:
            self.byname.setdefault(f.name, []).append(f)
        for c in prog.classes():
            for n, a in c.annots.items():
                self._attr(n, self.ann(a), c)
            for n, v in c.attrs.items():
                self._attr(n, self.kind(v, {}, None), c)
        for f in self.funcs:
            if f.node.returns is not None:
                self._ret(f.name, self.ann(f.node.returns))
        for rounds in range(8):
            before = (dict(self.attrs), dict(self.rets), dict(self.params))
            self.found, self.sites = {}, 0
            for f in self.funcs:
                if f.parent is None:
                    self.function(f, {})
            if (self.attrs, self.rets, self.params) == before:
                break

    # -- facts -----------------------------------------------------------------------------------
    def _attr(self, n, k, cls=None):
        self.attrs[(cls.qual if cls else None, n)] = join(self.attrs.get((cls.qual if cls else None, n)), k)

    def _owner(self, x, f):
        """The class whose attribute `x` (an Attribute node) is, when it is the function's own object."""
        if f is None or not isinstance(x.value, ast.Name) or x.value.id not in ("self", "cls"):
            return None
        while f is not None and f.cls is None:
            f = f.parent
        return f.cls if f is not None else None

    def attr_kinds(self, n, cls=None):
        """Every kind recorded for an attribute, of the classes related to cls when given."""
        rel = None
        if cls is not None:
            rel = {c.qual for c in cls.mro_classes} | {c.qual for c in self.prog.subclasses(cls)} | {None}
        return [k for (c, m), k in self.attrs.items() if m == n and k is not None and (rel is None or c in rel)]

    def attr_kind(self, n, cls=None):
        r = None
        for k in self.attr_kinds(n, cls):
            r = join(r, k)
        return r

    def _ret(self, n, k):
        self.rets[n] = join(self.rets.get(n), k)

    def bad(self, node, f, what):
        if f is not None:
            self.found[(f.qual, what)] = (f, node, what)

    def ann(self, a):
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, ast.BinOp):
            return join(self.ann(a.left), self.ann(a.right))
        base = a.value if isinstance(a, ast.Subscript) else a
        name = base.id if isinstance(base, ast.Name) else base.attr if isinstance(base, ast.Attribute) else ""
        if name in SETS:
            return "S"
        if isinstance(a, ast.Subscript):
            args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if name in ("Optional", "Union", "Final", "ClassVar", "Annotated"):
                k = None
                for x in args:
                    k = join(k, self.ann(x))
                return k
            if name in ("Generator", "Callable", "Coroutine", "type", "Literal"):
                return None
            k = None
            for x in (args[1:] if name in ("dict", "Mapping", "defaultdict", "MutableMapping", "Dict") else args):
                k = join(k, self.ann(x))
            return ("C", k) if k is not None else None
        return None

    # -- expressions -------------------------------------------------------------------------------
    def each(self, k):
        """Kind of an element."""
        return k[1] if isinstance(k, tuple) else None

    def kind(self, e, env, f, quiet=False):
        """Kind of an expression; reports what its evaluation does with set order."""
        if e is None:
            return None
        m = getattr(self, "k_" + type(e).__name__, None)
        if m is not None:
            return m(e, env, f)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.kind(x, env, f)
        return None

    def k_Name(self, e, env, f):
        return env.get(e.id)

    def k_Attribute(self, e, env, f):
        self.kind(e.value, env, f)
        return self.attr_kind(e.attr, self._owner(e, f))

    def k_Set(self, e, env, f):
        for x in e.elts:
            self.kind(x.value if isinstance(x, ast.Starred) else x, env, f)
        return "S"

    def k_List(self, e, env, f):
        k = None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.kind(x.value, env, f)
                if v in ("S", "T", "D"):
                    self.sites += 1
                    k = "T"
                elif isinstance(v, tuple):
                    k = join(k, v)
            else:
                v = self.kind(x, env, f)
                if v is not None:
                    k = join(k, ("C", v))
        return k

    k_Tuple = k_List

    def k_Dict(self, e, env, f):
        k = None
        for a, b in zip(e.keys, e.values):
            v = self.kind(b, env, f)
            if a is None:
                if v == "D":
                    k = "D"
                elif isinstance(v, tuple):
                    k = join(k, v)
            else:
                self.kind(a, env, f)
                if v is not None:
                    k = join(k, ("C", v))
        return k

    def comp(self, e, env, f):
        env = dict(env)
        t = False
        for g in e.generators:
            k = self.kind(g.iter, env, f)
            if k in ("S", "T", "D"):
                t = True
                self.sites += 1
            self.bind(g.target, self.iter_elem(g.iter, k, env, f), env)
            for i in g.ifs:
                self.kind(i, env, f)
        return env, t

    def k_ListComp(self, e, env, f):
        env, t = self.comp(e, env, f)
        k = self.kind(e.elt, env, f)
        return "T" if t else ("C", k) if k is not None else None

    k_GeneratorExp = k_ListComp

    def k_SetComp(self, e, env, f):
        env, t = self.comp(e, env, f)
        self.kind(e.elt, env, f)
        return "S"

    def k_DictComp(self, e, env, f):
        env, t = self.comp(e, env, f)
        self.kind(e.key, env, f)
        k = self.kind(e.value, env, f)
        return "D" if t else ("C", k) if k is not None else None

    def k_BinOp(self, e, env, f):
        a, b = self.kind(e.left, env, f), self.kind(e.right, env, f)
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            if "S" in (a, b) or any(self.is_view(x) for x in (e.left, e.right)):
                return "S"
        if isinstance(e.op, ast.Add) and "T" in (a, b):
            return "T"
        return join(a, b) if isinstance(e.op, (ast.Add, ast.BitOr)) else None

    def is_view(self, x):
        return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "items") and not x.args

    def k_BoolOp(self, e, env, f):
        k = None
        for x in e.values:
            k = join(k, self.kind(x, env, f))
        return k

    def k_IfExp(self, e, env, f):
        self.kind(e.test, env, f)
        return join(self.kind(e.body, env, f), self.kind(e.orelse, env, f))

    def k_NamedExpr(self, e, env, f):
        k = self.kind(e.value, env, f)
        env[e.target.id] = k
        return k

    def k_Compare(self, e, env, f):
        for x in (e.left, *e.comparators):
            self.kind(x, env, f)
        return None

    def k_Subscript(self, e, env, f):
        k = self.kind(e.value, env, f)
        if isinstance(e.slice, ast.expr):
            self.kind(e.slice, env, f)
        if isinstance(e.value, ast.Attribute) and isinstance(k, str):
            for x in self.attr_kinds(e.value.attr, self._owner(e.value, f)):
                k = x if isinstance(x, tuple) else k
        if k == "T":
            if isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None:
                return "T"
            self.bad(e, f, f"`{ast.unparse(e)}` takes an item by its place in a set's order")
            return None
        if isinstance(k, tuple):
            return k if isinstance(e.slice, ast.Slice) else k[1]
        return None

    def k_Lambda(self, e, env, f):
        self.kind(e.body, dict(env), f)
        return None

    def k_JoinedStr(self, e, env, f):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                k = self.kind(x.value, env, f)
                if k in ("S", "T", "D") and not env.get("//telling"):
                    self.bad(x, f, f"`{ast.unparse(x.value)}` is written out in a set's order")
        return None

    def k_Yield(self, e, env, f):
        k = self.kind(e.value, env, f)
        if k in ("T", "D"):
            self.bad(e, f, f"`{ast.unparse(e)}` gives out a set's order")
        return None

    def k_YieldFrom(self, e, env, f):
        k = self.kind(e.value, env, f)
        if k in ("S", "T", "D"):
            self.bad(e, f, f"`{ast.unparse(e)}` gives out a set's order")
        return None

    def k_Call(self, e, env, f):
        fn = e.func
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
        told = tells(e)
        if told:
            env = {**env, "//telling": True}
        rk = self.kind(fn.value, env, f) if isinstance(fn, ast.Attribute) else None
        args = [(a.value if isinstance(a, ast.Starred) else a, isinstance(a, ast.Starred)) for a in e.args]
        ks = [self.kind(a, env, f) for a, _ in args]
        kws = {k.arg: self.kind(k.value, env, f) for k in e.keywords}
        taint = [k for k in (*ks, *kws.values()) if k in ("S", "T", "D")]
        a0 = ks[0] if ks else None
        own = isinstance(fn, ast.Name) and fn.id not in env
        if taint:
            self.sites += 1
        if name in ("set", "frozenset") and own:
            return "S"
        if name == "defaultdict" and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id in ("set", "frozenset"):
            return ("C", "S")
        if name == "cast" and len(e.args) == 2:
            return join(self.ann(e.args[0]), ks[1])
        if name in ("copy", "deepcopy") and own:
            return a0
        if name in ("getattr",) and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            return join(self.attr_kind(e.args[1].value), ks[2] if len(ks) > 2 else None)
        if name == "sorted" or name == "sort":
            if (a0 in ("S", "T", "D") or rk == "T") and "key" in kws:
                self.bad(e, f, f"`{ast.unparse(e)}` leaves ties in a set's order")
            if name == "sort" and isinstance(fn.value, ast.Name) and rk == "T":
                env[fn.value.id] = None
            return None
        if name in ("min", "max") and own:
            if a0 in ("S", "T", "D") and "key" in kws:
                self.bad(e, f, f"`{ast.unparse(e)}` breaks ties in a set's order")
            return None
        if name == "sum" and own:
            if a0 in ("S", "T", "D") and not self.counts(e.args[0]):
                self.bad(e, f, f"`{ast.unparse(e)}` adds in a set's order")
            return None
        if name == "next" and own:
            if a0 in ("S", "T", "D"):
                self.bad(e, f, f"`{ast.unparse(e)}` takes what comes first in a set's order")
            return None
        if name in SEQ and (own or not isinstance(rk, str)) and (taint or name in ("list", "tuple", "iter", "reversed", "enumerate")):
            return "T" if taint else a0 if isinstance(a0, tuple) and name in ("list", "tuple", "iter", "reversed") else None
        if name == "fromkeys":
            return "D" if a0 in ("S", "T") else None
        if name == "dict" and own:
            return "D" if a0 in ("T", "D") else a0
        if isinstance(fn, ast.Attribute):
            if rk == "S":
                if name in SET_OPS or name == "copy":
                    return "S"
                if name == "pop":
                    self.sites += 1
                    self.bad(e, f, f"`{ast.unparse(e)}` takes what comes first in a set's order")
                return None
            if rk == "T" and name in ("pop", "index", "popleft"):
                self.bad(e, f, f"`{ast.unparse(e)}` takes an item by its place in a set's order")
                return None
            if rk == "D" and name in ("keys", "values", "items", "copy"):
                return "D" if name == "copy" else "T"
            if rk == "D" and name == "popitem":
                self.bad(e, f, f"`{ast.unparse(e)}` takes an item by its place in a set's order")
                return None
            if isinstance(rk, tuple):
                if name in ("get", "pop", "setdefault", "__getitem__"):
                    return join(rk[1], ks[1] if len(ks) > 1 else None)
                if name in ("values", "copy"):
                    return rk
                if name == "items":
                    return ("C", ("items", rk[1])) if rk[1] is not None else None
            if name in ("get", "setdefault", "pop") and len(ks) > 1 and ks[1] is not None and name not in self.byname:
                return ks[1]
            if name in ("extend", "__iadd__", "extendleft") and a0 in ("S", "T", "D"):
                if isinstance(fn.value, ast.Name):
                    env[fn.value.id] = "T"
                else:
                    self.bad(e, f, f"`{ast.unparse(e)}` keeps a set's order")
                return None
            if name == "update" and a0 in ("D", "T") and rk != "S":
                if isinstance(fn.value, ast.Name):
                    env[fn.value.id] = "D"
                else:
                    self.bad(e, f, f"`{ast.unparse(e)}` keeps a set's order")
                return None
            if name == "append" and a0 in ("T", "D"):
                self.bad(e, f, f"`{ast.unparse(e)}` keeps a set's order")
                return None
        cands = self.byname.get(name, [])
        cls = self.prog.find_class(name) if hasattr(self.prog, "find_class") else None
        if cls is None and own:
            cs = [c for c in self.prog.classes() if c.name == name]
            cls = cs[0] if cs else None
        if cls is not None and not cands:
            init = cls.find("__init__")
            cands = [init] if init is not None else []
        if cands and not name.startswith("__"):
            for g in cands:
                self.pass_on(g, e, ks, kws, isinstance(fn, ast.Attribute) or cls is not None)
            return self.rets.get(name) if cls is None else None
        if taint and not told and name not in FREE and not (name in ("append", "add", "setdefault", "get", "pop", "remove", "insert") and "T" not in taint):
            self.bad(e, f, f"`{ast.unparse(e)[:80]}` is given a set's order")
        return None

    def counts(self, a):
        if isinstance(a, (ast.GeneratorExp, ast.ListComp)):
            x = a.elt
            return isinstance(x, (ast.Compare, ast.BoolOp)) or (isinstance(x, ast.Constant) and isinstance(x.value, int)) or (
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "bool", "isinstance", "int"))
        return False

    def pass_on(self, g, e, ks, kws, method):
        a = g.node.args
        names = [x.arg for x in (*a.posonlyargs, *a.args)]
        if method and names and not g.is_static and g.cls is not None:
            names = names[1:]
        if any(isinstance(x, ast.Starred) for x in e.args):
            return
        for n, k in (*zip(names, ks), *kws.items()):
            if k in ("S", "T", "D") and n is not None:
                self.params[(g.qual, n)] = join(self.params.get((g.qual, n)), k)

    def iter_elem(self, it, k, env, f):
        """Kind bound to the target of an iteration over `it` (of kind k)."""
        x = it
        while isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "sorted", "reversed", "iter") and x.args:
            x = x.args[0]
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and not x.args:
            rk = self.kind(x.func.value, env, None)
            if isinstance(rk, tuple):
                return ("items", rk[1]) if x.func.attr == "items" else rk[1] if x.func.attr == "values" else None
        if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(k, tuple):
            return None if k[1] == "S" and self.is_map(x) else k[1]
        return self.each(k)

    def is_map(self, x):
        """A dictionary's keys are not of the kind of its values."""
        n = x.attr if isinstance(x, ast.Attribute) else x.id
        return n in self.maps()

    def maps(self):
        if not hasattr(self, "_maps"):
            self._maps = set()
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    a = n.annotation if isinstance(n, (ast.AnnAssign, ast.arg)) else None
                    if a is not None and "dict[" in ast.unparse(a):
                        t = n.arg if isinstance(n, ast.arg) else n.target.attr if isinstance(n.target, ast.Attribute) else getattr(n.target, "id", "")
                        self._maps.add(t)
        return self._maps

    def bind(self, t, k, env):
        if isinstance(t, ast.Name):
            env[t.id] = k if not (isinstance(k, tuple) and k[0] == "items") else None
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(k, tuple) and k[0] == "items":
                    self.bind(x, k[1] if i == 1 else None, env)
                else:
                    self.bind(x.value if isinstance(x, ast.Starred) else x, k[1] if isinstance(k, tuple) else None, env)

    # -- statements ----------------------------------------------------------------------------------
    def function(self, f, outer):
        env = dict(outer)
        a = f.node.args
        for x in (*a.posonlyargs, *a.args, *a.kwonlyargs):
            env[x.arg] = join(self.ann(x.annotation), self.params.get((f.qual, x.arg)))
        for x in (a.vararg, a.kwarg):
            if x is not None:
                env[x.arg] = None
        self.block(f.node.body, env, f)

    def nested(self, node, f):
        for g in self.prog.all_functions:
            if g.node is node:
                return g
        return None

    def only_told(self, s, f):
        """A local that is only ever part of an error or log message."""
        t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else getattr(s, "target", None)
        if f is None or not isinstance(t, ast.Name) or not isinstance(s.value, (ast.JoinedStr, ast.BinOp, ast.Call, ast.Constant)):
            return False
        memo = self.told.get(id(f))
        if memo is None:
            memo = self.told[id(f)] = set()
            node = getattr(f, "node", f)
            outside, stores = {}, set()

            def walk(n, into):
                if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and tells(n):
                    into = "//"
                elif isinstance(n, (ast.Assign, ast.AnnAssign)) and into != "//":
                    u = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else getattr(n, "target", None)
                    into = u.id if isinstance(u, ast.Name) else None
                    stores.add(into)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and into != "//":
                    outside.setdefault(n.id, set()).add(into)
                for c in ast.iter_child_nodes(n):
                    walk(c, into)
            walk(node, None)
            cand = stores - {None}
            while True:
                nxt = {v for v in cand if outside.get(v, set()) <= cand}
                if nxt == cand:
                    break
                cand = nxt
            memo |= cand
        return t.id in memo

    def block(self, body, env, f):
        for s in body:
            self.stmt(s, env, f)

    def merge(self, env, *others):
        keys = set(env)
        for o in others:
            keys |= set(o)
        for k in keys:
            v = None
            for o in others:
                v = join(v, o.get(k))
            env[k] = v

    def stmt(self, s, env, f):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = self.nested(s, f)
            if g is not None:
                self.function(g, env)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)) and self.only_told(s, f) and not env.get("//telling"):
            e2 = {**env, "//telling": True}
            self.stmt(s, e2, f)
            env.update({k: v for k, v in e2.items() if k != "//telling"})
        elif isinstance(s, ast.Assign):
            k = self.kind(s.value, env, f)
            for t in s.targets:
                self.assign(t, k, s, env, f)
        elif isinstance(s, ast.AnnAssign):
            k = self.kind(s.value, env, f) if s.value is not None else None
            ak = self.ann(s.annotation)
            self.assign(s.target, k if k is not None else ak, s, env, f)
        elif isinstance(s, ast.AugAssign):
            k = self.kind(s.value, env, f)
            t = self.kind(s.target, env, f)
            if k in ("S", "T", "D") and t != "S" and isinstance(s.op, ast.Add):
                self.assign(s.target, "T", s, env, f)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            k = self.kind(s.iter, env, f)
            one = dict(env)
            self.bind(s.target, self.iter_elem(s.iter, k, env, f), one)
            self.block(s.body, one, f)
            self.merge(env, dict(env), one)
            self.block(s.orelse, env, f)
            if k in ("S", "T", "D"):
                self.sites += 1
                self.marks = {}
                r = self.ordered(s.body, one, f, s, 0)
                env.update(self.marks)
                if r:
                    self.bad(s, f, f"`for {ast.unparse(s.target)} in {ast.unparse(s.iter)}` {r} in a set's order")
        elif isinstance(s, ast.While):
            self.kind(s.test, env, f)
            one = dict(env)
            self.block(s.body, one, f)
            self.merge(env, dict(env), one)
            self.block(s.orelse, env, f)
        elif isinstance(s, ast.If):
            self.kind(s.test, env, f)
            a, b = dict(env), dict(env)
            self.block(s.body, a, f)
            self.block(s.orelse, b, f)
            self.merge(env, a, b)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.kind(i.context_expr, env, f)
            self.block(s.body, env, f)
        elif isinstance(s, ast.Try):
            self.block(s.body, env, f)
            for h in s.handlers:
                e2 = dict(env)
                self.block(h.body, e2, f)
                self.merge(env, dict(env), e2)
            self.block(s.orelse, env, f)
            self.block(s.finalbody, env, f)
        elif isinstance(s, ast.Return):
            k = self.kind(s.value, env, f)
            if k in ("T", "D") and f is not None and (not f.name.startswith("_") or f.name.startswith("__")):
                self.bad(s, f, f"`{ast.unparse(s)[:90]}` gives out a set's order")
            if f is not None:
                self._ret(f.name, k)
        elif isinstance(s, ast.Raise):
            self.kind(s.exc, {**env, "//telling": True}, f)
        elif isinstance(s, ast.Match):
            self.kind(s.subject, env, f)
            outs = []
            for c in s.cases:
                e2 = dict(env)
                self.block(c.body, e2, f)
                outs.append(e2)
            self.merge(env, dict(env), *outs)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.kind(t, env, None)
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.kind(x, env, f)

    def assign(self, t, k, s, env, f):
        if isinstance(t, ast.Name):
            env[t.id] = k
        elif isinstance(t, ast.Attribute):
            if k in ("T", "D"):
                self.bad(s, f, f"`{ast.unparse(s)[:90]}` keeps a set's order")
            else:
                self._attr(t.attr, k, self._owner(t, f))
        elif isinstance(t, ast.Subscript):
            if ast.unparse(t.value).endswith("__dict__"):
                k = None if isinstance(k, (str, tuple)) and k not in ("T", "D") else k
            if k in ("T", "D"):
                self.bad(s, f, f"`{ast.unparse(s)[:90]}` keeps a set's order")
            elif k is not None and isinstance(t.value, ast.Attribute):
                self._attr(t.value.attr, ("C", k), self._owner(t.value, f))
            elif k is not None and isinstance(t.value, ast.Name):
                env[t.value.id] = join(env.get(t.value.id), ("C", k))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if k in ("S", "T", "D"):
                self.sites += 1
                self.bad(s, f, f"`{ast.unparse(s)[:90]}` takes items by their place in a set's order")
            self.bind(t, k if isinstance(k, tuple) else None, env)

    # -- loops over sets ---------------------------------------------------------------------------------
    def ordered(self, body, env, f, loop, depth, local=()):
        """What in the body depends on the order of the iterations, or None."""
        out = self.used_after(f, loop) if loop is not None else set()
        for s in body:
            r = self.one(s, env, f, out, depth)
            if r:
                return r
        return None

    def used_after(self, f, loop):
        inside = {id(x) for x in ast.walk(loop)}
        return {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside} if f else set()

    def one(self, s, env, f, out, depth):
        if isinstance(s, (ast.Pass, ast.Continue, ast.Raise, ast.Assert, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            return None
        if isinstance(s, ast.Break):
            return "stops"
        if isinstance(s, ast.If):
            def flagged(b):
                return b and isinstance(b[-1], ast.Break) and all(
                    isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) for x in b[:-1])
            for b in (s.body, s.orelse):
                if flagged(b):
                    continue
                for x in b:
                    r = self.one(x, env, f, out, depth)
                    if r:
                        return r
            return None
        if isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
            for b in (s.body, getattr(s, "orelse", []), getattr(s, "finalbody", []), *(h.body for h in getattr(s, "handlers", []))):
                for x in b:
                    r = self.one(x, env, f, out, depth)
                    if r:
                        return r
            return None
        if isinstance(s, ast.Return):
            return None if s.value is None or isinstance(s.value, ast.Constant) else f"returns `{ast.unparse(s.value)}`"
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is None:
                return None
            for t in ts:
                if isinstance(t, ast.Name):
                    if not isinstance(s.value, ast.Constant) and t.id in out and self.in_body(t.id, s):
                        return f"sets `{t.id}`"
                elif isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
                    if any(x.id in out for x in t.elts):
                        return f"sets `{ast.unparse(t)}`"
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and depth == 0:
                    self.marks[t.value.id] = "D"
                else:
                    return f"sets `{ast.unparse(t)}`"
            return self.calls(s.value, env, f, depth)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub)) and self.kind(s.target, env, None) == "S":
                return None
            if isinstance(s.op, (ast.Add, ast.Sub)) and (isinstance(s.value, ast.Constant) and isinstance(s.value.value, int)
                                                         or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name)
                                                         and s.value.func.id in ("len", "bool", "isinstance", "int")):
                return None
            if isinstance(s.op, ast.Add) and isinstance(s.value, (ast.List, ast.Tuple)) and isinstance(s.target, ast.Name) and depth == 0:
                self.marks[s.target.id] = "T"
                return self.calls(s.value, env, f, depth)
            return f"changes `{ast.unparse(s.target)}`"
        if isinstance(s, ast.Delete):
            return None
        if isinstance(s, ast.Expr):
            return self.calls(s.value, env, f, depth)
        return f"does `{ast.unparse(s)[:60]}`"

    def in_body(self, name, s):
        return True

    def calls(self, e, env, f, depth):
        """Calls with an effect whose order matters."""
        for x in ast.walk(e):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                return "waits"
            if not isinstance(x, ast.Call):
                continue
            fn = x.func
            name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
            if name == "getattr" and len(x.args) > 1 and not isinstance(x.args[1], ast.Constant):
                return f"reads `{ast.unparse(x)[:60]}`"
            if name in FREE or name in ("sorted", "min", "max", "abs", "round", "str", "repr", "int", "float", "getattr", "get", "keys",
                                        "values", "items", "copy", "deepcopy", "super", "isinstance", "range", "list", "tuple", "dict",
                                        "startswith", "endswith", "format", "cast") or name in SEQ:
                continue
            if isinstance(fn, ast.Attribute) and name in ITEM_OPS and not self.byname.get(name):
                if name == "update" and self.kind(fn.value, env, None) != "S":
                    return f"calls `{ast.unparse(x)[:60]}`"
                continue
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and name in ("append", "appendleft") and depth == 0:
                self.marks[fn.value.id] = "T"
                continue
            cands = self.byname.get(name, [])
            if cands and depth < 3 and all(self.harmless(g, depth + 1) for g in cands):
                continue
            return f"calls `{ast.unparse(x)[:60]}`"
        return None

    def harmless(self, g, depth):
        if all(isinstance(x, (ast.Pass, ast.Raise)) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) for x in g.node.body):
            return False    # a hook for users to fill in
        env = {}
        for x in (*g.node.args.posonlyargs, *g.node.args.args, *g.node.args.kwonlyargs):
            env[x.arg] = join(self.ann(x.annotation), self.params.get((g.qual, x.arg)))
        for s in g.node.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Return):
                if s.value is not None and self.calls(s.value, env, g, depth):
                    return False
                continue
            if self.one(s, env, g, set(), depth):
                return False
        return True
