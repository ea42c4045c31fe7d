"""Path-sensitive value numbering: what a function computes, as terms over its unknown inputs.

Numbers that are known are exact; unknown values are terms (`T`); objects of the package whose class is known are
`Obj`s with their attributes.  Branches on unknown conditions fork; every branch of every function is followed.
"""
from __future__ import annotations

import ast
import itertools
import string
import builtins
from fractions import Fraction
from math import isqrt

from . import algebra
from .model import AnalysisBroken, Class, Func, Module


class Unknown(AnalysisBroken):
    pass


class T:
    """An unknown value."""

    __slots__ = ("t", "kind")

    def __init__(self, t, kind=None):
        self.t, self.kind = t, kind

    def __eq__(self, o):
        return isinstance(o, T) and o.t == self.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return show(self.t)


class Obj:
    """An object of a known class."""

    n = 0

    def __init__(self, cls, attrs=None, label=None, opened=False):
        Obj.n += 1
        self.cls, self.attrs, self.opened = cls, dict(attrs or {}), opened
        self.label = label or f"{cls.name if isinstance(cls, Class) else cls}#{Obj.n}"

    def __repr__(self):
        return self.label


class Ext:
    """A name from outside the package."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Fn:
    def __init__(self, func, node, scope, cls, me=None, bound=False):
        self.func, self.node, self.scope, self.cls, self.me, self.bound = func, node, scope, cls, me, bound

    def __repr__(self):
        return f"<{self.func.qual if self.func else 'lambda'}>"


class Gen:
    """A generator that has not run: `Interp.run_gen` runs it with a handler of what it yields."""

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw

    def __repr__(self):
        return f"<generator {self.fn!r}>"


class Super:
    def __init__(self, cls, me):
        self.cls, self.me = cls, me


class Builtin:
    """A method of a known container or string, or a builtin function."""

    def __init__(self, name, obj=None, has=False):
        self.name, self.obj, self.has = name, obj, has

    def __repr__(self):
        return f"<{self.name}>"


class Raised(Exception):
    def __init__(self, exc, node=None):
        self.exc, self.node = exc, node


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Cut(Exception):
    """A path not followed further (loop bound, excluded assumption)."""


class Scope(dict):
    def __init__(self, parent=None, module=None, cls=None, me=None, func=None):
        super().__init__()
        self.parent, self.module, self.cls, self.me, self.func = parent, module, cls, me, func
        self.nonlocals = set()
        self.yields = None
        self.handler = None


def num(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def term(v):
    if isinstance(v, T):
        return v.t
    if isinstance(v, Obj):
        return ("obj", v.label)
    if isinstance(v, list):
        return ("list", *(term(x) for x in v))
    if isinstance(v, tuple):
        return ("tuple", *(term(x) for x in v))
    if isinstance(v, dict):
        return ("dict", *((term(k), term(x)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return ("set", *sorted((term(x) for x in v), key=repr))
    if isinstance(v, Ext):
        return ("ext", v.name)
    if isinstance(v, Class):
        return ("class", v.qual)
    if isinstance(v, Module):
        return ("module", v.name)
    if isinstance(v, Fn):
        return ("fn", v.func.qual if v.func else f"lambda:{v.node.lineno}", *((term(v.me),) if v.bound else ()))
    if isinstance(v, Builtin):
        return ("builtin", v.name)
    return ("const", v)


def term_size(t, limit):
    n = 1
    for x in t:
        if isinstance(x, tuple):
            n += term_size(x, limit - n)
            if n > limit:
                break
    return n


def show(t):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    o = t[0]
    if o == "const":
        return str(float(t[1])) if isinstance(t[1], Fraction) else repr(t[1])
    if o in ("sym", "obj", "ext"):
        return str(t[1])
    if o == "attr":
        return f"{show(t[1])}.{t[2]}"
    if o == "bin":
        return f"({show(t[2])} {t[1]} {show(t[3])})"
    if o == "neg":
        return f"-{show(t[1])}"
    if o in ("item", "sub"):
        return f"{show(t[1])}[{show(t[2]) if isinstance(t[2], tuple) else t[2]}]"
    if o == "call":
        return f"{show(t[1])}({', '.join([*map(show, t[2]), *(f'{k}={show(v)}' for k, v in t[3])])})"
    if o in ("list", "tuple", "set"):
        return f"{'[' if o == 'list' else '('}{', '.join(map(show, t[1:]))}{']' if o == 'list' else ')'}"
    if o == "dict":
        return "{" + ", ".join(f"{show(k)}: {show(v)}" for k, v in t[1:]) + "}"
    if o == "builtin":
        return t[1]
    return f"{o}({', '.join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:])})"


class Result:
    def __init__(self, outcome, value, interp):
        self.outcome, self.value = outcome, value
        self.conds, self.effects, self.it = list(interp.conds), interp.effects, interp

    def __repr__(self):
        return "; ".join(f"{'' if b else 'not '}{show(k)}" for k, b in self.conds) + f" => {self.outcome} {self.value!r}"


def explore(prog, thunk, max_paths=4000, **kw):
    """All paths of thunk(interp)."""
    out, todo = [], [[]]
    while todo:
        choices = todo.pop()
        it = Interp(prog, choices, **kw)
        Obj.n = 0
        try:
            try:
                v = thunk(it)
                out.append(Result("return", v, it))
            except Raised as r:
                out.append(Result("raise", r.exc, it))
        except Cut:
            pass
        for i in range(len(choices), len(it.taken)):
            todo.append(it.taken[:i] + [not it.taken[i]])
        if len(out) > max_paths:
            raise Unknown(f"more than {max_paths} paths")
    return out


class Interp:
    def __init__(self, prog, choices=(), intercept=None, oracle=None, max_iter=2, typed=None, fold_math=True, max_steps=400_000, name_over=None):
        self.prog = prog
        self.choices, self.taken = list(choices), []
        self.known: dict = {}
        self.conds: list = []
        self.effects: list = []
        self.intercept = intercept or {}
        self.oracle = oracle
        self.max_iter = max_iter
        self.max_steps = max_steps
        self.globals: dict = {}
        self.name_over = name_over      # larger numeric terms get a name: ("def", n)
        self.defs: list = []
        self.def_of: dict = {}
        self.steps = 0
        self.used: set = set()
        self.stack: list = []

    # -- conditions -----------------------------------------------------------------------------
    def decide(self, key):
        if key in self.known:
            return self.known[key]
        r = self.oracle(key, self) if self.oracle else None
        if r is None:
            i = len(self.taken)
            r = self.choices[i] if i < len(self.choices) else True
            self.taken.append(r)
            self.conds.append((key, r))
        self.known[key] = r
        return r

    def truth(self, v):
        if isinstance(v, T):
            if v.t[0] == "cond":
                return self.decide(v.t[1]) == v.t[2]
            if v.kind == "num":
                return not self.equal(v, 0)
            return self.decide(("truthy", v.t))
        if isinstance(v, Obj):
            for n in ("__bool__", "__len__"):
                f = v.cls.find(n) if isinstance(v.cls, Class) else None
                if f is not None:
                    return self.truth(self.call_func(f, [], {}, me=v))
            return True
        if isinstance(v, (Class, Fn, Ext, Module, Builtin)):
            return True
        return bool(v)

    def diff(self, a, b):
        """a - b when it is a known number."""
        lim = self.intercept.get("diff_limit")
        if lim and term_size(term(a), lim) + term_size(term(b), lim) > lim:
            return None
        try:
            n, d = algebra.rat(("bin", "-", term(a), term(b)))
        except RecursionError:
            return None
        if not n:
            return 0
        if set(n) <= {()} and set(d) <= {()}:
            return n[()] / d[()]
        return None

    def equal(self, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            if a is b and not (isinstance(a.cls, Class) and a.cls.find("__eq__")):
                return True
            for x, y in ((a, b), (b, a)):
                f = x.cls.find("__eq__") if isinstance(x, Obj) and isinstance(x.cls, Class) else None
                if f is not None:
                    r = self.call_func(f, [y], {}, me=x)
                    if r != ("notimpl",):
                        return self.truth(r)
            if isinstance(a, Obj) and isinstance(b, Obj):
                d = self.dataclass_fields(a.cls)
                if d is not None and a.cls is b.cls:
                    return all(self.equal(a.attrs.get(n), b.attrs.get(n)) for n in d)
                return a is b
            o = b if isinstance(a, Obj) else a
            if not isinstance(o, T):
                return False
        if isinstance(a, T) or isinstance(b, T):
            ka = a.kind if isinstance(a, T) else "num" if num(a) else type(a).__name__
            kb = b.kind if isinstance(b, T) else "num" if num(b) else type(b).__name__
            if ka and kb and ka != kb:
                return False
            if ka == kb == "num":
                d = self.diff(a, b)
                if d is not None:
                    return d == 0
            x, y = sorted((term(a), term(b)), key=repr)
            if x == y:
                return True
            return self.decide(("eq", x, y))
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            return len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(self.equal(a[k], b[k]) for k in a)
        return a == b

    def less(self, a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            for x, y in zip(a, b):
                if not self.equal(x, y):
                    return self.less(x, y)
            return len(a) < len(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y, n in ((a, b, "__lt__"), (b, a, "__gt__")):
                f = x.cls.find(n) if isinstance(x, Obj) and isinstance(x.cls, Class) else None
                if f is not None:
                    return self.truth(self.call_func(f, [y], {}, me=x))
            raise self.exc("TypeError")
        if isinstance(a, T) or isinstance(b, T):
            d = self.diff(a, b)
            if d is not None:
                return d < 0
            if term(a) == term(b):
                return False
            if self.known.get(("lt", term(b), term(a))):
                return False
            x, y = sorted((term(a), term(b)), key=repr)
            if self.known.get(("eq", x, y)):
                return False
            return self.decide(("lt", term(a), term(b)))
        try:
            return a < b
        except TypeError:
            raise self.exc("TypeError") from None

    def exc(self, name, *args, node=None):
        return Raised(Obj(name, {"args": tuple(args)}), node)

    # -- names -------------------------------------------------------------------------------------
    def lookup(self, name, sc):
        s = sc
        while s is not None:
            if name in s:
                return s[name]
            s = s.parent
        return self.glob(sc.module, name)

    def glob(self, m, name):
        key = (m.name, name)
        if key in self.intercept:
            return self.intercept[key]
        if key in self.globals:
            return self.globals[key]
        r = self.prog.resolve(m, name)
        if isinstance(r, Func):
            return Fn(r, r.node, Scope(module=r.module), None)
        if isinstance(r, (Class, Module)):
            return r
        if isinstance(r, tuple) and r[0] == "global":
            if r[1:] in self.globals:
                return self.globals[r[1:]]
            mm = self.prog.modules[r[1]]
            v = self.ev(mm.globals[r[2]], Scope(module=mm))
            self.globals[(r[1], r[2])] = v
            return v
        if isinstance(r, tuple) and r[0] == "ext":
            return self.external(r[1])
        if hasattr(builtins, name):
            return Builtin(name)
        raise Unknown(f"{m.rel}: name `{name}`")

    def external(self, d):
        if d in ("math.pi", "math.inf", "math.nan", "math.e", "math.tau"):
            return T(("ext", d), "num")
        return Ext(d)

    # -- statements -------------------------------------------------------------------------------------
    def body(self, b, sc):
        for s in b:
            self.stmt(s, sc)

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unknown("too long")

    def stmt(self, s, sc):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unknown(f"{sc.module.rel}:{s.lineno}: `{ast.unparse(s)[:60]}`")
        m(s, sc)

    def s_Expr(self, s, sc):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, sc)

    def s_Pass(self, s, sc):
        pass

    s_Global = s_Pass

    def s_Nonlocal(self, s, sc):
        sc.nonlocals |= set(s.names)

    def s_Import(self, s, sc):
        for a in s.names:
            mm = self.prog.module_of(a.name if a.asname else a.name.split(".")[0])
            sc[a.asname or a.name.split(".")[0]] = mm if mm is not None else Ext(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s, sc):
        base = self.prog._absmod(sc.module, s)
        mm = self.prog.module_of(base)
        for a in s.names:
            sc[a.asname or a.name] = self.glob(mm, a.name) if mm is not None else self.external(f"{base}.{a.name}")

    def s_Assert(self, s, sc):
        if not self.truth(self.ev(s.test, sc)):
            raise self.exc("AssertionError", node=s)

    def s_Return(self, s, sc):
        raise _Return(self.ev(s.value, sc) if s.value is not None else None)

    def s_Break(self, s, sc):
        raise _Break()

    def s_Continue(self, s, sc):
        raise _Continue()

    def s_Assign(self, s, sc):
        v = self.ev(s.value, sc)
        for t in s.targets:
            self.store(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.store(s.target, self.ev(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        import copy
        t = copy.copy(s.target)
        t.ctx = ast.Load()
        old = self.ev(t, sc)
        v = self.ev(s.value, sc)
        if isinstance(old, list) and isinstance(s.op, ast.Add):
            old.extend(self.items(v))
            new = old
        elif isinstance(old, set) and isinstance(s.op, (ast.BitOr, ast.Sub, ast.BitAnd)):
            getattr(old, {ast.BitOr: "update", ast.Sub: "difference_update", ast.BitAnd: "intersection_update"}[type(s.op)])(v)
            new = old
        else:
            new = self.bin(s.op, old, v)
        self.store(s.target, new, sc)

    def s_If(self, s, sc):
        self.body(s.body if self.truth(self.ev(s.test, sc)) else s.orelse, sc)

    def s_For(self, s, sc):
        try:
            for v in self.items(self.ev(s.iter, sc), lazy=True):
                self.store(s.target, v, sc)
                try:
                    self.body(s.body, sc)
                except _Continue:
                    continue
            self.body(s.orelse, sc)
        except _Break:
            pass

    def s_While(self, s, sc):
        n = 0
        try:
            forever = isinstance(s.test, ast.Constant)
            before = len(self.taken)
            while True:
                if not forever:
                    before = len(self.taken)
                if not self.truth(self.ev(s.test, sc)):
                    break
                # a loop that leaves from inside is counted by what it decided in its last round
                if len(self.taken) > before:
                    before = len(self.taken)
                    n += 1
                    if n > self.max_iter:
                        raise Cut()
                try:
                    self.body(s.body, sc)
                except _Continue:
                    continue
            self.body(s.orelse, sc)
        except _Break:
            pass

    def s_With(self, s, sc):
        for i in s.items:
            v = self.ev(i.context_expr, sc)
            if i.optional_vars is not None:
                self.store(i.optional_vars, v, sc)
        self.body(s.body, sc)

    def s_FunctionDef(self, s, sc):
        f = self.prog.func_by_node.get(s)
        v = Fn(f, s, sc, None)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, sc)
            if isinstance(dv, Ext) and dv.name.split(".")[-1] in ("wraps", "lru_cache", "cache"):
                continue
            if isinstance(dv, T):
                continue
            v = self.call(dv, [v], {})
        sc[s.name] = v

    def s_Raise(self, s, sc):
        if s.exc is None:
            cur = sc.get("//exc")
            raise Raised(cur, s)
        v = self.ev(s.exc, sc)
        if isinstance(v, (Class, Ext, Builtin)):
            v = self.call(v, [], {})
        raise Raised(v, s)

    def s_Try(self, s, sc):
        try:
            try:
                self.body(s.body, sc)
            except Raised as r:
                for h in s.handlers:
                    if h.type is None or self.is_exc(r.exc, self.ev(h.type, sc)):
                        if h.name:
                            sc[h.name] = r.exc
                        old = sc.get("//exc")
                        sc["//exc"] = r.exc
                        self.body(h.body, sc)
                        sc["//exc"] = old
                        break
                else:
                    raise
            else:
                self.body(s.orelse, sc)
        finally:
            self.body(s.finalbody, sc)

    def is_exc(self, e, c):
        if isinstance(c, tuple):
            return any(self.is_exc(e, x) for x in c)
        name = c.name.split(".")[-1] if isinstance(c, (Ext, Builtin)) else c.name if isinstance(c, Class) else str(c)
        cls = e.cls if isinstance(e, Obj) else None
        if isinstance(cls, Class):
            if any(x is c for x in cls.mro):
                return True
            names = [x if isinstance(x, str) else x.name for x in cls.mro]
        else:
            names = [str(cls).split(".")[-1]]
        for n in names:
            b = getattr(builtins, n.split(".")[-1], None)
            if n.split(".")[-1] == name or (isinstance(b, type) and any(k.__name__ == name for k in b.__mro__)):
                return True
        return name in ("Exception", "BaseException")

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                sc.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, sc), self.ev(t.slice, sc)
                if isinstance(o, T):
                    self.effects.append(("del", o.t, term(k)))
                elif isinstance(o, dict):
                    if k not in o:
                        raise self.exc("KeyError", k, node=s)
                    del o[k]
                else:
                    del o[k]
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, sc)
                if isinstance(o, Obj):
                    f = o.cls.find("__delattr__") if isinstance(o.cls, Class) else None
                    if f is not None:
                        self.call_func(f, [t.attr], {}, me=o)
                    else:
                        o.attrs.pop(t.attr, None)
                else:
                    self.effects.append(("del", term(o), t.attr))

    def s_ClassDef(self, s, sc):
        raise Unknown(f"{sc.module.rel}:{s.lineno}: local class")

    def s_Match(self, s, sc):
        v = self.ev(s.subject, sc)
        for c in s.cases:
            if self.match(c.pattern, v, sc) and (c.guard is None or self.truth(self.ev(c.guard, sc))):
                self.body(c.body, sc)
                return

    def match(self, p, v, sc):
        if isinstance(p, ast.MatchValue):
            return self.equal(v, self.ev(p.value, sc))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, sc):
                return False
            if p.name:
                sc[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, sc) for x in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_attrs:
            return self.isinst(v, self.ev(p.cls, sc))
        raise Unknown(f"{sc.module.rel}: match pattern")

    def store(self, t, v, sc):
        if isinstance(t, ast.Name):
            s = sc
            if t.id in sc.nonlocals:
                s = sc.parent
                while s is not None and t.id not in s:
                    s = s.parent
            s[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            if isinstance(v, T):
                if star is not None:
                    raise Unknown("starred unpacking of an unknown value")
                vs = [self.index(v, i) for i in range(len(t.elts))]
            else:
                vs = list(self.items(v))
            if star is None:
                if len(vs) != len(t.elts):
                    raise self.exc("ValueError", node=t)
                for x, y in zip(t.elts, vs):
                    self.store(x, y, sc)
            else:
                k = len(t.elts) - star - 1
                for x, y in zip(t.elts[:star], vs):
                    self.store(x, y, sc)
                self.store(t.elts[star].value, vs[star:len(vs) - k], sc)
                for x, y in zip(t.elts[star + 1:], vs[len(vs) - k:]):
                    self.store(x, y, sc)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, sc), self.ev(t.slice, sc)
            if isinstance(o, T):
                self.effects.append(("setitem", o.t, term(k), term(v)))
            elif isinstance(o, Obj):
                self.call(self.getattr(o, "__setitem__"), [k, v], {})
            elif isinstance(o, list):
                if isinstance(k, slice):
                    o[k] = self.items(v)
                    return
                try:
                    o[k] = v
                except IndexError:
                    raise self.exc("IndexError", node=t) from None
            else:
                o[k] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, sc), t.attr, v)
        else:
            raise Unknown(ast.unparse(t))

    def setattr(self, o, name, v, raw=False):
        if isinstance(o, Obj):
            f = o.cls.find("__setattr__") if isinstance(o.cls, Class) and not raw else None
            if f is not None:
                self.call_func(f, [name, v], {}, me=o)
                return
            if isinstance(o.cls, Class) and not raw:
                for c in o.cls.mro:
                    if isinstance(c, Class) and name in c.setters:
                        self.call_func(c.setters[name], [v], {}, me=o)
                        return
                    if isinstance(c, Class) and name in c.methods and c.methods[name].is_property:
                        raise self.exc("AttributeError")
                if self.frozen(o.cls) and "//init" not in o.attrs:
                    raise self.exc("FrozenInstanceError")
            o.attrs[name] = v
            return
        self.effects.append(("setattr", term(o), name, term(v)))

    # -- expressions ----------------------------------------------------------------------------------
    def ev(self, e, sc):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unknown(f"{sc.module.rel}:{e.lineno}: `{ast.unparse(e)[:60]}`")
        return m(e, sc)

    def e_Constant(self, e, sc):
        v = Fraction(repr(e.value)) if isinstance(e.value, float) else e.value
        if num(v) and "const" in self.intercept:
            return self.intercept["const"](self, v)
        return v

    def e_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def e_List(self, e, sc):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.items(self.ev(x.value, sc))
            else:
                out.append(self.ev(x, sc))
        return out

    def e_Tuple(self, e, sc):
        return tuple(self.e_List(e, sc))

    def e_Set(self, e, sc):
        return set(self.e_List(e, sc))

    def e_Dict(self, e, sc):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, sc)
                if isinstance(d, T):
                    raise Unknown("** of an unknown mapping")
                out.update(d)
            else:
                kk = self.ev(k, sc)
                out[kk] = self.ev(v, sc)
        return out

    def e_JoinedStr(self, e, sc):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                parts.append((self.ev(x.value, sc), x.format_spec is not None or x.conversion not in (-1, 115)))
        return self.text(parts)

    def text(self, parts):
        """A text put together: of texts as they are, and of (value, written in a special way)."""
        out = []
        for p in parts:
            if isinstance(p, tuple):
                v, special = p
                if not special and v is None:
                    v = "None"
                if isinstance(v, str) or isinstance(v, int) and not special:
                    out.append(str(v))
                elif isinstance(v, T) and not special and v.kind == "str" and v.t[0] == "fstr":
                    out += [x[1] if x[0] == "const" else x for x in v.t[1:]]
                elif isinstance(v, T) and not special and v.t[:2] == ("call", ("builtin", "str")):
                    out.append(("text", v.t[2][0]))
                else:
                    out.append(("text", term(v)))
            else:
                out.append(p)
        joined = []
        for p in out:
            if isinstance(p, str) and joined and isinstance(joined[-1], str):
                joined[-1] += p
            elif p != "":
                joined.append(p)
        if all(isinstance(p, str) for p in joined):
            return "".join(joined)
        return T(("fstr", *(("const", p) if isinstance(p, str) else p for p in joined)), "str")

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        self.store(e.target, v, sc)
        return v

    def e_Lambda(self, e, sc):
        return Fn(None, e, sc, None)

    def e_IfExp(self, e, sc):
        return self.ev(e.body if self.truth(self.ev(e.test, sc)) else e.orelse, sc)

    def e_BoolOp(self, e, sc):
        v = None
        for x in e.values:
            v = self.ev(x, sc)
            if x is e.values[-1]:
                return v
            if self.truth(v) != isinstance(e.op, ast.And):
                return v if not isinstance(v, T) or v.t[0] != "cond" else isinstance(e.op, ast.Or)
        return v

    def e_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v if num(v) else T(("neg", term(v)), "num")
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unknown("operator")

    def e_BinOp(self, e, sc):
        a = self.ev(e.left, sc)
        return self.bin(e.op, a, self.ev(e.right, sc))

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.FloorDiv: "//", ast.BitOr: "|",
           ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
    DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "%": "mod", "**": "pow", "//": "floordiv", "|": "or", "&": "and", "^": "xor"}

    def named(self, v):
        if self.name_over is None or not isinstance(v, T) or v.kind != "num" or v.t[0] in ("def", "sym"):
            return v
        if term_size(v.t, self.name_over) <= self.name_over:
            return v
        if v.t not in self.def_of:
            self.def_of[v.t] = len(self.defs)
            self.defs.append(v.t)
        return T(("def", self.def_of[v.t]), "num")

    def bin(self, op, a, b):
        return self.named(self._bin(op, a, b))

    def _bin(self, op, a, b):
        o = self.OPS[type(op)]
        for x, y, pre in ((a, b, ""), (b, a, "r")):
            if isinstance(x, Obj) and isinstance(x.cls, Class):
                f = x.cls.find(f"__{pre}{self.DUNDER.get(o, '?')}__")
                if f is not None:
                    return self.call_func(f, [y], {}, me=x)
        if o == "|" and any(isinstance(x, (Class, Builtin, Ext)) for x in (a, b)):
            return (*(a if isinstance(a, tuple) else (a,)), *(b if isinstance(b, tuple) else (b,)))
        if o in ("+", "-", "*", "/", "**", "%", "//"):
            a, b = (int(x) if isinstance(x, bool) else x for x in (a, b))
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, list) and o == "*" or isinstance(a, str) and o == "*":
                return T(("repeat", term(a), term(b)))
            if o == "+" and all(isinstance(x, str) or isinstance(x, T) and x.kind == "str" for x in (a, b)):
                return self.text([(a, False), (b, False)])
            if o == "%" and isinstance(a, str) and a.count("%") == a.count("%s"):
                bs = b if isinstance(b, tuple) else (b,)
                lits = a.split("%s")
                if len(lits) == len(bs) + 1:
                    return self.text([x for i, lit in enumerate(lits) for x in ((lit, (bs[i], False)) if i < len(bs) else (lit,))])
            kind = "num" if (not isinstance(a, T) or a.kind == "num") and (not isinstance(b, T) or b.kind == "num") else \
                "str" if o in "+%" and ("str" in (getattr(a, "kind", None), getattr(b, "kind", None)) or isinstance(a, str)) else "num"
            if o == "*" and (a == 1 or b == 1) and kind == "num":
                return b if a == 1 else a
            if o == "+" and (num(a) and a == 0 or num(b) and b == 0) and kind == "num":
                return b if num(a) else a
            return T(("bin", o, term(a), term(b)), kind)
        if num(a) and num(b):
            if o in "/%//" and b == 0:
                raise self.exc("ZeroDivisionError")
            if o == "**" and not (isinstance(b, int) and abs(b) < 64 or isinstance(b, Fraction) and b.denominator == 1 and abs(b) < 64):
                return T(("bin", o, term(a), term(b)), "num")
            if o == "/":
                return Fraction(a) / Fraction(b)
            if o == "**":
                if a == 0 and b < 0:
                    raise self.exc("ZeroDivisionError")
                return Fraction(a) ** int(b)
        if isinstance(a, dict) and isinstance(b, dict) and o == "|":
            return {**a, **b}
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "%": lambda: a % b, "//": lambda: a // b,
                    "|": lambda: a | b, "&": lambda: a & b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[o]()
        except (TypeError, KeyError):
            raise self.exc("TypeError") from None

    def e_Compare(self, e, sc):
        a = self.ev(e.left, sc)
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, sc)
            if not self.compare(op, a, b):
                return False
            a = b
        return True

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, Obj) and isinstance(a.cls, Class) and a.cls.find("__ne__"):
                return self.truth(self.call_func(a.cls.find("__ne__"), [b], {}, me=a))
            return not self.equal(a, b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            return self.same(a, b) == isinstance(op, ast.Is)
        if isinstance(op, (ast.In, ast.NotIn)):
            return self.has(a, b) == isinstance(op, ast.In)
        if isinstance(op, ast.Lt):
            return self.less(a, b)
        if isinstance(op, ast.Gt):
            return self.less(b, a)
        if isinstance(op, ast.LtE):
            return not self.less(b, a)
        return not self.less(a, b)

    def same(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, T):
                return False if o.kind else self.decide(("isnone", o.t))
            return o is None
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, T) and isinstance(b, T) and a.t == b.t:
                return True
            x, y = sorted((term(a), term(b)), key=repr)
            return self.decide(("is", x, y))
        return a is b or (isinstance(a, (int, str, bool, Fraction)) and type(a) is type(b) and a == b) or (isinstance(a, Ext) and a == b) or (
            isinstance(a, Builtin) and isinstance(b, Builtin) and a.obj is None and b.obj is None and a.name == b.name)

    def has(self, a, b):
        if isinstance(b, Obj):
            f = b.cls.find("__contains__") if isinstance(b.cls, Class) else None
            if f is not None:
                return self.truth(self.call_func(f, [a], {}, me=b))
            b = self.items(b)
        if isinstance(b, T):
            return self.decide(("in", term(a), b.t))
        if isinstance(b, str):
            return a in b if isinstance(a, str) else self.decide(("in", term(a), term(b)))
        if isinstance(b, (dict, set, frozenset)) and not isinstance(a, (T, Obj)):
            return a in b
        return any(x is a or self.equal(x, a) for x in list(b))

    def e_Attribute(self, e, sc):
        return self.getattr(self.ev(e.value, sc), e.attr)

    def e_Subscript(self, e, sc):
        o = self.ev(e.value, sc)
        if isinstance(o, (Class, Ext, Builtin)):
            return o    # a parametrised type
        return self.index(o, self.ev(e.slice, sc))

    def e_Slice(self, e, sc):
        return slice(*(self.ev(x, sc) if x is not None else None for x in (e.lower, e.upper, e.step)))

    def index(self, o, k):
        if isinstance(o, T):
            if o.t[0] in ("list", "tuple") and isinstance(k, int) and -len(o.t) < k < len(o.t) - 1:
                return T(o.t[1:][k])
            if isinstance(k, slice):
                return T(("slice", o.t, term(k.start), term(k.stop), term(k.step)), o.kind)
            return self.intercept_item(o, k)
        if isinstance(o, Obj):
            return self.call(self.getattr(o, "__getitem__"), [k], {})
        if isinstance(k, slice):
            if any(isinstance(x, T) for x in (k.start, k.stop, k.step)):
                raise Unknown("slice at an unknown place")
            return o[k]
        if isinstance(k, T) and isinstance(o, (list, tuple)):
            for i, x in enumerate(o):
                if self.equal(k, i):
                    return x
            raise self.exc("IndexError")
        if isinstance(k, T) and isinstance(o, dict):
            if k in o:
                return o[k]
            for kk, x in o.items():
                if self.equal(k, kk):
                    return x
            raise self.exc("KeyError", k)
        if isinstance(o, dict):
            if k in o:
                return o[k]
            for kk, x in list(o.items()):
                if isinstance(kk, T) and self.equal(k, kk):
                    return x
            d = getattr(o, "default", None)
            if d is not None:
                o[k] = self.call(d, [], {})
                return o[k]
            raise self.exc("KeyError", k)
        try:
            return o[k]
        except IndexError:
            raise self.exc("IndexError") from None
        except (KeyError, TypeError):
            raise self.exc("TypeError") from None

    def intercept_item(self, o, k):
        h = self.intercept.get("item")
        r = h(self, o, k) if h else None
        return T(("sub", o.t, term(k)), "num" if o.kind == "vec" else None) if r is None else r

    # -- iteration ----------------------------------------------------------------------------------
    def items(self, v, lazy=False):
        if isinstance(v, T):
            return self.unknown_items(v) if lazy else list(self.unknown_items(v))
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Obj):
            f = v.cls.find("__iter__") if isinstance(v.cls, Class) else None
            if f is not None:
                return self.items(self.call_func(f, [], {}, me=v))
            f = v.cls.find("__getitem__") if isinstance(v.cls, Class) else None
            if f is not None:
                out = []
                while True:
                    try:
                        out.append(self.call_func(f, [len(out)], {}, me=v))
                    except Raised as r:
                        if self.is_exc(r.exc, Builtin("IndexError")):
                            return out
                        raise
                    if len(out) > 50:
                        raise Cut()
        if isinstance(v, (list, tuple, set, frozenset, str, range)):
            return v if lazy and isinstance(v, list) else list(v)
        if isinstance(v, Iter):
            return v
        raise self.exc("TypeError")

    def unknown_items(self, v):
        if v.t[0] in ("list", "tuple"):
            yield from (T(x) for x in v.t[1:])
            return
        h = self.intercept.get("len")
        n = h(self, v) if h else None
        i = 0
        while True:
            if n is not None:
                if i >= n:
                    return
            elif i >= self.max_iter or not self.decide(("more", v.t, i)):
                return
            yield self.intercept_item(v, i)
            i += 1

    def comp(self, e, gens, sc, out):
        if not gens:
            out.append((self.ev(e.key, sc), self.ev(e.value, sc)) if isinstance(e, ast.DictComp) else self.ev(e.elt, sc))
            return
        g = gens[0]
        for v in self.items(self.ev(g.iter, sc), lazy=True):
            self.store(g.target, v, sc)
            if all(self.truth(self.ev(c, sc)) for c in g.ifs):
                self.comp(e, gens[1:], sc, out)

    def inner(self, sc):
        s = Scope(sc, sc.module, sc.cls, sc.me, sc.func)
        return s

    def e_ListComp(self, e, sc):
        out = []
        self.comp(e, e.generators, self.inner(sc), out)
        return out

    def e_GeneratorExp(self, e, sc):
        return Lazy(self, e, sc)

    def e_SetComp(self, e, sc):
        return set(self.e_ListComp(e, sc))

    def e_DictComp(self, e, sc):
        return dict(self.e_ListComp(e, sc))

    def e_Yield(self, e, sc):
        s = sc
        while s.yields is None:
            s = s.parent
        if s.handler is not None:
            return s.handler(self, self.ev(e.value, sc) if e.value is not None else None)
        s.yields.append(self.ev(e.value, sc) if e.value is not None else None)
        return T(("sent",))

    def e_YieldFrom(self, e, sc):
        s = sc
        while s.yields is None:
            s = s.parent
        if s.handler is not None:
            g = self.ev(e.value, sc)
            if isinstance(g, Gen):
                return self.run_gen(g, s.handler)
            for x in self.items(g):
                s.handler(self, x)
            return None
        s.yields.extend(self.items(self.ev(e.value, sc)))
        return None

    def run_gen(self, g, handler):
        """Run a generator to its end; the handler gives what is sent to it, or raises into it."""
        return self.call_fn(g.fn, g.args, g.kw, handler)

    def e_Starred(self, e, sc):
        raise Unknown("starred")

    # -- attributes ------------------------------------------------------------------------------------
    def getattr(self, o, name, default=("none",)):
        if isinstance(o, Obj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            if isinstance(o.cls, Class):
                h = self.intercept.get(("attr", name))
                if h is not None:
                    r = h(self, o)
                    if r is not None:
                        return r
                f = o.cls.find(name)
                if f is not None and f.is_property:
                    return self.call_func(f, [], {}, me=o)
                if name in o.attrs:
                    return o.attrs[name]
                if f is not None:
                    if f.is_static:
                        return Fn(f, f.node, Scope(module=f.module), f.cls)
                    return Fn(f, f.node, Scope(module=f.module), f.cls, o.cls if f.is_classmethod else o, True)
                v = self.class_attr(o.cls, name)
                if v is not ABSENT:
                    return v
                if o.opened:
                    o.attrs[name] = T(("attr", term(o), name))
                    return o.attrs[name]
                if name in ("__init__", "__setattr__", "__post_init__"):
                    return Builtin("object." + name, o, True)
                f = o.cls.find("__getattr__")
                if f is not None:
                    return self.call_func(f, [name], {}, me=o)
            elif name in o.attrs:
                h = self.intercept.get(("attr", name))
                r = h(self, o) if h is not None else None
                return o.attrs[name] if r is None else r
            if default != ("none",):
                return default
            raise self.exc("AttributeError", name)
        if isinstance(o, Super):
            mro = o.me.cls.mro if isinstance(o.me, Obj) else o.me.mro
            i = next(i for i, c in enumerate(mro) if c is o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, Class) and name in c.methods:
                    f = c.methods[name]
                    if f.is_property:
                        return self.call_func(f, [], {}, me=o.me)
                    return Fn(f, f.node, Scope(module=f.module), c, o.me, not f.is_static)
            return Builtin("object." + name, o.me, True)
        if isinstance(o, Class):
            f = o.find(name)
            if f is not None:
                if f.is_classmethod:
                    return Fn(f, f.node, Scope(module=f.module), f.cls, o, True)
                return Fn(f, f.node, Scope(module=f.module), f.cls)
            if name in ("__name__", "__qualname__"):
                return o.name
            v = self.class_attr(o, name)
            if v is not ABSENT:
                return v
            if default != ("none",):
                return default
            raise self.exc("AttributeError", name)
        if isinstance(o, Module):
            return self.glob(o, name)
        if isinstance(o, Ext):
            return self.external(f"{o.name}.{name}")
        if isinstance(o, T):
            h = self.intercept.get("getattr")
            r = h(self, o, name) if h else None
            return T(("attr", o.t, name)) if r is None else r
        if isinstance(o, (str, list, dict, set, tuple, frozenset, Iter)):
            if name == "__class__":
                return Builtin(type(o).__name__)
            if hasattr(o, name):
                return Builtin(name, o, True)
        if isinstance(o, Fn) and name in ("__name__", "__qualname__", "__doc__"):
            return o.func.name if o.func else "<lambda>"
        if num(o) and name in ("is_integer", "real", "__class__"):
            return Builtin(name, o, True)
        if default != ("none",):
            return default
        raise self.exc("AttributeError", name)

    def class_attr(self, c, name):
        for k in c.mro:
            if isinstance(k, Class) and name in k.attrs:
                key = (k.qual, name)
                if key not in self.globals:
                    sc = Scope(module=k.module)
                    if any("Enum" in (x if isinstance(x, str) else x.name) or "IntFlag" in (x if isinstance(x, str) else x.name) for x in k.mro):
                        self.globals[key] = Obj(k, {"name": name, "value": self.ev(k.attrs[name], sc)}, f"{k.name}.{name}")
                    else:
                        names = {n: v for n, v in k.attrs.items() if n != name}
                        for x in ast.walk(k.attrs[name]):
                            if isinstance(x, ast.Name) and x.id in names:
                                sc[x.id] = self.class_attr(k, x.id)
                        v = self.ev(k.attrs[name], sc)
                        if isinstance(v, T) and v.t[0] == "call" and v.t[1] == ("ext", "dataclasses.field"):
                            return ABSENT
                        self.globals[key] = v
                return self.globals[key]
        return ABSENT

    def dataclass_fields(self, c):
        """Ordered field names of a dataclass, None when it is not one."""
        if not isinstance(c, Class):
            return None
        out, is_dc = [], False
        for k in reversed(c.mro_classes):
            d = [x for x in k.node.decorator_list if "dataclass" in ast.unparse(x)]
            nt = any(str(b).split(".")[-1] == "NamedTuple" for b in k.bases if isinstance(b, str))
            if d or nt:
                is_dc = True
                for n, a in k.annots.items():
                    if "ClassVar" not in ast.unparse(a) and n not in out:
                        out.append(n)
        return out if is_dc else None

    def frozen(self, c):
        return any("frozen=True" in ast.unparse(d) for k in c.mro_classes for d in k.node.decorator_list)

    # -- calls ---------------------------------------------------------------------------------------------
    def e_Call(self, e, sc):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in sc:
            if e.args:
                return Super(self.ev(e.args[0], sc), self.ev(e.args[1], sc))
            s = sc
            while s.func is None or s.cls is None:
                s = s.parent
            return Super(s.cls, s.me)
        f = self.ev(e.func, sc)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, sc)
                if isinstance(v, T):
                    args.append(T(("star", v.t)))
                else:
                    args += self.items(v)
            else:
                args.append(self.ev(a, sc))
        for k in e.keywords:
            v = self.ev(k.value, sc)
            if k.arg is None:
                if isinstance(v, T):
                    kw["**"] = v
                else:
                    kw.update(v)
            else:
                kw[k.arg] = v
        self.at = f"{sc.module.rel}:{e.lineno}"
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if callable(f) and not isinstance(f, (Fn, Ext, Builtin, Class)):
            return f(self, args, kw)     # an intercept
        if isinstance(f, Fn):
            if f.func is not None:
                h = self.intercept.get(f.func.qual)
                if h is not None:
                    r = h(self, self.positional(f.func, ([f.me] if f.bound else []) + args, kw), kw)
                    if r is not NotImplemented:
                        return r
            return self.call_fn(f, args, kw)
        if isinstance(f, Class):
            return self.construct(f, args, kw)
        if isinstance(f, Builtin):
            return self.builtin(f, args, kw)
        if isinstance(f, Ext):
            return self.ext_call(f, args, kw)
        if isinstance(f, T):
            return self.opaque(f.t, args, kw)
        if isinstance(f, Obj):
            return self.call(self.getattr(f, "__call__"), args, kw)
        raise self.exc("TypeError")

    @staticmethod
    def positional(func, args, kw):
        """The arguments an intercept sees: those given by name also at their places."""
        names = [x.arg for x in (*func.node.args.posonlyargs, *func.node.args.args)]
        args = list(args)
        while len(args) < len(names) and names[len(args)] in kw:
            args.append(kw[names[len(args)]])
        return args

    def opaque(self, ft, args, kw, kind=None, effect=True):
        t = ("call", ft, tuple(term(a) for a in args), tuple(sorted((k, term(v)) for k, v in kw.items())))
        h = self.intercept.get("call")
        if h is not None:
            r = h(self, ft, args, kw)
            if r is not None:
                return r
        if effect:
            self.effects.append(t)
        return T(t, kind)

    def call_func(self, func, args, kw, me=None):
        h = self.intercept.get(func.qual)
        if h is not None:
            r = h(self, self.positional(func, ([me] if me is not None and not func.is_static else []) + args, kw), kw)
            if r is not NotImplemented:
                return r
        return self.call_fn(Fn(func, func.node, Scope(module=func.module), func.cls, me, me is not None and not func.is_static), args, kw)

    def call_fn(self, f, args, kw, handler=None):
        node = f.node
        if handler is None and self.intercept.get("generators") and f.func is not None and f.func.is_generator and f.func.node is node:
            g = Gen(f, list(args), dict(kw))
            h = self.intercept.get("process")       # what the package's `process` decorator does with it
            return h(self, g) if h is not None and any(d.split(".")[-1] == "process" for d in f.func.decorators) else g
        if len(self.stack) > 60:
            raise Unknown("recursion")
        if f.bound:
            args = [f.me, *args]
        sc = Scope(f.scope, f.scope.module, f.cls or f.scope.cls, f.me if f.bound else f.scope.me, f.func or f.scope.func)
        a = node.args
        pos = [x.arg for x in (*a.posonlyargs, *a.args)]
        if f.func is not None:
            self.used.add(f.func.qual)
        for n, v in zip(pos, args):
            sc[n] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise self.exc("TypeError")
            sc[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            sc[a.vararg.arg] = ()
        extra = {}
        for k, v in kw.items():
            if k in pos or any(x.arg == k for x in a.kwonlyargs):
                if k in sc and k in pos[:len(args)]:
                    raise self.exc("TypeError")
                sc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise self.exc("TypeError")
        if a.kwarg is not None:
            sc[a.kwarg.arg] = extra
        dsc = f.scope
        for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if n not in sc:
                sc[n] = self.ev(d, dsc)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in sc and d is not None:
                sc[x.arg] = self.ev(d, dsc)
        for n in (*pos, *(x.arg for x in a.kwonlyargs)):
            if n not in sc:
                raise self.exc("TypeError")
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, sc)
        gen = f.func.is_generator if f.func is not None else False
        if gen:
            sc.yields = []
            sc.handler = handler
        self.stack.append(f)
        try:
            self.body(node.body, sc)
        except _Return as r:
            return sc.yields if gen and handler is None else r.v
        finally:
            self.stack.pop()
        return sc.yields if gen and handler is None else None

    def construct(self, c, args, kw):
        h = self.intercept.get(c.qual)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        o = Obj(c)
        f = c.find("__init__")
        if f is not None:
            self.call_func(f, args, kw, me=o)
            return o
        d = self.dataclass_fields(c)
        if d is not None:
            o.attrs["//init"] = True
            for n, v in (*zip(d, args), *kw.items()):
                if n not in d:
                    raise self.exc("TypeError")
                o.attrs[n] = v
            for n in d:
                if n in o.attrs:
                    continue
                v = self.field_default(c, n)
                if v is ABSENT:
                    raise self.exc("TypeError")
                o.attrs[n] = v
            f = c.find("__post_init__")
            if f is not None:
                self.call_func(f, [], {}, me=o)
            del o.attrs["//init"]
            return o
        o.attrs["args"] = tuple(args)
        return o

    def field_default(self, c, n):
        for k in c.mro_classes:
            if n in k.attrs:
                e = k.attrs[n]
                if isinstance(e, ast.Call) and ast.unparse(e.func).endswith("field"):
                    for w in e.keywords:
                        if w.arg == "default":
                            return self.ev(w.value, Scope(module=k.module))
                        if w.arg == "default_factory":
                            return self.call(self.ev(w.value, Scope(module=k.module)), [], {})
                    return ABSENT
                return self.ev(e, Scope(module=k.module))
        return ABSENT

    PURE_EXT = ("math.", "copy.", "typing.", "operator.", "itertools.", "functools.", "dataclasses.")

    def ext_call(self, f, args, kw):
        return self.named(self._ext_call(f, args, kw))

    def _ext_call(self, f, args, kw):
        n = f.name
        h = self.intercept.get(n)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        leaf = n.split(".")[-1]
        if n == "typing.cast":
            return args[1]
        if n in ("copy.copy", "copy.deepcopy"):
            return self.copy(args[0], leaf == "deepcopy", {})
        if n == "collections.defaultdict":
            d = Dflt(args[1] if len(args) > 1 else {})
            d.default = args[0] if args else None
            return d
        if n == "collections.OrderedDict":
            return dict(*[self.plain(a) for a in args])
        if n in ("collections.deque",):
            return list(self.items(args[0])) if args else []
        if n == "math.pow":
            return self.bin(ast.Pow(), args[0], args[1])
        if n == "math.hypot":
            tot = 0
            for a in args:
                tot = self.bin(ast.Add(), tot, self.bin(ast.Pow(), a, 2))
            return self.ext_call(Ext("math.sqrt"), [tot], {})
        if n == "math.dist":
            tot = 0
            for a, b in zip(self.items(args[0]), self.items(args[1])):
                tot = self.bin(ast.Add(), tot, self.bin(ast.Pow(), self.bin(ast.Sub(), a, b), 2))
            return self.ext_call(Ext("math.sqrt"), [tot], {})
        if n in ("math.fsum",):
            return self.builtin(Builtin("sum"), args, kw)
        if n in ("math.sqrt", "math.fabs") and isinstance(args[0], T):
            d = self.diff(args[0], 0)
            if d is not None:
                args = [d]
        if n == "math.fabs":
            return self.builtin(Builtin("abs"), args, kw)
        if n == "math.sqrt" and num(args[0]):
            x = Fraction(args[0])
            if x < 0:
                raise self.exc("ValueError")
            r, s = isqrt(x.numerator), isqrt(x.denominator)
            if r * r == x.numerator and s * s == x.denominator:
                return Fraction(r, s)
        if n in ("math.sin", "math.tan", "math.asin", "math.atan", "math.radians", "math.degrees", "math.sinh") and num(args[0]) and args[0] == 0:
            return 0
        if n == "math.cos" and num(args[0]) and args[0] == 0:
            return 1
        if n in ("math.floor", "math.ceil", "math.trunc") and num(args[0]):
            import math
            return getattr(math, leaf)(args[0])
        if n == "math.isclose":
            return self.opaque_cond(("isclose", *(term(a) for a in args), *((k, term(v)) for k, v in sorted(kw.items()))))
        if n == "itertools.chain":
            return [x for a in args for x in self.items(a)]
        if n == "itertools.chain.from_iterable":
            return [x for a in self.items(args[0]) for x in self.items(a)]
        if n == "itertools.pairwise":
            xs = list(self.items(args[0]))
            return list(zip(xs, xs[1:]))
        if n == "itertools.accumulate" and len(args) == 1 and not kw:
            out = []
            for x in self.items(args[0]):
                out.append(self.bin(ast.Add(), out[-1], x) if out else x)
            return out
        if n == "itertools.count":
            st, by = (list(args) + [kw.get("start", 0)] * (not args) + [kw.get("step", 1)])[:2]
            r = LazyMap(lambda: (self.bin(ast.Add(), st, self.bin(ast.Mult(), by, i)) for i in itertools.count()))
            r.endless = True
            return r
        if n == "itertools.repeat" and len(args) == 2 and num(args[1]):
            return [args[0]] * int(args[1])
        if n == "itertools.islice" and all(num(a) or a is None for a in args[1:]):
            return list(itertools.islice(iter(self.items(args[0], lazy=True)), *(a if a is None else int(a) for a in args[1:])))
        if n == "itertools.takewhile":
            return list(itertools.takewhile(lambda x: self.truth(self.call(args[0], [x], {})), self.items(args[1], lazy=True)))
        if n in ("itertools.product", "itertools.permutations", "itertools.combinations") and not kw:
            if n == "itertools.product":
                return list(itertools.product(*(list(self.items(a)) for a in args)))
            return list(getattr(itertools, leaf)(list(self.items(args[0])), *(int(a) for a in args[1:])))
        if n == "functools.reduce":
            xs = list(self.items(args[1]))
            acc = args[2] if len(args) > 2 else xs.pop(0)
            for x in xs:
                acc = self.call(args[0], [acc, x], {})
            return acc
        if n == "dataclasses.is_dataclass":
            if isinstance(args[0], T):
                return False if args[0].kind else self.opaque_cond(("is_dataclass", args[0].t))
            return self.dataclass_fields(args[0].cls if isinstance(args[0], Obj) else args[0]) is not None
        if n == "dataclasses.fields" and not isinstance(args[0], T):
            c = args[0].cls if isinstance(args[0], Obj) else args[0]
            return tuple(Obj("Field", {"name": x}) for x in self.dataclass_fields(c))
        if n == "dataclasses.asdict" and isinstance(args[0], Obj):
            return {x: args[0].attrs[x] for x in self.dataclass_fields(args[0].cls)}
        if n == "dataclasses.replace" and isinstance(args[0], Obj):
            o = Obj(args[0].cls, {**args[0].attrs, **kw})
            return o
        if n.startswith("operator.") and leaf in ("itemgetter", "attrgetter"):
            if leaf == "itemgetter":
                return lambda it, a, k: it.index(a[0], args[0]) if len(args) == 1 else tuple(it.index(a[0], i) for i in args)
            return lambda it, a, k: it.getattr(a[0], args[0])
        if n.startswith("operator."):
            ops = {"mul": ast.Mult, "add": ast.Add, "sub": ast.Sub, "truediv": ast.Div}
            if leaf in ops:
                return self.bin(ops[leaf](), *args)
        if leaf[:1].isupper() or leaf.endswith(("Error", "Exception", "Warning")):
            if leaf.endswith(("Error", "Exception", "Warning")):
                return Obj(leaf, {"args": tuple(args)})
        pure = n.startswith(self.PURE_EXT)
        return self.opaque(("ext", n), args, kw, "num" if n.startswith("math.") else None, effect=not pure)

    def opaque_cond(self, key):
        return self.decide(key)

    def plain(self, v):
        return [tuple(self.items(x)) if not isinstance(x, tuple) else x for x in self.items(v)] if not isinstance(v, dict) else v

    def copy(self, v, deep, memo):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Obj):
            n = "__deepcopy__" if deep else "__copy__"
            f = v.cls.find(n) if isinstance(v.cls, Class) else None
            if f is not None:
                return self.call_func(f, [{}] if deep else [], {}, me=v)
            o = memo[id(v)] = Obj(v.cls, {}, v.label + "'", v.opened)
            o.attrs = {k: self.copy(x, deep, memo) if deep else x for k, x in v.attrs.items()}
            return o
        if isinstance(v, list):
            o = memo[id(v)] = []
            o += [self.copy(x, deep, memo) if deep else x for x in v]
            return o
        if isinstance(v, dict):
            o = memo[id(v)] = type(v)()
            if isinstance(v, Dflt):
                o.default = v.default
            o.update({k: self.copy(x, deep, memo) if deep else x for k, x in v.items()})
            return o
        if isinstance(v, set):
            return set(v)
        if isinstance(v, tuple) and deep:
            return tuple(self.copy(x, deep, memo) for x in v)
        if isinstance(v, T) and v.kind is None:
            return T(("copy", v.t) if v.t[0] != "copy" else v.t)
        return v

    def isinst(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinst(v, x) for x in c)
        if c is None:
            return v is None
        name = c.name.split(".")[-1] if isinstance(c, (Ext, Builtin)) else None
        if isinstance(v, T):
            h = self.intercept.get("isinstance")
            r = h(self, v, c) if h else None
            if r is not None:
                return r
            if v.kind == "num":
                return name in ("float", "int", "Number", "Real", "object")
            if v.kind == "str":
                return name in ("str", "object")
            return self.decide(("isinst", v.t, term(c)))
        if isinstance(v, Obj):
            if isinstance(c, Class):
                return isinstance(v.cls, Class) and any(x is c for x in v.cls.mro)
            if isinstance(v.cls, Class):
                return any((x if isinstance(x, str) else x.name).split(".")[-1] == name for x in v.cls.mro) or name == "object"
            return str(v.cls).split(".")[-1] == name or self.is_exc(v, c)
        py = {"int": int, "str": str, "list": list, "dict": dict, "tuple": tuple, "set": set, "bool": bool, "frozenset": frozenset,
              "float": Fraction, "Fraction": Fraction}
        if name in py:
            return isinstance(v, py[name])
        if name in ("Iterable", "Collection", "Sequence", "Mapping", "Sized", "Container", "Set", "MutableMapping"):
            return isinstance(v, {"Mapping": dict, "MutableMapping": dict, "Sequence": (list, tuple, str), "Set": (set, frozenset)}.get(
                name, (list, tuple, dict, set, str, frozenset)))
        if name in ("Callable",):
            return isinstance(v, (Fn, Builtin, Class))
        if name in ("Number", "Real"):
            return num(v)
        if name == "type":
            return isinstance(v, Class)
        return name == "object"

    def sort(self, xs, key=None, reverse=False):
        ks = [(self.call(key, [x], {}) if key is not None else x, x) for x in xs]
        if reverse:
            ks.reverse()
        out = []
        for k, x in ks:
            i = len(out)
            while i > 0 and self.less(k, out[i - 1][0]):
                i -= 1
            out.insert(i, (k, x))
        r = [x for _, x in out]
        if reverse:
            r.reverse()
        return r

    def builtin(self, f, args, kw):
        n, o = f.name, f.obj
        if f.has:
            return self.method(n, o, args, kw)
        if n == "len":
            v = args[0]
            if isinstance(v, T):
                h = self.intercept.get("len")
                r = h(self, v) if h else None
                return T(("call", ("builtin", "len"), (v.t,), ()), "num") if r is None else r
            if isinstance(v, Obj):
                return self.call(self.getattr(v, "__len__"), [], {})
            return len(v)
        if n in ("isinstance", "issubclass"):
            if n == "issubclass":
                k = args[0].name if isinstance(args[0], (Ext, Builtin)) else args[0]
                if isinstance(k, (Class, str)):
                    return self.isinst(Obj(k), args[1])
                return self.decide(("subclass", term(k), term(args[1])))
            return self.isinst(*args)
        if n in ("list", "tuple", "set", "frozenset"):
            xs = list(self.items(args[0])) if args else []
            return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[n](xs)
        if n == "dict":
            d = {}
            if args:
                d.update(self.plain(args[0]))
            d.update(kw)
            return d
        if n == "zip":
            return list(zip(*self.evenly(args)))
        if n == "enumerate":
            st = args[1] if len(args) > 1 else kw.get("start", 0)
            return LazyMap(lambda: ((i + st, x) for i, x in enumerate(self.items(args[0], lazy=True))))
        if n == "range":
            if any(isinstance(a, T) for a in args):
                if len(args) == 1:
                    return T(("range", args[0].t))
                raise Unknown("range of unknown numbers")
            return range(*(int(a) for a in args))
        if n in ("reversed",):
            return list(self.items(args[0]))[::-1]
        if n == "map":
            xs = zip(*self.evenly(args[1:]))
            return [self.call(args[0], list(x), {}) for x in xs]
        if n == "filter":
            return [x for x in self.items(args[1]) if self.truth(x if args[0] is None else self.call(args[0], [x], {}))]
        if n == "sorted":
            return self.sort(list(self.items(args[0])), kw.get("key"), bool(kw.get("reverse", False)))
        if n in ("min", "max"):
            xs = list(self.items(args[0])) if len(args) == 1 else args
            if not xs:
                if "default" in kw:
                    return kw["default"]
                raise self.exc("ValueError")
            key = kw.get("key")
            if key is None and any(isinstance(x, T) for x in xs) and not self.intercept.get("forkminmax"):
                consts = [x for x in xs if num(x)]
                ts = sorted({x.t for x in xs if isinstance(x, T)}, key=repr)
                if consts:
                    ts.append(("const", (min if n == "min" else max)(consts)))
                return T(("call", ("builtin", n), tuple(ts), ()), "num") if len(ts) > 1 else T(ts[0], "num")
            best, bk = xs[0], self.call(key, [xs[0]], {}) if key is not None else xs[0]
            for x in xs[1:]:
                k = self.call(key, [x], {}) if key is not None else x
                if self.less(k, bk) if n == "min" else self.less(bk, k):
                    best, bk = x, k
            return best
        if n == "sum":
            acc = args[1] if len(args) > 1 else kw.get("start", 0)
            for x in self.items(args[0]):
                acc = self.bin(ast.Add(), acc, x)
            return acc
        if n in ("any", "all"):
            for x in self.items(args[0], lazy=True):
                if self.truth(x) == (n == "any"):
                    return n == "any"
            return n == "all"
        if n == "abs":
            v = args[0]
            if num(v):
                return abs(v)
            if isinstance(v, T) and v.t[0] == "neg":
                v = T(v.t[1], "num")
            return T(("call", ("builtin", "abs"), (term(v),), ()), "num")
        if n in ("float", "int", "bool", "str", "round", "repr", "complex"):
            if not args:
                return {"float": 0, "int": 0, "bool": False, "str": ""}[n]
            v = args[0]
            if n == "bool":
                return self.truth(v)
            if n == "float":
                if isinstance(v, T):
                    return T(v.t, "num")
                if isinstance(v, str):
                    return T(("ext", f"math.{v.strip('+-')}"), "num") if v.strip("+-") in ("inf", "nan") else Fraction(v)
                return Fraction(v)
            if n == "int" and num(v):
                return int(v)
            if n == "round" and num(v):
                return round(v, *args[1:])
            if n == "str" and isinstance(v, (str, int)):
                return str(v)
            if isinstance(v, Obj) and n in ("str", "repr") and isinstance(v.cls, Class):
                for d in ("__str__", "__repr__") if n == "str" else ("__repr__",):
                    g = v.cls.find(d)
                    if g is not None:
                        return self.call_func(g, [], {}, me=v)
            return T(("call", ("builtin", n), tuple(term(a) for a in args), ()), "str" if n in ("str", "repr") else "num")
        if n == "hash":
            if isinstance(args[0], Obj) and isinstance(args[0].cls, Class) and args[0].cls.find("__hash__"):
                return self.call_func(args[0].cls.find("__hash__"), [], {}, me=args[0])
            return T(("call", ("builtin", "hash"), (term(args[0]),), ()), "num")
        if n == "getattr":
            if not isinstance(args[1], str):
                return T(("getattr", term(args[0]), term(args[1])))
            if isinstance(args[0], T) and len(args) > 2:
                h = self.intercept.get("hasattr")
                r = h(self, args[0], args[1]) if h else None
                if r is None:
                    r = self.decide(("hasattr", args[0].t, args[1]))
                return self.getattr(args[0], args[1]) if r else args[2]
            return self.getattr(args[0], args[1], *args[2:])
        if n == "hasattr":
            if isinstance(args[0], T):
                h = self.intercept.get("hasattr")
                r = h(self, args[0], args[1]) if h else None
                return self.decide(("hasattr", args[0].t, term(args[1]) if not isinstance(args[1], str) else args[1])) if r is None else r
            try:
                self.getattr(args[0], args[1])
                return True
            except Raised as r:
                if self.is_exc(r.exc, Builtin("AttributeError")):
                    return False
                raise
        if n == "setattr":
            return self.setattr(*args)
        if n == "type" and len(args) == 1:
            return args[0].cls if isinstance(args[0], Obj) else T(("type", args[0].t)) if isinstance(args[0], T) else Builtin("type" if isinstance(args[0], Class) else type(args[0]).__name__)
        if n == "callable":
            return isinstance(args[0], (Fn, Class, Builtin)) if not isinstance(args[0], T) else self.decide(("callable", args[0].t))
        if n == "iter":
            return Iter(self.items(args[0]))
        if n == "next":
            v = args[0] if isinstance(args[0], Iter) else Iter(self.items(args[0], lazy=True))
            try:
                return next(v.it)
            except StopIteration:
                if len(args) > 1:
                    return args[1]
                raise self.exc("StopIteration") from None
        if n == "id":
            return T(("id", term(args[0])), "num")
        if n == "print":
            return None
        if n == "divmod":
            return (self.bin(ast.FloorDiv(), *args), self.bin(ast.Mod(), *args))
        if n == "pow":
            return self.bin(ast.Pow(), args[0], args[1])
        if n == "NotImplemented":
            return ("notimpl",)
        if n in ("object",):
            return Obj("object")
        b = getattr(builtins, n, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return Obj(n, {"args": tuple(args)})
        if n == "slice":
            return slice(*args)
        return self.opaque(("builtin", n), args, kw)

    def evenly(self, args):
        """Materialised iterables; unknown ones take the length of the known ones."""
        known = [a for a in args if not isinstance(a, T)]
        endless = [a for a in known if getattr(a, "endless", False)]
        known = [a for a in known if a not in endless]
        mats = {id(a): list(self.items(a)) for a in known}
        if endless and known:
            n = min(len(m) for m in mats.values())
            mats.update({id(a): list(itertools.islice(iter(a), n)) for a in endless})
            known += endless
        if known and any(isinstance(a, T) for a in args) and not self.intercept.get("len"):
            n = min(len(mats[id(a)]) for a in known)
            return [mats[id(a)] if not isinstance(a, T) else [self.intercept_item(a, i) for i in range(n)] for a in args]
        return [mats[id(a)] if not isinstance(a, T) else list(self.items(a)) for a in args]

    def method(self, n, o, args, kw):
        if n.startswith("object."):
            n = n[7:]
            if n == "__setattr__":
                return self.setattr(o, args[0], args[1], raw=True)
            if n == "__getattribute__":
                return self.getattr(o, args[0])
            if n == "__delattr__":
                o.attrs.pop(args[0], None)
                return None
            if n == "__hash__":
                return T(("id", term(o)), "num")
            if n == "__eq__":
                return o is args[0]
            return None
        if n == "is_integer" and num(o):
            return Fraction(o).denominator == 1
        if isinstance(o, list):
            if n == "append":
                return o.append(args[0])
            if n in ("extend", "extendleft"):
                return o.extend(self.items(args[0]))
            if n == "sort":
                o[:] = self.sort(o, kw.get("key"), bool(kw.get("reverse", False)))
                return None
            if n in ("index", "remove", "count"):
                hits = [i for i, x in enumerate(o) if x is args[0] or self.equal(x, args[0])]
                if n == "count":
                    return len(hits)
                if not hits:
                    raise self.exc("ValueError")
                return hits[0] if n == "index" else o.pop(hits[0]) and None
            if n == "pop":
                if not o:
                    raise self.exc("IndexError")
                return o.pop(*(int(a) for a in args))
            if n == "popleft":
                return o.pop(0)
            if n == "appendleft":
                return o.insert(0, args[0])
            if n in ("insert", "reverse", "clear", "copy"):
                return getattr(o, n)(*args)
        if isinstance(o, dict):
            if n == "items":
                return [(k, v) for k, v in o.items()]
            if n in ("keys", "values"):
                return list(getattr(o, n)())
            if n in ("get", "pop", "setdefault"):
                k = args[0]
                if k not in o and (isinstance(k, (T, Obj)) or any(isinstance(x, T) for x in o)):
                    for kk in list(o):
                        if self.equal(kk, k):
                            k = kk
                            break
                if k in o:
                    return o.pop(k) if n == "pop" else o[k]
                if n == "setdefault":
                    o[k] = args[1] if len(args) > 1 else None
                    return o[k]
                if len(args) > 1:
                    return args[1]
                if n == "pop":
                    raise self.exc("KeyError", k)
                return None
            if n == "update":
                for a in args:
                    o.update(self.plain(a))
                o.update(kw)
                return None
            if n in ("copy", "clear", "popitem"):
                return getattr(o, n)(*args)
        if isinstance(o, (set, frozenset)):
            if n in ("add", "discard", "remove"):
                try:
                    return getattr(o, n)(args[0])
                except KeyError:
                    raise self.exc("KeyError") from None
            return getattr(o, n)(*(set(self.items(a)) for a in args))
        if isinstance(o, tuple):
            if n in ("index", "count"):
                return self.method(n, list(o), args, kw)
        if isinstance(o, str):
            if n == "join":
                xs = list(self.items(args[0]))
                if all(isinstance(x, str) for x in xs):
                    return o.join(xs)
                return T(("join", term(o), *(term(x) for x in xs)), "str")
            if n == "format":
                parts, at = [], 0
                for lit, field, spec, conv in string.Formatter().parse(o):
                    parts.append(lit)
                    if field is not None:
                        k = field if field else str(at)
                        at += not field
                        if k.isdigit() and int(k) < len(args) or k in kw:
                            parts.append((args[int(k)] if k.isdigit() else kw[k], bool(spec or conv not in (None, "s"))))
                        else:
                            break
                else:
                    return self.text(parts)
            if all(isinstance(a, (str, int)) for a in args) and not kw:
                return getattr(o, n)(*args)
            return T(("call", ("attr", term(o), n), tuple(term(a) for a in args), ()), "str")
        raise Unknown(f"{type(o).__name__}.{n}")


class _Absent:
    def __repr__(self):
        return "ABSENT"


ABSENT = _Absent()


class Dflt(dict):
    default = None


class Iter:
    def __init__(self, xs):
        self.it = iter(xs)

    def __iter__(self):
        return self.it


class LazyMap(Iter):
    def __init__(self, make):
        self.make = make

    @property
    def it(self):
        if not hasattr(self, "_it"):
            self._it = iter(self.make())
        return self._it

    def __iter__(self):
        return self.it


class Lazy(Iter):
    """A generator expression: evaluated as it is consumed."""

    def __init__(self, interp, e, sc):
        g = e.generators[0]
        first = interp.ev(g.iter, sc)
        self.it = self._run(interp, e, e.generators, interp.inner(sc), first)

    def _run(self, it, e, gens, sc, first=None):
        if not gens:
            yield it.ev(e.elt, sc)
            return
        g = gens[0]
        src = first if first is not None else it.ev(g.iter, sc)
        for v in it.items(src, lazy=True):
            it.store(g.target, v, sc)
            if all(it.truth(it.ev(c, sc)) for c in g.ifs):
                yield from self._run(it, e, gens[1:], sc)
