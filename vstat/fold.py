"""Constant propagation over a module's tables and the functions that look things up in them.

Numbers are exact (decimals are taken as written), `Sym` values are unknown numbers carried as coefficient * symbol.
Whatever is not a constant raises Unknown: the analysis has no verdict on it.
"""
from __future__ import annotations

import ast
from dataclasses import dataclass
from fractions import Fraction


class Unknown(Exception):
    pass


class Raised(Exception):
    def __init__(self, name, node=None):
        self.name, self.node = name, node


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


@dataclass(frozen=True)
class Sym:
    name: str
    k: Fraction = Fraction(1)

    def scale(self, f):
        return Sym(self.name, self.k * f)


def num(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


HANDLES = {"KeyError": {"KeyError", "LookupError", "Exception"}, "IndexError": {"IndexError", "LookupError", "Exception"},
           "ValueError": {"ValueError", "Exception"}, "TypeError": {"TypeError", "Exception"},
           "AttributeError": {"AttributeError", "Exception"}, "ZeroDivisionError": {"ZeroDivisionError", "ArithmeticError", "Exception"}}


class Fold:
    def __init__(self, prog, module):
        self.prog, self.m = prog, module
        self.steps = 0
        self.g: dict = {}
        self.funcs = module.functions

    def load(self):
        """Fold the module's top level; names that cannot be folded stay out."""
        for s in self.m.tree.body:
            if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
                continue
            try:
                self.stmt(s, self.g)
            except Unknown:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.g.pop(x.id, None)
        return self

    def call(self, f, args, kw=None):
        """-> value; raises Raised."""
        a = f.node.args
        names = [x.arg for x in (*a.posonlyargs, *a.args)]
        env = dict(zip(names, args))
        env.update(kw or {})
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.ev(d, {})
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ev(d, {})
        try:
            self.body(f.node.body, env)
        except _Return as r:
            return r.v
        return None

    # -- statements --------------------------------------------------------------------------
    def body(self, b, env):
        for s in b:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 2_000_000:
            raise Unknown("too long")
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.store(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            t = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s)
            self.store(s.target, self.bin(s.op, self.ev(t, env), self.ev(s.value, env)), env)
        elif isinstance(s, ast.Return):
            raise _Return(self.ev(s.value, env) if s.value is not None else None)
        elif isinstance(s, ast.If):
            self.body(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
        elif isinstance(s, ast.For):
            try:
                for v in list(self.ev(s.iter, env)):
                    self.store(s.target, v, env)
                    try:
                        self.body(s.body, env)
                    except _Continue:
                        continue
                else:
                    self.body(s.orelse, env)
            except _Break:
                pass
        elif isinstance(s, ast.While):
            try:
                while self.truth(self.ev(s.test, env)):
                    try:
                        self.body(s.body, env)
                    except _Continue:
                        continue
            except _Break:
                pass
        elif isinstance(s, ast.Break):
            raise _Break()
        elif isinstance(s, ast.Continue):
            raise _Continue()
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global)):
            pass
        elif isinstance(s, ast.Raise):
            if s.exc is None:
                raise env["//handled"] if "//handled" in env else Unknown("raise outside a handler")
            e = s.exc
            while isinstance(e, ast.Call):
                if isinstance(e.func, ast.Attribute) and e.func.attr == "with_traceback":
                    e = e.func.value
                elif isinstance(e.func, ast.Name) and e.func.id in self.funcs:
                    break
                else:
                    e = e.func
            if isinstance(e, ast.Call) or isinstance(e, ast.Name) and e.id in env:
                v = self.ev(e, env)
                raise v if isinstance(v, Raised) else Unknown(ast.unparse(s)[:80])
            raise Raised(e.id if isinstance(e, ast.Name) else getattr(e, "attr", "?"), s)
        elif isinstance(s, ast.Try):
            try:
                try:
                    self.body(s.body, env)
                except Raised as r:
                    for h in s.handlers:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        if any(t is None or getattr(t, "id", getattr(t, "attr", "")) in HANDLES.get(r.name, {r.name, "Exception", "ValueError"})
                               for t in ts):
                            if h.name:
                                env[h.name] = r
                            env["//handled"] = r
                            self.body(h.body, env)
                            break
                    else:
                        raise
                else:
                    self.body(s.orelse, env)
            finally:
                self.body(s.finalbody, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Subscript):
                    raise Unknown(ast.unparse(s))
                del self.ev(t.value, env)[self.ev(t.slice, env)]
        else:
            raise Unknown(ast.unparse(s)[:80])

    def store(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(v)
            for x, y in zip(t.elts, vs):
                self.store(x, y, env)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env)[self.ev(t.slice, env)] = v
        else:
            raise Unknown(ast.unparse(t))

    # -- expressions -----------------------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, Sym):
            raise Unknown("a branch on the value")
        return bool(v)

    def bin(self, op, a, b):
        if isinstance(op, ast.Mult):
            if isinstance(a, Sym) and num(b):
                return a.scale(Fraction(b))
            if isinstance(b, Sym) and num(a):
                return b.scale(Fraction(a))
        if isinstance(op, ast.Div) and num(b) and (num(a) or isinstance(a, Sym)):
            if b == 0:
                raise Raised("ZeroDivisionError")
            return a.scale(1 / Fraction(b)) if isinstance(a, Sym) else Fraction(a) / Fraction(b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Unknown("arithmetic on the value")
        try:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.FloorDiv):
                return a // b
            if isinstance(op, ast.Mod) and num(a):
                return a % b
            if isinstance(op, ast.Pow) and num(a) and isinstance(b, int):
                return Fraction(a) ** b
            if isinstance(op, ast.BitOr):
                return a | b
        except TypeError:
            raise Raised("TypeError") from None
        raise Unknown("operator")

    def ev(self, e, env):
        self.steps += 1
        if isinstance(e, ast.Constant):
            return Fraction(repr(e.value)) if isinstance(e.value, float) else e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.g:
                return self.g[e.id]
            imp = self.m.imports.get(e.id)
            if imp is not None and imp[1] is not None:
                rel = imp[0]
                for n, m in self.prog.modules.items():
                    if rel.endswith(n) and n and m is not self.m:
                        g = Fold(self.prog, m).load().g
                        if imp[1] in g:
                            return g[imp[1]]
            if e.id in self.funcs:
                return self.funcs[e.id]
            raise Unknown(e.id)
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    out.update(self.ev(v, env))
                else:
                    out[self.ev(k, env)] = self.ev(v, env)
            return out
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += list(self.ev(x.value, env))
                else:
                    out.append(self.ev(x, env))
            return out if isinstance(e, ast.List) else tuple(out) if isinstance(e, ast.Tuple) else set(out)
        if isinstance(e, ast.BinOp):
            return self.bin(e.op, self.ev(e.left, env), self.ev(e.right, env))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(e.op, ast.USub):
                return v.scale(Fraction(-1)) if isinstance(v, Sym) else -v
            return v
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                v = self.ev(x, env)
                if self.truth(v) != isinstance(e.op, ast.And):
                    return v
            return v
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
        if isinstance(e, ast.Compare):
            a = self.ev(e.left, env)
            for op, r in zip(e.ops, e.comparators):
                b = self.ev(r, env)
                if isinstance(a, Sym) or isinstance(b, Sym):
                    raise Unknown("a comparison of the value")
                ok = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b,
                      ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                      ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
                if not ok:
                    return False
                a = b
            return True
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value, env)
            if isinstance(e.slice, ast.Slice):
                lo, hi, st = (self.ev(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step))
                return o[lo:hi:st]
            k = self.ev(e.slice, env)
            try:
                return o[k]
            except KeyError:
                raise Raised("KeyError", e) from None
            except IndexError:
                raise Raised("IndexError", e) from None
            except TypeError:
                raise Raised("TypeError", e) from None
        if isinstance(e, ast.JoinedStr):
            return "<text>"
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            env[e.target.id] = v
            return v
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            out = []
            self.comp(e, e.generators, dict(env), out)
            return dict(out) if isinstance(e, ast.DictComp) else set(out) if isinstance(e, ast.SetComp) else out
        if isinstance(e, ast.Call):
            return self.k_call(e, env)
        raise Unknown(ast.unparse(e)[:80])

    def comp(self, e, gens, env, out):
        if not gens:
            out.append((self.ev(e.key, env), self.ev(e.value, env)) if isinstance(e, ast.DictComp) else self.ev(e.elt, env))
            return
        for v in list(self.ev(gens[0].iter, env)):
            self.store(gens[0].target, v, env)
            if all(self.truth(self.ev(c, env)) for c in gens[0].ifs):
                self.comp(e, gens[1:], env, out)

    def k_call(self, e, env):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.ev(a.value, env))
            else:
                args.append(self.ev(a, env))
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg}
        f = e.func
        if isinstance(f, ast.Name):
            if f.id in self.funcs and f.id not in env:
                return self.call(self.funcs[f.id], args, kw)
            if f.id in ("float", "int") and args and (isinstance(args[0], Sym) or num(args[0])):
                return args[0] if f.id == "float" else self.no(e)
            pure = {"len": len, "list": list, "tuple": tuple, "set": set, "dict": dict, "sorted": sorted, "range": range, "zip": zip,
                    "enumerate": enumerate, "str": str, "isinstance": None, "min": min, "max": max, "frozenset": frozenset,
                    "reversed": reversed, "sum": sum, "any": any, "all": all}
            if pure.get(f.id) and not any(isinstance(a, Sym) for a in args):
                return pure[f.id](*args, **kw)
            if f.id == "cast" and len(args) == 2:
                return args[1]
            if f.id in HANDLES and f.id not in env or f.id.endswith("Error") and f.id not in env:
                return Raised(f.id, e)
            return self.no(e)
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value, env)
            if isinstance(o, str) and f.attr in ("lower", "upper", "strip", "casefold", "startswith", "endswith", "rstrip", "lstrip",
                                                 "removesuffix", "replace", "split", "title", "format", "join"):
                return getattr(o, f.attr)(*args, **kw)
            if isinstance(o, dict) and f.attr in ("get", "items", "keys", "values", "setdefault", "update", "copy", "pop"):
                try:
                    return getattr(o, f.attr)(*args, **kw)
                except KeyError:
                    raise Raised("KeyError", e) from None
            if isinstance(o, list) and f.attr in ("append", "extend", "index", "copy", "remove", "insert"):
                try:
                    return getattr(o, f.attr)(*args)
                except ValueError:
                    raise Raised("ValueError", e) from None
            if isinstance(o, set) and f.attr in ("add", "union", "update", "discard"):
                return getattr(o, f.attr)(*args)
            if not isinstance(o, (str, dict, list, set, tuple)):
                raise Raised("AttributeError", e) if o is None else Unknown(ast.unparse(e)[:80])
        return self.no(e)

    def no(self, e):
        raise Unknown(ast.unparse(e)[:80])
