"""Program model: parses every non-test module of the package and resolves names.

Nothing here imports or runs the analysed package: it is parsed with `ast` only.
"""
from __future__ import annotations

import ast
import string
import hashlib
import os
from dataclasses import dataclass, field

PKG = "upstage_des"


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: the check has no verdict (exit 2)."""


class _Texts(ast.NodeTransformer):
    """Texts put together by `format` or `%` are read as f-strings."""

    def join(self, n, lits, vals):
        out = []
        for i, x in enumerate(lits):
            if x:
                out.append(ast.Constant(x))
            if i < len(vals):
                out.append(ast.FormattedValue(vals[i], -1, None))
        return ast.fix_missing_locations(ast.copy_location(ast.JoinedStr(out), n))

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if not (isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str)):
            return n
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return n
        by = {str(i): a for i, a in enumerate(n.args)} | {k.arg: k.value for k in n.keywords}
        lits, vals, at = [], [], 0
        for lit, field, spec, conv in string.Formatter().parse(f.value.value):
            if len(lits) > len(vals):
                lits[-1] += lit
            else:
                lits.append(lit)
            if field is not None:
                key = field or str(at)
                at += not field
                if spec or conv or key not in by:
                    return n
                vals.append(by[key])
        return self.join(n, lits, vals) if vals else n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            return n
        t = n.left.value
        vals = list(n.right.elts) if isinstance(n.right, ast.Tuple) else [n.right] if isinstance(n.right, (ast.JoinedStr, ast.Constant)) else []
        if not vals or t.count("%") != t.count("%s") or t.count("%s") != len(vals) or any(isinstance(v, ast.Starred) for v in vals):
            return n
        return self.join(n, t.split("%s"), vals)


@dataclass(repr=False, eq=False)
class Func:
    qual: str  # module:Class.name or module:name
    name: str
    node: ast.FunctionDef
    module: "Module"
    cls: "Class | None" = None
    parent: "Func | None" = None

    @property
    def decorators(self) -> list[str]:
        out = []
        for d in self.node.decorator_list:
            if isinstance(d, ast.Call):
                d = d.func
            out.append(ast.unparse(d))
        return out

    @property
    def is_property(self) -> bool:
        return any(d in ("property", "cached_property", "functools.cached_property") for d in self.decorators)

    @property
    def is_static(self) -> bool:
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self) -> bool:
        return "classmethod" in self.decorators

    @property
    def is_generator(self) -> bool:
        return _has_yield(self.node)

    @property
    def loc(self) -> str:
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self) -> str:
        return self.qual


def _has_yield(fn: ast.AST) -> bool:
    todo = list(getattr(fn, "body", []))
    if not isinstance(todo, list):
        todo = [todo]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Yield | ast.YieldFrom):
            return True
        if isinstance(n, ast.FunctionDef | ast.Lambda | ast.ClassDef | ast.AsyncFunctionDef):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


@dataclass(repr=False, eq=False)
class Class:
    qual: str  # module:Name
    name: str
    node: ast.ClassDef
    module: "Module"
    methods: dict[str, Func] = field(default_factory=dict)
    setters: dict[str, Func] = field(default_factory=dict)
    attrs: dict[str, ast.expr] = field(default_factory=dict)  # class-level assigns
    annots: dict[str, ast.expr] = field(default_factory=dict)
    bases: list = field(default_factory=list)  # Class | str
    mro: list = field(default_factory=list)

    def __repr__(self) -> str:
        return self.qual

    @property
    def mro_classes(self) -> list["Class"]:
        return [c for c in self.mro if isinstance(c, Class)]

    def find(self, name: str, after: "Class | None" = None) -> Func | None:
        seen = after is None
        for c in self.mro:
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, Class) and name in c.methods:
                return c.methods[name]
        return None

    def external_bases(self) -> list[str]:
        return [c for c in self.mro if isinstance(c, str)]

    def is_sub(self, other: "Class | str") -> bool:
        if isinstance(other, str):
            return any(c == other or (isinstance(c, Class) and c.name == other) for c in self.mro)
        return other in self.mro


@dataclass(repr=False, eq=False)
class Module:
    name: str  # dotted below package, e.g. "motion.motion"
    path: str
    rel: str
    tree: ast.Module
    source: str
    functions: dict[str, Func] = field(default_factory=dict)
    classes: dict[str, Class] = field(default_factory=dict)
    imports: dict[str, tuple[str, str | None]] = field(default_factory=dict)
    globals: dict[str, ast.expr] = field(default_factory=dict)
    is_pkg: bool = False

    def __repr__(self) -> str:
        return self.name


class Program:
    def __init__(self, repo: str) -> None:
        self.repo = repo
        self.root = os.path.join(repo, "src", PKG)
        if not os.path.isdir(self.root):
            raise AnalysisBroken(f"package directory {self.root} not found")
        self.modules: dict[str, Module] = {}
        self.all_functions: list[Func] = []
        self.digest = hashlib.sha256()
        for dp, dn, fn in os.walk(self.root):
            dn[:] = sorted(d for d in dn if d not in ("test", "tests", "__pycache__"))
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        for m in self.modules.values():
            for c in m.classes.values():
                c.bases = [self._base(m, b) for b in c.node.bases]
        for m in self.modules.values():
            for c in m.classes.values():
                self._mro(c, set())
        self.by_class: dict[str, list[Class]] = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.by_class.setdefault(c.name, []).append(c)
        self._positional()
        self.func_by_node: dict[ast.AST, Func] = {f.node: f for f in self.all_functions}

    def _positional(self) -> None:
        """`self.m(name=x)` is read as `self.m(x)` where every method `m` of the package has `name` first."""
        sigs: dict[str, list[list[str]]] = {}
        for f in self.all_functions:
            if f.cls is not None and f.parent is None:
                a = f.node.args
                sigs.setdefault(f.name, []).append([x.arg for x in (*a.posonlyargs, *a.args)][0 if f.is_static else 1 :])
        for f in self.all_functions:
            if f.cls is None or f.parent is not None:
                continue
            for n in ast.walk(f.node):
                if not (isinstance(n, ast.Call) and n.keywords and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                        and n.func.value.id in ("self", "cls") and n.func.attr in sigs):
                    continue
                if any(isinstance(x, ast.Starred) for x in n.args):
                    continue
                while n.keywords and n.keywords[0].arg is not None and all(
                        len(s) > len(n.args) and s[len(n.args)] == n.keywords[0].arg for s in sigs[n.func.attr]):
                    n.args.append(n.keywords.pop(0).value)

    # -- loading ---------------------------------------------------------
    def _load(self, path: str) -> None:
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        self.digest.update(path.encode() + src.encode())
        rel = os.path.relpath(path, self.repo)
        parts = os.path.relpath(path, self.root)[:-3].split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        name = ".".join(parts)
        try:
            tree = _Texts().visit(ast.parse(src, path))
        except SyntaxError as e:
            raise AnalysisBroken(f"{rel} does not parse: {e}") from e
        m = Module(name, path, rel, tree, src, is_pkg=is_pkg)
        self.modules[name] = m
        self._scan(m, tree.body)

    def _scan(self, m: Module, body: list[ast.stmt]) -> None:
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    m.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                base = self._absmod(m, s)
                for a in s.names:
                    m.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(s, ast.FunctionDef):
                f = Func(f"{m.name}:{s.name}", s.name, s, m)
                m.functions[s.name] = f
                self.all_functions.append(f)
                self._nested(f)
            elif isinstance(s, ast.ClassDef):
                self._scan_class(m, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.globals[s.target.id] = s.value
            elif isinstance(s, ast.If | ast.Try):
                for fld in ("body", "orelse", "finalbody"):
                    self._scan(m, getattr(s, fld, []))

    def _nested(self, f: Func) -> None:
        for n in ast.walk(f.node):
            if n is not f.node and isinstance(n, ast.FunctionDef):
                g = Func(f"{f.qual}.<locals>.{n.name}", n.name, n, f.module, f.cls, f)
                self.all_functions.append(g)

    def _scan_class(self, m: Module, s: ast.ClassDef) -> None:
        c = Class(f"{m.name}:{s.name}", s.name, s, m)
        m.classes[s.name] = c
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                f = Func(f"{m.name}:{s.name}.{b.name}", b.name, b, m, c)
                decs = f.decorators
                if "overload" in decs or "typing.overload" in decs:
                    continue
                if any(d.endswith(".setter") for d in decs):
                    c.setters[b.name] = f
                else:
                    c.methods[b.name] = f
                self.all_functions.append(f)
                self._nested(f)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = b.value
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                c.annots[b.target.id] = b.annotation
                if b.value is not None:
                    c.attrs[b.target.id] = b.value

    def _absmod(self, m: Module, s: ast.ImportFrom) -> str:
        mod = s.module or ""
        if s.level == 0:
            return mod
        parts = [PKG] + (m.name.split(".") if m.name else [])
        if not m.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[: len(parts) - (s.level - 1)]
        return ".".join(parts + ([mod] if mod else []))

    # -- resolution --------------------------------------------------------
    def module_of(self, dotted: str) -> Module | None:
        if dotted == PKG:
            return self.modules.get("")
        if dotted.startswith(PKG + "."):
            return self.modules.get(dotted[len(PKG) + 1 :])
        return None

    def resolve(self, m: Module, name: str, depth: int = 0):
        """Resolve a global name: Func | Class | ('global', mod, name) | ('ext', dotted) | None."""
        if depth > 12:
            return None
        if name in m.functions:
            return m.functions[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.globals:
            v = m.globals[name]
            if isinstance(v, ast.Name) and v.id != name:
                r = self.resolve(m, v.id, depth + 1)
                if isinstance(r, Func | Class):
                    return r
            return ("global", m.name, name)
        if name in m.imports:
            base, attr = m.imports[name]
            if attr is None:
                mm = self.module_of(base)
                return mm if mm is not None else ("ext", base)
            sub = self.module_of(base + "." + attr)
            mm = self.module_of(base)
            if mm is not None:
                r = self.resolve(mm, attr, depth + 1)
                if r is not None:
                    return r
            if sub is not None:
                return sub
            return ("ext", base + "." + attr)
        return None

    def resolve_expr(self, m: Module, e: ast.expr):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                return self.resolve(b, e.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if isinstance(b, Class):
                f = b.find(e.attr)
                return f
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(m, ast.parse(e.value, mode="eval").body)
            except SyntaxError:
                return None
        return None

    def _base(self, m: Module, b: ast.expr):
        if isinstance(b, ast.Subscript):
            b = b.value
        r = self.resolve_expr(m, b)
        if isinstance(r, Class):
            return r
        if isinstance(r, tuple):
            return r[-1] if r[0] == "ext" else ".".join(r[1:])
        return ast.unparse(b)

    def _mro(self, c: Class, busy: set) -> list:
        if c.mro:
            return c.mro
        if c in busy:
            return [c]
        busy.add(c)
        seqs = []
        for b in c.bases:
            seqs.append(list(self._mro(b, busy)) if isinstance(b, Class) else [b])
        seqs.append(list(c.bases))
        res: list = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            seqs = [[x for x in s if x is not cand and x != cand] for s in seqs]
            seqs = [s for s in seqs if s]
        c.mro = res
        return res

    # -- anchors -----------------------------------------------------------
    def cls(self, name: str) -> Class:
        """Find a class by bare name (must be unique) or module:Name."""
        if ":" in name:
            mod, nm = name.split(":")
            m = self.modules.get(mod)
            if m is not None and nm in m.classes:
                return m.classes[nm]
            name = nm  # moved to another module?
        got = self.by_class.get(name, [])
        if len(got) == 1:
            return got[0]
        raise AnalysisBroken(f"class {name} not found exactly once ({len(got)})")

    def method(self, cls: str | Class, name: str) -> Func:
        c = cls if isinstance(cls, Class) else self.cls(cls)
        f = c.find(name)
        if f is None:
            raise AnalysisBroken(f"method {c.name}.{name} not found")
        return f

    def func(self, name: str) -> Func:
        """Find a function by module:name, bare name or Class.method."""
        if "." in name and ":" not in name:
            return self.method(*name.split(".", 1))
        if ":" in name:
            mod, nm = name.split(":")
            m = self.modules.get(mod)
            if m is not None:
                r = self.resolve(m, nm)
                if isinstance(r, Func):
                    return r
            name = nm
        got = [m.functions[name] for m in self.modules.values() if name in m.functions]
        if len(got) == 1:
            return got[0]
        raise AnalysisBroken(f"function {name} not found exactly once ({len(got)})")

    def subclasses(self, c: Class, strict: bool = False) -> list[Class]:
        out = []
        for m in self.modules.values():
            for k in m.classes.values():
                if k.is_sub(c) and not (strict and k is c):
                    out.append(k)
        return out

    def classes(self) -> list[Class]:
        return [c for m in self.modules.values() for c in m.classes.values()]

    def building(self) -> "set[Func]":
        """Constructors, and the private methods that nothing but them uses: an object is not known to anyone while they run."""
        if getattr(self, "_building", None) is None:
            uses: dict[str, set] = {}
            for f in self.all_functions:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute):
                        uses.setdefault(n.attr, set()).add(f)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                        uses.setdefault(n.value, set()).add(None)
            done = {f for f in self.all_functions if f.cls is not None and f.name in ("__init__", "__set_name__")}
            more = True
            while more:
                new = {f for f in self.all_functions if f not in done and f.cls is not None and f.name.startswith("_") and not f.name.startswith("__")
                       and uses.get(f.name) and uses[f.name] <= done}
                done |= new
                more = bool(new)
            self._building = done
        return self._building

    def enclosing(self, m: Module, node: ast.AST) -> Func | None:
        best = None
        for f in self.all_functions:
            if f.module is m and f.node.lineno <= node.lineno <= (f.node.end_lineno or 0):
                if best is None or f.node.lineno > best.node.lineno:
                    best = f
        return best
