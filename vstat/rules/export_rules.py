"""C36: what the public API names."""
from __future__ import annotations

import ast
import builtins

from ..api import Ctx, prop
from ..model import PKG, AnalysisBroken

# what programs written against the package import from upstage_des.api
PUBLIC = """UpstageError SimulationError MotionAndDetectionError RulesError Actor PLANNING_FACTOR_OBJECT UpstageBase
NamedUpstageEntity EnvironmentContext add_stage_variable get_stage_variable get_stage All Any Event Get FilterGet SortedFilterGet
Put ResourceHold Wait ContainerEmptyError ContainerError ContainerFullError ContinuousContainer SelfMonitoringContainer
SelfMonitoringContinuousContainer SelfMonitoringFilterStore SelfMonitoringSortedFilterStore SelfMonitoringReserveContainer
SelfMonitoringStore ReserveContainer SortedFilterStore CartesianLocation GeodeticLocation Location CartesianLocationData
GeodeticLocationData LinearChangingState DictionaryState DataclassState CartesianLocationChangingState State
GeodeticLocationChangingState DetectabilityState MultiStoreState ResourceState CommunicationStore DecisionTask Task process
InterruptStates TerminalTask TaskNetwork TaskNetworkFactory TaskLinks TaskNetworkNucleus NucleusInterrupt
SharedLinearChangingState PointToPointCommsManager RoutingTableCommsManager Message MessageContent SensorMotionManager
SteppedMotionManager unit_convert Routine WindowedGet""".split()
BUILTIN = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__path__", "__package__", "__spec__", "__qualname__", "__module__"}


class Imports:
    """Executes the import-time part of the modules abstractly: which names are bound when, and to what."""

    def __init__(self, prog):
        self.prog = prog
        self.bound: dict[str, dict] = {}
        self.done: set[str] = set()
        self.faults: dict = {}
        self.names = 0

    def fault(self, m, node, msg):
        self.faults.setdefault((m.name, msg), f"{m.rel}:{node.lineno}")

    def load(self, name):
        """Import package module `name` ('' is the package), parents first."""
        if name and "." in name:
            self.load(name.rsplit(".", 1)[0])
        elif name:
            self.load("")
        if name in self.bound:
            return
        m = self.prog.modules.get(name)
        if m is None:
            return
        self.bound[name] = {}
        self.future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names)
                          for s in m.tree.body)
        self.body(m, m.tree.body, self.bound[name], [])
        self.done.add(name)
        if name:
            parent, _, leaf = name.rpartition(".")
            self.bound.get(parent, {})[leaf] = ("module", name)

    def absname(self, m, s):
        if not s.level:
            return s.module or ""
        parts = m.name.split(".") if m.name else []
        if not m.is_pkg:
            parts = parts[:-1]
        up = s.level - 1
        parts = parts[:len(parts) - up] if up else parts
        return ".".join([PKG, *parts, *((s.module or "").split(".") if s.module else [])])

    # -- statements ---------------------------------------------------------------------------
    def body(self, m, body, scope, outer):
        for s in body:
            self.stmt(m, s, scope, outer)

    def stmt(self, m, s, scope, outer):
        if isinstance(s, ast.ImportFrom):
            mod = self.absname(m, s)
            if mod != PKG and not mod.startswith(PKG + "."):
                for a in s.names:
                    scope[a.asname or a.name] = ("outside", f"{mod}.{a.name}")
                return
            rel = mod[len(PKG):].lstrip(".")
            self.load(rel)
            if rel not in self.prog.modules:
                self.fault(m, s, f"imports from `{mod}`, which does not exist")
                return
            for a in s.names:
                if a.name == "*":
                    for n, v in list(self.bound[rel].items()):
                        if not n.startswith("_") and ("__all__" not in self.bound[rel] or n in exported(self.prog.modules[rel])):
                            scope[n] = v
                    continue
                v = self.bound[rel].get(a.name)
                if v is None and f"{rel}.{a.name}".lstrip(".") in self.prog.modules:
                    self.load(f"{rel}.{a.name}".lstrip("."))
                    v = ("module", f"{rel}.{a.name}".lstrip("."))
                if v is None:
                    self.fault(m, s, f"imports `{a.name}` from `{mod}`, which does not have it" + (
                        "" if rel in self.done else " yet when this is imported first" if self.later(rel, a.name) else ""))
                    v = ("missing", a.name)
                scope[a.asname or a.name] = v
            return
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name == PKG or a.name.startswith(PKG + "."):
                    rel = a.name[len(PKG):].lstrip(".")
                    self.load(rel)
                    if rel not in self.prog.modules:
                        self.fault(m, s, f"imports `{a.name}`, which does not exist")
                    scope[a.asname or PKG] = ("module", rel if a.asname else "")
                else:
                    scope[a.asname or a.name.split(".")[0]] = ("outside", a.name)
            return
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.expr(m, d, scope, outer)
            for d in (*s.args.defaults, *(x for x in s.args.kw_defaults if x is not None)):
                self.expr(m, d, scope, outer)
            if not self.future:
                tp = {t.name for t in getattr(s, "type_params", [])}
                for a in (*s.args.posonlyargs, *s.args.args, *s.args.kwonlyargs, s.args.vararg, s.args.kwarg):
                    if a is not None and a.annotation is not None:
                        self.expr(m, a.annotation, scope, [*outer, tp])
                if s.returns is not None:
                    self.expr(m, s.returns, scope, [*outer, tp])
            scope[s.name] = ("def", m.name, s.name)
            return
        if isinstance(s, ast.ClassDef):
            tp = {t.name for t in getattr(s, "type_params", [])}
            for d in (*s.decorator_list, *s.bases, *(k.value for k in s.keywords)):
                self.expr(m, d, scope, [*outer, tp])
            inner: dict = {}
            self.body(m, s.body, inner, [*outer, tp, scope])
            scope[s.name] = ("def", m.name, s.name)
            return
        if isinstance(s, ast.If):
            t = ast.unparse(s.test)
            if t.endswith("TYPE_CHECKING"):
                self.body(m, s.orelse, scope, outer)
                return
            self.expr(m, s.test, scope, outer)
            self.body(m, s.body, scope, outer)
            self.body(m, s.orelse, scope, outer)
            return
        if isinstance(s, ast.Try):
            keep = dict(self.faults)
            self.body(m, s.body, scope, outer)
            if s.handlers:
                self.faults = keep
            for h in s.handlers:
                self.body(m, h.body, scope, outer)
            self.body(m, s.orelse, scope, outer)
            self.body(m, s.finalbody, scope, outer)
            return
        if isinstance(s, (ast.For, ast.While, ast.With)):
            for e in [getattr(s, "iter", None), getattr(s, "test", None), *(i.context_expr for i in getattr(s, "items", []))]:
                if e is not None:
                    self.expr(m, e, scope, outer)
            for t in [getattr(s, "target", None), *(i.optional_vars for i in getattr(s, "items", []))]:
                self.bind(m, t, ("value", m.name), scope)
            self.body(m, s.body, scope, outer)
            self.body(m, getattr(s, "orelse", []), scope, outer)
            return
        if isinstance(s, ast.Assign):
            self.expr(m, s.value, scope, outer)
            for t in s.targets:
                v = ("def", m.name, t.id) if isinstance(t, ast.Name) else ("value", m.name)
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Name) and s.value.id in scope:
                    v = scope[s.value.id]
                    if v[0] == "def" and not any(t.id in (*o.functions, *o.classes) for o in self.prog.modules.values()):
                        v = ("def", m.name, t.id)    # another name for it
                self.bind(m, t, v, scope)
            return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(m, s.value, scope, outer)
            if not self.future:
                self.expr(m, s.annotation, scope, outer)
            if s.value is not None and isinstance(s.target, ast.Name):
                scope[s.target.id] = ("def", m.name, s.target.id)
            elif isinstance(s.target, ast.Name) and outer:
                scope.setdefault(s.target.id, ("value", m.name))
            return
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    scope.pop(t.id, None)
            return
        if type(s).__name__ == "TypeAlias":
            scope[s.name.id] = ("def", m.name, s.name.id)
            return
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.expr(m, x, scope, outer)
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                scope.setdefault(x.id, ("value", m.name))

    def later(self, rel, name):
        m = self.prog.modules[rel]
        return name in m.functions or name in m.classes or name in m.globals or name in m.imports

    def bind(self, m, t, v, scope):
        if t is None:
            return
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                scope[x.id] = v

    # -- expressions ---------------------------------------------------------------------------
    def expr(self, m, e, scope, outer):
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults:
                self.expr(m, d, scope, outer)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            loc = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.comprehension):
                    for y in (x.iter, *x.ifs):
                        self.expr(m, y, scope, [*outer, loc])
                else:
                    self.expr(m, x, scope, [*outer, loc])
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(m, e.value, scope, outer)
            scope[e.target.id] = ("value", m.name)
            return
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            self.names += 1
            if e.id not in scope and e.id not in BUILTIN and not any(e.id in o for o in outer):
                self.fault(m, e, f"uses `{e.id}`, which is not bound when the module is imported")
            return
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            v = scope.get(e.value.id)
            if v is not None and v[0] == "module" and v[1] in self.bound and e.attr not in self.bound[v[1]]:
                self.fault(m, e, f"uses `{ast.unparse(e)}`, which does not exist" + ("" if v[1] in self.done else " yet when this is imported first"))
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.expr(m, x, scope, outer)
            elif isinstance(x, ast.keyword):
                self.expr(m, x.value, scope, outer)


def exported(m):
    """The names a module lists, or None when it lists none."""
    out = None

    def ev(e):
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            r = []
            for x in e.elts:
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    r.append(x.value)
                elif isinstance(x, ast.Starred):
                    r += ev(x.value)
                else:
                    raise AnalysisBroken(f"{m.rel}: `{ast.unparse(x)}` in __all__")
            return r
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return ev(e.left) + ev(e.right)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "sorted") and len(e.args) == 1:
            return ev(e.args[0])
        if isinstance(e, ast.Name):
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets):
                    return ev(s.value)
        raise AnalysisBroken(f"{m.rel}: __all__ is not a list of names")

    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets):
            out = ev(s.value)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == "__all__" and s.value is not None:
            out = ev(s.value)
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == "__all__":
            out = (out or []) + ev(s.value)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "__all__":
            c = s.value
            if c.func.attr == "extend":
                out = (out or []) + ev(c.args[0])
            elif c.func.attr == "append":
                out = (out or []) + ev(ast.List(elts=[c.args[0]]))
            elif c.func.attr == "remove" and isinstance(c.args[0], ast.Constant) and out:
                out = [x for x in out if x != c.args[0].value]
    return out


@prop("C36")
def exports(ctx: Ctx):
    prog = ctx.prog
    ctx.rule("C36.import", "whichever module a program imports first, every module finds the names it imports and uses", 40)
    ctx.rule("C36.listed", "every name a module lists as exported is defined in it, under that name and by the package", 90)
    ctx.rule("C36.public", "the public API provides and lists every name programs use", 60)
    full = None
    for first in sorted(prog.modules):
        im = Imports(prog)
        im.load(first)
        for (mod, msg), loc in im.faults.items():
            ctx.bad("C36.import", mod, f"{msg} (importing `{PKG}.{first}`)", loc)
        if not im.faults:
            ctx.ok("C36.import", first or PKG)
        ctx.functions.add(f"{first}:<module>")
        m = prog.modules[first]
        names = exported(m)
        for n in names or []:
            v = im.bound[first].get(n)
            if v is None:
                ctx.bad("C36.listed", f"{first}.{n}", "listed but not defined", f"{m.rel}:1")
            elif v[0] == "missing":
                ctx.bad("C36.listed", f"{first}.{n}", "listed but its import fails", f"{m.rel}:1")
            elif v[0] == "outside":
                ctx.bad("C36.listed", f"{first}.{n}", f"listed but it is `{v[1]}`", f"{m.rel}:1")
            elif v[0] == "def" and v[2] != n:
                ctx.bad("C36.listed", f"{first}.{n}", f"listed but it is `{v[1]}.{v[2]}`", f"{m.rel}:1")
            else:
                ctx.ok("C36.listed", f"{first}.{n}")
        if first == "api":
            full = (im.bound[first], names)
    if full is None or full[1] is None:
        raise AnalysisBroken("no list of exported names in the api module")
    bound, names = full
    api = prog.modules["api"]
    for n in PUBLIC:
        v = bound.get(n)
        ctx.check(v is not None and v[0] == "def" and n in names, "C36.public", n,
                  "not provided" if v is None or v[0] != "def" else "provided but not listed", f"{api.rel}:1")
