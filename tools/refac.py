"""Development aid: behaviour-keeping rewrites of the whole source tree, under which every check must stay quiet.

usage: refac.py [-t] [NAME...] [-p Cxx ...]     -t: also run the stable tests on each rewritten tree
Each rewrite below is applied to every function of a scratch copy at once.
"""
import ast
import copy
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
CTR = [0]


def fresh(p="tmp"):
    CTR[0] += 1
    return f"{p}_{CTR[0]}"


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v)


def own(node):
    """Nodes of one function, nested scopes left out."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (*FUNCS, ast.Lambda, ast.ClassDef)):
            todo += ast.iter_child_nodes(n)


def has(node, *types):
    return any(isinstance(n, types) for n in ([node, *own(node)] if not isinstance(node, list) else [m for x in node for m in (x, *own(x))]))


class Blocks(ast.NodeTransformer):
    """Rewrites the statement lists inside functions: subclasses give stmt(node) -> list of statements."""

    depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.fn = n
        self.generic_visit(n)
        self.depth -= 1
        return n

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.depth:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(node, ast.ClassDef):
                    out = []
                    for s in b:
                        out += self.stmt(s)
                    setattr(node, f, out)
        return node

    def stmt(self, s):
        return [s]


class Same(Blocks):
    pass


class IfFlip(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If):
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse or [ast.Pass()], s.body)]
        return [s]


class RetTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            n = fresh("result")
            return [assign(n, s.value), ast.Return(name(n))]
        return [s]


class CondTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name) and not has(s.test, ast.NamedExpr):
            n = fresh("cond")
            return [assign(n, s.test), ast.If(name(n), s.body, s.orelse)]
        return [s]


class ArgTemp(Blocks):
    def stmt(self, s):
        v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else s.exc if isinstance(s, ast.Raise) else None
        if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and not (isinstance(v.func, ast.Name) and v.func.id in ("super", "cast")):
            f = v.func
            while isinstance(f, ast.Attribute):
                f = f.value
            if not isinstance(f, ast.Name):
                return [s]
            pre = []
            for box in [*((v.args, i) for i in range(len(v.args))), *((k, "value") for k in v.keywords)]:
                a = box[0][box[1]] if isinstance(box[1], int) else box[0].value
                if isinstance(a, ast.Starred):
                    break
                if isinstance(a, (ast.Constant, ast.Name, ast.Lambda, ast.GeneratorExp)):
                    continue
                n = fresh("arg")
                pre.append(assign(n, a))
                if isinstance(box[1], int):
                    box[0][box[1]] = name(n)
                else:
                    box[0].value = name(n)
            return [*pre, s]
        return [s]


class Ternary(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            return [ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            return [ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])]
        return [s]


class Comp(Blocks):
    def stmt(self, s):
        v = s.value if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return)) else None
        if isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)) and not (isinstance(s, ast.Assign) and len(s.targets) != 1):
            acc = fresh("acc")
            if isinstance(v, ast.DictComp):
                b = ast.Assign([ast.Subscript(name(acc), v.key, ast.Store())], v.value)
            else:
                b = ast.Expr(ast.Call(ast.Attribute(name(acc), "append" if isinstance(v, ast.ListComp) else "add", ast.Load()), [v.elt], []))
            # the loop variables become locals: rename them
            m = {x.id: fresh(x.id) for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            body = [b]
            for g in reversed(v.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            for x in ast.walk(body[0]):
                if isinstance(x, ast.Name) and x.id in m:
                    x.id = m[x.id]
            init = ast.List([], ast.Load()) if isinstance(v, ast.ListComp) else ast.Call(name("set"), [], []) if isinstance(v, ast.SetComp) else ast.Dict([], [])
            s.value = name(acc)
            return [assign(acc, init), *body, s]
        return [s]


class IterTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
            n = fresh("items")
            it, s.iter = s.iter, name(n)
            return [assign(n, it), s]
        return [s]


class Enum(Blocks):
    """for x in it -> for _i, x in enumerate(it)"""

    def stmt(self, s):
        if isinstance(s, ast.For):
            s.target = ast.Tuple([name(fresh("_i"), True), s.target], ast.Store())
            s.iter = ast.Call(name("enumerate"), [s.iter], [])
        return [s]


class While(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant)):
            return [ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], []), *s.body], [])]
        return [s]


class AndNest(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            b = s.body
            for t in reversed(s.test.values):
                b = [ast.If(t, b, [])]
            return b
        return [s]


class Early(Blocks):
    """if c: ...return/raise; rest  ->  if c: ... else: rest"""

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.depth:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(node, ast.ClassDef):
                    for i in range(len(b) - 2, -1, -1):
                        s = b[i]
                        if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                            s.orelse = b[i + 1:]
                            del b[i + 1:]
        return node


class Guard(Blocks):
    """last `if c: body` of a function -> if not c: return; body  (functions without a return value only)"""

    def visit_FunctionDef(self, n):
        super().visit_FunctionDef(n)
        s = n.body[-1]
        if isinstance(s, ast.If) and not s.orelse:
            n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], []), *s.body]
        return n


class SwapCmp(ast.NodeTransformer):
    OPS = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.OPS and not has(n, ast.Call, ast.Await, ast.Yield):
            return ast.Compare(n.comparators[0], [self.OPS[type(n.ops[0])]()], [n.left])
        return n


class DeMorgan(ast.NodeTransformer):
    NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in (ast.IsNot, ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.NEG[type(n.ops[0])]()], n.comparators))
        return n


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n, outer=None):
        params = set()
        bound = set()
        skip = set()
        for x in ast.walk(n):
            if isinstance(x, ast.arg):
                params.add(x.arg)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                bound.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                skip |= set(x.names)
            elif isinstance(x, FUNCS) and x is not n:
                skip.add(x.name)
            elif isinstance(x, ast.ClassDef):
                skip |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                skip |= {(y.asname or y.name).split(".")[0] for y in x.names}
            elif isinstance(x, ast.ExceptHandler) and x.name:
                skip.add(x.name)
        ren = bound - params - skip
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id += "_v"
        return n


class Extract(ast.NodeTransformer):
    """every method's body moves to a helper method"""

    def visit_ClassDef(self, c):
        self.generic_visit(c)
        out = []
        for s in c.body:
            out.append(s)
            if not isinstance(s, ast.FunctionDef) or len(s.body) < 2 or any(isinstance(d, ast.Name) and d.id in ("property", "overload", "abstractmethod", "classmethod", "staticmethod")
                                                                             or isinstance(d, ast.Attribute) or isinstance(d, ast.Call) for d in s.decorator_list):
                continue
            if s.name in ("__new__", "__init_subclass__", "__class_getitem__", "__getattr__", "__setattr__", "__getattribute__", "__delattr__"):
                continue
            if not s.args.args or s.args.args[0].arg != "self":
                continue
            doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
            body = s.body[len(doc):]
            if any(isinstance(x, ast.Nonlocal) for x in ast.walk(s)) or "_log_caller" in s.name or "inspect" in ast.dump(s):
                continue
            if any(isinstance(x, ast.Name) and x.id in ("sys", "locals") for x in ast.walk(s)):
                continue
            h = copy.deepcopy(s)
            h.name = f"_do_{c.name.strip('_').lower()}_{s.name.strip('_')}"
            h.body, h.decorator_list = copy.deepcopy(body), []
            a = s.args
            for q in (h.args,):
                q.defaults, q.kw_defaults = [], [None] * len(q.kwonlyargs)
            pos = [*a.posonlyargs, *a.args][1:]
            call = ast.Call(ast.Attribute(name("self"), h.name, ast.Load()),
                            [name(x.arg) for x in pos] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                            [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(s))
            if s.name == "__init__":
                s.body = doc + [ast.Expr(call)]
            else:
                s.body = doc + [ast.Return(ast.YieldFrom(call) if gen else call)]
            out.append(h)
        c.body = out
        return c


class ExtractBlock(ast.NodeTransformer):
    """self-contained if/for/else blocks of methods move to helper methods"""

    def visit_ClassDef(self, c):
        self.generic_visit(c)
        new = []
        for s in c.body:
            if isinstance(s, ast.FunctionDef) and s.args.args and s.args.args[0].arg == "self" and not any(isinstance(x, (ast.Nonlocal, *FUNCS, ast.Lambda, ast.ClassDef)) for x in ast.walk(s) if x is not s):
                k = 0
                gone = set()
                for blk in [x for x in own(s) if isinstance(x, (ast.If, ast.For, ast.While, ast.With))]:
                    for f in ("body", "orelse"):
                        b = getattr(blk, f, [])
                        if id(blk) in gone or not b or (len(b) == 1 and isinstance(b[0], (ast.If, ast.Pass))) or has(b, ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Try, ast.Import, ast.ImportFrom, ast.Delete):
                            continue
                        if isinstance(b[0], (ast.Raise,)):
                            continue
                        st = {x.id for y in b for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                        inb = {id(x) for y in b for x in ast.walk(y)}
                        if any(isinstance(x, ast.Name) and x.id in st and id(x) not in inb for x in ast.walk(s)) or any("super" == getattr(x, "id", None) for y in b for x in ast.walk(y)):
                            continue
                        loc = {x.arg for x in ast.walk(s.args) if isinstance(x, ast.arg)} | {x.id for x in own(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                        comp = {x.id for y in b for z in ast.walk(y) if isinstance(z, ast.comprehension) for x in ast.walk(z.target) if isinstance(x, ast.Name)}
                        use = sorted({x.id for y in b for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in loc} - {"self"} - st - comp)
                        if any(isinstance(x, ast.Name) and x.id in st and isinstance(x.ctx, ast.Load) and x.id in {a.arg for a in ast.walk(s.args) if isinstance(a, ast.arg)} for y in b for x in ast.walk(y)):
                            continue
                        if st & {a.arg for a in ast.walk(s.args) if isinstance(a, ast.arg)} or comp & set(use):
                            continue
                        # a local both read and written must be written first: only plain assignments in the first statement are trusted
                        if any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for y in b for x in ast.walk(y)):
                            continue
                        gone |= {id(x) for y in b for x in ast.walk(y)}
                        k += 1
                        nm = f"_part_{c.name.strip('_').lower()}_{s.name.strip('_')}_{k}"
                        h = ast.FunctionDef(nm, ast.arguments([], [ast.arg("self"), *(ast.arg(u) for u in use)], None, [], [], None, []), list(b), [], None, lineno=1, type_params=[])
                        setattr(blk, f, [ast.Expr(ast.Call(ast.Attribute(name("self"), nm, ast.Load()), [name(u) for u in use], []))])
                        new.append(h)
        c.body += new
        return c


class Dataflow(Blocks):
    """x.y.z in a statement's call receiver -> through a local"""

    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Attribute):
            r = s.value.func.value
            if isinstance(r.value, ast.Name) and r.value.id in ("self",):
                n = fresh("obj")
                s.value.func.value = name(n)
                return [assign(n, r), s]
        return [s]


class Unpack(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts):
            if any(isinstance(x, ast.Starred) for x in [*s.value.elts, *s.targets[0].elts]):
                return [s]
            ns = [fresh("u") for _ in s.value.elts]
            return [*(assign(n, v) for n, v in zip(ns, s.value.elts)), *(ast.Assign([t], name(n)) for t, n in zip(s.targets[0].elts, ns))]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp):
            n = fresh("lhs")
            m = fresh("rhs")
            v = s.value
            return [assign(n, v.left), assign(m, v.right), ast.Assign(s.targets, ast.BinOp(name(n), v.op, name(m)))]
        return [s]


class Aug(Blocks):
    """a.b += n -> a.b = a.b + n for numbers (decided by the name of the attribute: tests confirm)"""

    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and isinstance(s.op, (ast.Add, ast.Sub)) and not isinstance(s.value, (ast.List, ast.ListComp, ast.BinOp)):
            t = copy.deepcopy(s.target)
            t.ctx = ast.Load()
            return [ast.Assign([s.target], ast.BinOp(t, s.op, s.value))]
        return [s]


class FString(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in n.values):
            return n
        fmt = "".join(v.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for v in n.values)
        return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), [v.value for v in n.values if isinstance(v, ast.FormattedValue)], [])

    def visit_FormattedValue(self, n):
        return n


class Try(Blocks):
    """raise X(..) -> error = X(..); raise error"""

    def stmt(self, s):
        if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call):
            n = fresh("error")
            s2 = ast.Raise(name(n), s.cause)
            return [assign(n, s.exc), s2]
        return [s]


class Noop(Blocks):
    def visit_FunctionDef(self, n):
        super().visit_FunctionDef(n)
        doc = isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)
        n.body.insert(1 if doc else 0, ast.Expr(ast.Constant(None)) if CTR[0] % 2 else ast.Assign([name("_unused", True)], ast.Constant(0)))
        CTR[0] += 1
        return n


class YieldTemp(Blocks):
    """yield f(x) -> ev = f(x); yield ev"""

    def stmt(self, s):
        y = getattr(s, "value", None)
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(y, (ast.Yield, ast.YieldFrom)) and y.value is not None and not isinstance(y.value, (ast.Name, ast.Constant)):
            n = fresh("ev")
            pre = [assign(n, y.value)]
            y.value = name(n)
            return [*pre, s]
        return [s]


class Kw(ast.NodeTransformer):
    """self.m(a, b) -> self.m(x=a, y=b) for methods of the same class without overrides elsewhere"""

    def visit_ClassDef(self, c):
        ms = {m.name: m for m in c.body if isinstance(m, ast.FunctionDef)}
        for x in ast.walk(c):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" and x.func.attr in ms:
                m = ms[x.func.attr]
                if m.decorator_list or m.args.vararg or m.args.posonlyargs or any(isinstance(a, ast.Starred) for a in x.args):
                    continue
                ps = [a.arg for a in m.args.args][1:]
                if len(x.args) > len(ps):
                    continue
                x.keywords = [ast.keyword(p, v) for p, v in zip(ps, x.args)] + x.keywords
                x.args = []
        return c


class CmpChain(ast.NodeTransformer):
    """a <= b < c -> a <= b and b < c (simple middles)"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and not has(n.comparators[0], ast.Call):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])])
        return n


class AnyLoop(Blocks):
    """if any(...)/all(...) conditions and returns -> a loop with a flag"""

    def stmt(self, s):
        e = s.test if isinstance(s, ast.If) else s.value if isinstance(s, (ast.Return, ast.Assign)) else None
        neg = False
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            neg, e = True, e.operand
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and isinstance(e.args[0], ast.GeneratorExp):
            g = e.args[0]
            fl = fresh("found")
            an = e.func.id == "any"
            m = {x.id: fresh(x.id) for q in g.generators for x in ast.walk(q.target) if isinstance(x, ast.Name)}
            if len(g.generators) != 1:
                return [s]
            q = g.generators[0]
            body = [ast.If(g.elt if an else ast.UnaryOp(ast.Not(), g.elt), [assign(fl, ast.Constant(an)), ast.Break()], [])]
            for c in reversed(q.ifs):
                body = [ast.If(c, body, [])]
            lp = ast.For(q.target, q.iter, body, [])
            for x in ast.walk(lp):
                if isinstance(x, ast.Name) and x.id in m:
                    x.id = m[x.id]
            r = name(fl)
            r = ast.UnaryOp(ast.Not(), r) if neg else r
            if isinstance(s, ast.If):
                s.test = r
            else:
                s.value = r
            return [assign(fl, ast.Constant(not an)), lp, s]
        return [s]


class ItemsLoop(Blocks):
    """for k, v in d.items() -> for k in d: v = d[k]   (tests confirm the dicts stay as they are)"""

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and isinstance(s.target, ast.Tuple) \
                and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name) and isinstance(s.iter.func.value, (ast.Name, ast.Attribute)):
            d = s.iter.func.value
            k, v = s.target.elts
            s.target, s.iter = k, d
            s.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), name(k.id), ast.Load())))
        return [s]


ALL = {c.__name__.lower(): c for c in (Same, IfFlip, RetTemp, CondTemp, ArgTemp, Ternary, Comp, IterTemp, Enum, While, AndNest, Early, Guard, SwapCmp, DeMorgan, Rename, Extract,
                                       ExtractBlock, Dataflow, Unpack, Aug, FString, Try, Noop, YieldTemp, Kw, CmpChain, AnyLoop, ItemsLoop)}


def build(nm, d):
    shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    for p in ("pyproject.toml", "README.md"):
        shutil.copy("/repo/" + p, d)
    n = 0
    for p in glob.glob(d + "/src/upstage_des/**/*.py", recursive=True):
        if "/test/" in p:
            continue
        s = open(p).read()
        t = ast.parse(s)
        b = ast.unparse(t)
        t = ALL[nm]().visit(t)
        ast.fix_missing_locations(t)
        r = ast.unparse(t)
        n += r != b
        open(p, "w").write(r + "\n")
        compile(r, p, "exec")
    return n


def tests(d):
    env = {**os.environ, "PYTHONPATH": d + "/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "src/upstage_des", "-q", "-o", "addopts=", "-p", "no:cacheprovider", "--timeout=300",
                    "-o", "junit_family=xunit2", f"--junitxml={d}/j.xml"], cwd=d, env=env, capture_output=True)
    ok = {f"{t.get('classname')}::{t.get('name')}" for t in ET.parse(d + "/j.xml").iter("testcase")
          if not any(c.tag in ("failure", "error", "skipped") for c in t)}
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok)


def check(p, d):
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p, "--repo", d, "--no-write"], capture_output=True, text=True, timeout=800)
    except subprocess.TimeoutExpired:
        return p, "timeout", ["timeout"]
    return p, r.returncode, [x.strip() for x in r.stdout.splitlines() if "[" in x or "BROKEN" in x] + r.stderr.splitlines()[-2:]


if __name__ == "__main__":
    a = sys.argv[1:]
    t = "-t" in a
    props = []
    if "-p" in a:
        i = a.index("-p")
        props, a = a[i + 1:], a[:i]
    names = [x for x in a if not x.startswith("-")] or list(ALL)
    props = props or [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    for nm in names:
        d = tempfile.mkdtemp(prefix="refac")
        try:
            k = build(nm, d)
            miss = tests(d) if t else []
            print(f"== {nm}: {k} files rewritten" + (f"; {len(miss)} stable tests fail {miss[:4]}" if miss else ""), flush=True)
            with ThreadPoolExecutor(8) as ex:
                for p, rc, msg in ex.map(lambda p: check(p, d), props):
                    if rc != 0:
                        print(f"  ALARM {p} rc={rc}", flush=True)
                        for m in msg[:6]:
                            print("     ", m[:260], flush=True)
        finally:
            shutil.rmtree(d)
