"""Path-sensitive effect analysis over the syntax tree.

For one function (in the context of one concrete class) the walker enumerates
the paths of its control-flow graph, inlining helpers of the same class or
module, and records on every path the ordered list of effects: calls, stores,
deletes, yields, raises, returns and the branch outcomes taken.  Values are
access paths / value numbers (tuples), never concrete data; a branch is forked,
not decided, except where the same canonical condition was already taken on the
path or the condition is a literal.  Nothing of the analysed package is run and
no solver is involved.  Rules are predicates over these effect paths.
"""
from __future__ import annotations

import ast
from itertools import count

from .model import AnalysisBroken, Class, Func, Module, Program

NONE = ("const", None)
TRUE = ("const", True)
FALSE = ("const", False)
SELF = ("param", "self")


class Raise:
    __slots__ = ("exc", "implicit")

    def __init__(self, exc, implicit=False):
        self.exc = exc
        self.implicit = implicit


class Ev:
    __slots__ = ("kind", "node", "func", "name", "recv", "fn", "args", "kwargs", "target", "value",
                 "resolved", "term", "pol", "snap", "key", "loop", "aug", "depth", "raised", "trys", "withs")

    def __init__(self, kind, node, func, **kw):
        self.kind = kind
        self.node = node
        self.func = func
        self.name = None
        self.recv = None
        self.fn = None
        self.args = ()
        self.kwargs = {}
        self.target = None
        self.value = None
        self.resolved = None
        self.term = None
        self.pol = None
        self.snap = None
        self.loop = 0
        self.aug = None
        self.depth = 0
        self.raised = False
        self.trys = 0
        self.withs = ()
        for k, v in kw.items():
            setattr(self, k, v)
        self.key = (kind, self.name, self.recv, self.args, tuple(sorted(self.kwargs.items(), key=lambda x: str(x[0]))),
                    self.target, self.value, self.term, self.pol, self.raised, id(node))

    @property
    def loc(self):
        return f"{self.func.module.rel}:{getattr(self.node, 'lineno', 0)}"

    def arg(self, i, name=None, default=None):
        if name is not None and name in self.kwargs:
            return self.kwargs[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return default

    def all_args(self):
        return list(self.args) + list(self.kwargs.values())

    def items(self, term):
        """Contents of a list/dict literal argument at the time of the event."""
        if self.snap and term in self.snap:
            return self.snap[term]
        if isinstance(term, tuple) and term and term[0] == "tuple":
            return term[1:]
        return None

    def __repr__(self):
        if self.kind == "call":
            a = ", ".join([show(x) for x in self.args] + [f"{k}={show(v)}" for k, v in self.kwargs.items()])
            return f"call {show(self.fn)}({a})" + (" !raises" if self.raised else "")
        if self.kind in ("write", "del"):
            return f"{self.kind} {show(self.target)} {'= ' + show(self.value) if self.kind == 'write' else ''}"
        if self.kind == "cond":
            return f"assume {'' if self.pol else 'not '}{show(self.term)}"
        if self.kind in ("yield", "yieldfrom", "return", "raise"):
            return f"{self.kind} {show(self.value)}"
        return f"{self.kind} {self.name or ''} {show(self.term) if self.term else ''}"


class Node:
    __slots__ = ("prev", "ev", "h", "n")

    def __init__(self, prev, ev):
        self.prev = prev
        self.ev = ev
        self.n = (prev.n if prev else 0) + 1
        self.h = hash((prev.h if prev else 0, ev.key))


class State:
    __slots__ = ("frames", "heap", "facts", "trace", "ids", "loop", "types")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = {}
        self.trace = None
        self.ids = 0
        self.loop = 0
        self.types = {}

    def fork(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.ids = self.ids
        s.loop = self.loop
        s.types = dict(self.types)
        return s

    def fresh(self):
        self.ids += 1
        return self.ids

    def key(self):
        return (
            self.trace.h if self.trace else 0,
            frozenset((k, frozenset(v.items())) for k, v in self.frames.items()),
            frozenset(self.heap.items()),
            frozenset(self.facts.items()),
        )


class Path:
    def __init__(self, st: State, outcome: str, value, implicit=False):
        evs = []
        n = st.trace
        while n is not None:
            evs.append(n.ev)
            n = n.prev
        evs.reverse()
        self.events = evs
        self.outcome = outcome  # return | raise | exc | cut
        self.value = value
        self.heap = st.heap
        self.facts = st.facts
        self.types = st.types

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and not e.raised and (not names or e.name in names)]

    def writes(self, *attrs):
        out = []
        for e in self.events:
            if e.kind == "write":
                t = e.target
                if t[0] == "attr" and (not attrs or t[2] in attrs):
                    out.append(e)
        return out

    def index(self, ev):
        return next(i for i, e in enumerate(self.events) if e is ev)

    def conds(self, upto=None):
        out = []
        for e in self.events:
            if e is upto:
                break
            if e.kind == "cond":
                out.append((e.term, e.pol))
        return out

    def dump(self):
        return "\n".join(f"  {e.loc}: {e!r}" for e in self.events) + f"\n  => {self.outcome} {show(self.value)}"


# ---------------------------------------------------------------------------
# terms
# ---------------------------------------------------------------------------
def show(t) -> str:
    if t is None:
        return "-"
    if not isinstance(t, tuple) or not t:
        return repr(t)
    o = t[0]
    if o == "param":
        return t[1]
    if o == "const":
        return repr(t[1])
    if o == "attr":
        return f"{show(t[1])}.{t[2]}"
    if o == "sub":
        return f"{show(t[1])}[{show(t[2])}]"
    if o == "call":
        a = ", ".join([show(x) for x in t[2]] + [f"{k}={show(v)}" for k, v in t[3]])
        return f"{show(t[1])}({a})"
    if o == "new":
        return f"<{t[2]} {t[3]}#{t[1]}>"
    if o in ("func", "class"):
        return t[1].qual
    if o == "mod":
        return t[1].name
    if o == "ext":
        return t[1]
    if o == "glob":
        return f"{t[1]}:{t[2]}"
    if o == "bin":
        return f"({show(t[2])} {t[1]} {show(t[3])})"
    if o == "cmp":
        return f"({show(t[2])} {t[1]} {show(t[3])})"
    if o == "tuple":
        return "(" + ", ".join(show(x) for x in t[1:]) + ")"
    if o == "elem":
        return f"each({show(t[1])})"
    if o == "not":
        return f"not {show(t[1])}"
    if o in ("truthy", "isnone"):
        return f"{o}({show(t[1])})"
    if o == "lt0":
        return "0 > " + " + ".join(f"{c}*{show(x)}" for x, c in t[1])
    if o == "builtin":
        return t[1]
    if o == "super":
        return "super()"
    if o == "lambda":
        return "<lambda>"
    return f"{o}({', '.join(show(x) if isinstance(x, tuple) else repr(x) for x in t[1:])})"


def contains(t, pred) -> bool:
    """Does any sub-term satisfy pred (a term or a predicate)?"""
    stack = [t]
    f = pred if callable(pred) else (lambda x: x == pred)
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple):
            continue
        if x and isinstance(x[0], str) and f(x):
            return True
        stack.extend(x)
    return False


def has_attr(t, name) -> bool:
    return contains(t, lambda x: x[0] == "attr" and len(x) == 3 and x[2] == name)


def is_attr(t, name, base=None) -> bool:
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "attr" and t[2] == name and (base is None or t[1] == base)


def attr(base, *names):
    for n in names:
        base = ("attr", base, n)
    return base


def call_name(t):
    """Last identifier of the callee of a call term."""
    if isinstance(t, tuple) and t and t[0] == "call":
        return last_name(t[1])
    return None


def last_name(f):
    if f[0] == "attr":
        return f[2]
    if f[0] in ("func", "class"):
        return f[1].name
    if f[0] == "ext":
        return f[1].split(".")[-1]
    if f[0] == "builtin":
        return f[1]
    if f[0] in ("glob",):
        return f[2]
    if f[0] == "param":
        return f[1]
    if f[0] == "bm":
        return f[2].name
    return None


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(x)


_STRIP = {"list", "tuple", "reversed", "sorted", "iter", "copy", "deepcopy", "set", "frozenset"}


def strip_iter(t):
    """See through copies/reorderings of an iterable."""
    while True:
        if t[0] == "call":
            n = last_name(t[1])
            if t[1][0] in ("builtin", "ext", "func") and n in _STRIP and t[2]:
                t = t[2][0]
                continue
            if t[1][0] == "attr" and n in ("copy", "keys") and not t[2]:
                t = t[1][1]
                continue
        if t[0] == "sub" and t[2][0] == "slice" and t[2][1] in (NONE, ("const", 0)) and t[2][2] == NONE:
            t = t[1]
            continue
        if t[0] == "copyof":
            t = t[1]
            continue
        return t


def _loops_past(path):
    """A loop over a parameter is left out although something was found in it: no such run."""
    full, prev = set(), None
    for e in path.events:
        if e.kind == "cond":
            t = e.term
            if t[0] == "in" and e.pol and t[2][0] == "param":
                full.add(t[2])
        elif e.kind == "endloop" and prev is not None and prev.kind == "loop" and prev.node is e.node and full:
            x = strip_iter(e.term)
            if x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("items", "values") and not x[2]:
                x = x[1][1]
            if x in full:
                return True
        elif full and e.kind == "call" and e.recv in full and e.name in ("pop", "clear", "remove", "popitem", "discard"):
            full.discard(e.recv)
        prev = e
    return False


def lin(t):
    """Linear form of an arithmetic term: dict term -> coefficient (1 for const)."""
    if t[0] == "const" and isinstance(t[1], int | float) and not isinstance(t[1], bool):
        return {(): t[1]}
    if t[0] == "bin" and t[1] in ("+", "-"):
        a, b = lin(t[2]), lin(t[3])
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if t[1] == "+" else -v)
        return {k: v for k, v in out.items() if v != 0}
    if t[0] == "bin" and t[1] == "*":
        a, b = lin(t[2]), lin(t[3])
        for x, y in ((a, b), (b, a)):
            if set(x) <= {()}:
                c = x.get((), 0)
                return {k: v * c for k, v in y.items() if v * c != 0}
        fs = sorted([norm(t[2]), norm(t[3])], key=repr)
        return {("bin", "*", fs[0], fs[1]): 1}
    if t[0] == "bin" and t[1] == "/":
        b = lin(t[3])
        if set(b) <= {()} and b.get((), 0):
            return {k: v / b[()] for k, v in lin(t[2]).items()}
        return {("bin", "/", norm(t[2]), norm(t[3])): 1}
    if t[0] == "neg":
        return {k: -v for k, v in lin(t[1]).items()}
    if t[0] == "call" and last_name(t[1]) in ("float", "int") and len(t[2]) == 1 and t[1][0] == "builtin" and last_name(t[1]) == "float":
        return lin(t[2][0])
    return {t: 1}


def linkey(d):
    return tuple(sorted(((k, v) for k, v in d.items()), key=lambda x: repr(x[0])))


def norm(t):
    """Normal form of an arithmetic term (commutative/associative +,-,*)."""
    d = lin(t)
    if len(d) == 1:
        (k, v), = d.items()
        if v == 1 and k != ():
            return k
        if k == ():
            return ("const", v)
    return ("lin", linkey(d)) if d else ("const", 0)


def same(a, b) -> bool:
    return a == b or norm(a) == norm(b)


def canon(t):
    """Canonical condition: (key, polarity)."""
    if t[0] == "not":
        k, p = canon(t[1])
        return k, not p
    if t[0] == "call" and t[1] == ("builtin", "bool") and len(t[2]) == 1:
        return canon(t[2][0])
    if t[0] == "cmp":
        op, a, b = t[1], t[2], t[3]
        if op in ("is not", "!=", "not in"):
            k, p = canon(("cmp", {"is not": "is", "!=": "==", "not in": "in"}[op], a, b))
            return k, not p
        if op in ("is", "=="):
            if a == NONE:
                a, b = b, a
            if b == NONE:
                return ("isnone", a), True
            for x, y in ((a, b), (b, a)):
                if y == TRUE and y[1] is True:
                    k, p = canon(x) if x[0] in ("cmp", "not", "call") else (("truthy", x), True)
                    return k, p
                if y == FALSE:
                    k, p = canon(x) if x[0] in ("cmp", "not", "call") else (("truthy", x), True)
                    return k, not p
                if y == ("const", 0) and _islen(x):
                    return ("truthy", x[2][0]), False
                if op == "==" and y[0] == "new" and y[2] in ("list", "dict", "set") and y[3] == "empty":
                    return ("truthy", x), False
                if op == "==" and y == ("tuple",):
                    return ("truthy", x), False
                if op == "==" and y == ("const", ""):
                    return ("truthy", x), False
            # x.__class__ is C
            x, y = sorted((a, b), key=repr)
            return ("is" if op == "is" else "eq", x, y), True
        if op in ("<", ">", "<=", ">="):
            d = lin(("bin", "-", a, b)) if op in ("<", ">=") else lin(("bin", "-", b, a))
            key = linkey(d)
            p = op in ("<", ">")
            # len(x) forms
            if len(d) <= 2:
                lens = [(k, v) for k, v in d.items() if k != () and _islen(k)]
                others = [k for k in d if k != () and not _islen(k)]
                if len(lens) == 1 and not others:
                    (k, v), c = lens[0], d.get((), 0)
                    if v == -1 and c == 0:  # -len < 0  => len > 0
                        return ("truthy", k[2][0]), p
                    if v == 1 and c == -1:  # len - 1 < 0 => len == 0
                        return ("truthy", k[2][0]), not p
            return ("lt0", key), p
        if op == "in":
            if a[0] != "tuple" and b[0] == "call" and b[1][0] == "attr" and b[1][2] == "keys" and not b[2]:
                b = b[1][1]
            return ("in", a, b), True
    if t[0] == "call":
        f = t[1]
        if f == ("builtin", "isinstance") and len(t[2]) == 2:
            return ("isinst", t[2][0], _union(t[2][1])), True
        if f == ("builtin", "issubclass") and len(t[2]) == 2:
            x = t[2][0]
            if x[0] == "attr" and x[2] == "__class__":
                return ("isinst", x[1], _union(t[2][1])), True
            if x[0] == "call" and x[1] == ("builtin", "type") and x[2]:
                return ("isinst", x[2][0], _union(t[2][1])), True
        if f == ("builtin", "len") and len(t[2]) == 1:
            return ("truthy", t[2][0]), True
    return ("truthy", t), True


def _union(c):
    """Class argument of isinstance: A | B is (A, B); nested tuples are flattened."""
    if c[0] == "bin" and c[1] == "|":
        a, b = _union(c[2]), _union(c[3])
        return ("tuple", *(a[1:] if a[0] == "tuple" else (a,)), *(b[1:] if b[0] == "tuple" else (b,)))
    if c[0] == "tuple":
        out = []
        for x in c[1:]:
            y = _union(x)
            out.extend(y[1:] if y[0] == "tuple" else (y,))
        return ("tuple", *out) if len(out) != 1 else out[0]
    return c


STR_FOLD = {"startswith", "endswith", "lower", "upper", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "title", "capitalize"}


def _sometext(x, st):
    """A string that is not empty whatever its parts are."""
    if x[0] == "const":
        return isinstance(x[1], str) and x[1] != ""
    if x[0] == "fstr":
        return any(_sometext(y, st) for y in x[1:])
    if x[0] == "bin" and x[1] == "+":
        return _sometext(x[2], st) or _sometext(x[3], st)
    if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "join" and len(x[2]) == 1:
        its = st.heap.get(("items", x[2][0])) or ()
        return any(_sometext(y, st) for y in its)
    return False


def _islen(x):
    return isinstance(x, tuple) and len(x) == 4 and x[0] == "call" and x[1] == ("builtin", "len") and len(x[2]) == 1


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard",
            "popitem", "sort", "reverse", "difference_update", "appendleft", "popleft"}

SAFE = {"append", "setdefault", "add", "extend", "items", "keys", "values", "copy", "update", "discard", "clear",
        "get_name", "mro", "startswith", "lower", "upper"}
EXC_PARENTS = {
    "KeyError": ["LookupError"], "IndexError": ["LookupError"], "LookupError": ["Exception"],
    "ValueError": ["Exception"], "TypeError": ["Exception"], "AttributeError": ["Exception"],
    "RuntimeError": ["Exception"], "NotImplementedError": ["RuntimeError"], "StopIteration": ["Exception"],
    "AssertionError": ["Exception"], "ZeroDivisionError": ["ArithmeticError"], "ArithmeticError": ["Exception"],
    "Exception": ["BaseException"], "GeneratorExit": ["BaseException"], "KeyboardInterrupt": ["BaseException"],
    "Interrupt": ["SimPyException"], "SimPyException": ["Exception"], "OverflowError": ["ArithmeticError"],
}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


class Cfg:
    """What one rule wants from the walk."""

    def __init__(self, inline=(), opaque=(), unroll=1, max_depth=6, max_paths=20000, raising=None,
                 yield_raises=(), keep=None, track_reads=(), inline_ctor=False, implicit=True,
                 bind=None, inline_all_modules=False, loop_raises=False, inline_props=True, types=None,
                 distinct=False, merge=True, play=(), oracle=None, unroll_for=None, heap=None, defaults=False):
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.unroll = unroll
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.raising = raising
        self.yield_raises = tuple(yield_raises)
        self.keep = keep
        self.track_reads = set(track_reads)
        self.inline_ctor = inline_ctor
        self.implicit = implicit
        self.bind = bind or {}
        self.inline_all_modules = inline_all_modules
        self.inline_props = inline_props
        self.types = types or {}
        self.distinct = distinct
        self.merge = merge
        self.play = set(play)
        self.defaults = defaults
        self.oracle = oracle
        self.heap = heap or {}
        self.unroll_for = unroll if unroll_for is None else unroll_for


class Frame:
    __slots__ = ("fid", "func", "cls", "parent", "self_term")

    def __init__(self, fid, func, cls, parent, self_term):
        self.fid = fid
        self.func = func
        self.cls = cls  # defining class (for super)
        self.parent = parent  # enclosing frame for closures
        self.self_term = self_term


class Walker:
    def __init__(self, prog: Program, cfg: Cfg, known: set[str]):
        self.p = prog
        self.cfg = cfg
        self.known = known
        self.fids = count(1)
        self.frames: dict[int, Frame] = {}
        self.stack: list[Func] = []
        self.lambdas: dict[int, tuple] = {}
        self.trydepth = 0
        self.withs: tuple = ()
        self.self_cls: Class | None = None
        self.inlined: set[str] = set()
        self.steps = 0
        self._wsum: dict = {}

    # -- entry -------------------------------------------------------------
    def run(self, func: Func, self_cls: Class | None) -> list[Path]:
        self.self_cls = self_cls
        self.root = func
        st = State()
        fid = next(self.fids)
        fr = Frame(fid, func, func.cls, None, SELF)
        self.frames[fid] = fr
        loc: dict = {}
        a = func.node.args
        pars = list(a.posonlyargs) + list(a.args)
        if func.cls is not None and func.parent is None and not func.is_static and pars:
            p0 = pars[0].arg
            loc[p0] = ("class", self_cls or func.cls) if func.is_classmethod else SELF
            pars = pars[1:]
        for p in pars + list(a.kwonlyargs):
            loc[p.arg] = ("param", p.arg)
            c = self._ann_class(func.module, p.annotation)
            if c is not None:
                st.types[("param", p.arg)] = c
        for p in (a.vararg, a.kwarg):
            if p is not None:
                loc[p.arg] = ("param", p.arg)
        for k, v in self.cfg.bind.items():
            loc[k] = v
        for k, v in self.cfg.types.items():
            st.types[k] = v
        st.heap.update(self.cfg.heap)
        # closures analysed stand-alone: enclosing names become free params
        st.frames[fid] = loc
        if self_cls is not None:
            st.types[SELF] = self_cls
        elif func.cls is not None:
            st.types[SELF] = func.cls
        self.stack.append(func)
        body = func.node.body if isinstance(func.node.body, list) else [ast.Return(func.node.body)]
        outs = self.block(body, [st], fr)
        self.stack.pop()
        paths = []
        for s, sig in outs:
            if sig is None:
                paths.append(Path(s, "return", NONE))
            elif sig[0] == "return":
                paths.append(Path(s, "return", sig[1]))
            elif sig[0] == "cut" or sig[1] == ("cut",):
                paths.append(Path(s, "cut", NONE))
            elif sig[0] == "raise":
                paths.append(Path(s, "exc" if sig[2] else "raise", sig[1]))
            elif sig[0] == "cut":
                paths.append(Path(s, "cut", NONE))
        return [p for p in paths if not _loops_past(p)]

    # -- events --------------------------------------------------------------
    def emit(self, st: State, ev: Ev):
        ev.loop = st.loop
        ev.trys = self.trydepth
        ev.withs = self.withs
        ev.depth = len(self.stack) - 1
        if ev.kind in ("loop", "iter", "endloop", "break") and ev.term[0] == "call" and ev.term[1] == ("builtin", "enumerate") and ev.term[2]:
            ev.term = ev.term[2][0]     # numbering the elements is no other loop
            if ev.kind == "iter" and ev.value[0] == "tuple" and len(ev.value) == 3:
                ev.value = ev.value[2]
        if self.cfg.keep is not None and not self.cfg.keep(ev):
            return
        st.trace = Node(st.trace, ev)

    def snap(self, st, terms):
        out = {}
        for t in terms:
            for x in subterms(t):
                if x[0] == "new":
                    it = st.heap.get(("items", x))
                    if it is not None:
                        out[x] = it
                        for y in it:
                            if isinstance(y, tuple) and y and y[0] == "new":
                                it2 = st.heap.get(("items", y))
                                if it2 is not None:
                                    out[y] = it2
        return out

    # -- statements -----------------------------------------------------------
    def merge(self, outs):
        if len(outs) < 24 or not self.cfg.merge:
            return outs
        seen = {}
        for s, sig in outs:
            k = (s.key(), sig)
            if k not in seen:
                seen[k] = (s, sig)
        return list(seen.values())

    def block(self, stmts, states, fr):
        """Execute a list of statements. states: list[State] -> list[(State, sig)]"""
        live = [(s, None) for s in states]
        done = []
        for stmt in stmts:
            nxt = []
            for s, _ in live:
                for s2, sig in self.stmt(stmt, s, fr):
                    if sig is None:
                        nxt.append((s2, None))
                    else:
                        done.append((s2, sig))
            nxt = self.merge(nxt)
            if len(nxt) + len(done) > self.cfg.max_paths:
                raise AnalysisBroken(
                    f"path budget exceeded in {fr.func.qual} ({len(nxt) + len(done)} paths)")
            live = nxt
            if not live:
                break
        return live + done

    def stmt(self, n, st, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken(f"statement kind {type(n).__name__} not supported at {fr.func.module.rel}:{n.lineno}")
        return m(n, st, fr)

    def s_Pass(self, n, st, fr):
        return [(st, None)]

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, n, st, fr):
        for a in n.names:
            st.frames[fr.fid][a.asname or a.name.split(".")[0]] = ("ext", a.name)
        return [(st, None)]

    def s_ImportFrom(self, n, st, fr):
        base = self.p._absmod(fr.func.module, n)
        for a in n.names:
            mm = self.p.module_of(base)
            r = self.p.resolve(mm, a.name) if mm else None
            st.frames[fr.fid][a.asname or a.name] = self._resterm(r) if r is not None else ("ext", base + "." + a.name)
        return [(st, None)]

    def s_Expr(self, n, st, fr):
        return [(s, ("raise", v.exc, v.implicit) if isinstance(v, Raise) else None) for s, v in self.ev(n.value, st, fr)]

    def s_Return(self, n, st, fr):
        if n.value is None:
            vals = [(st, NONE)]
        else:
            vals = self.ev(n.value, st, fr)
        out = []
        for s, v in vals:
            if isinstance(v, Raise):
                out.append((s, ("raise", v.exc, v.implicit)))
            else:
                if len(self.stack) == 1:
                    self.emit(s, Ev("return", n, fr.func, value=v, snap=self.snap(s, [v])))
                out.append((s, ("return", v)))
        return out

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            cur = st.frames[fr.fid].get("$exc", ("unk", "reraise"))
            self.emit(st, Ev("raise", n, fr.func, value=cur))
            return [(st, ("raise", cur, False))]
        out = []
        for s, v in self.ev(n.exc, st, fr):
            if isinstance(v, Raise):
                v = v.exc
            self.emit(s, Ev("raise", n, fr.func, value=v))
            out.append((s, ("raise", v, False)))
        return out

    def s_Assert(self, n, st, fr):
        out = []
        for s, b in self.branch(n.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, ("raise", b.exc, b.implicit)))
            elif b:
                out.append((s, None))
            else:
                self.emit(s, Ev("raise", n, fr.func, value=("new", 0, "obj", "AssertionError")))
                out.append((s, ("raise", ("new", 0, "obj", "AssertionError"), False)))
        return out

    def s_Break(self, n, st, fr):
        return [(st, ("break",))]

    def s_Continue(self, n, st, fr):
        return [(st, ("continue",))]

    def s_FunctionDef(self, n, st, fr):
        st.frames[fr.fid][n.name] = self._closure(n, fr)
        return [(st, None)]

    def s_ClassDef(self, n, st, fr):
        st.frames[fr.fid][n.name] = ("unk", "localclass")
        return [(st, None)]

    def _closure(self, n, fr):
        self.lambdas[id(n)] = (n, fr)
        return ("lambda", id(n), fr.fid)

    def s_Assign(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Raise):
                out.append((s, ("raise", v.exc, v.implicit)))
                continue
            cur = [(s, None)]
            for t in n.targets:
                nx = []
                for s2, sig in cur:
                    if sig is not None:
                        nx.append((s2, sig))
                    else:
                        nx.extend(self.assign(t, v, s2, fr, n))
                cur = nx
            out.extend(cur)
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Raise):
                out.append((s, ("raise", v.exc, v.implicit)))
                continue
            c = self._ann_class(fr.func.module, n.annotation)
            if c is not None and v[0] not in ("const", "new"):
                s.types.setdefault(v, c)
            out.extend(self.assign(n.target, v, s, fr, n))
        return out

    def s_AugAssign(self, n, st, fr):
        load = ast.copy_location(_as_load(n.target), n)
        ast.fix_missing_locations(load)
        op = _OPS.get(type(n.op), "?")
        out = []
        for s, v in self.evs([load, n.value], st, fr):
            if isinstance(v, Raise):
                out.append((s, ("raise", v.exc, v.implicit)))
                continue
            a, b = v
            if op == "|" and (u := self._setunion(s, a, b)) is not None:
                out.extend(self.assign(n.target, u, s, fr, n, aug=(op, b)))
                continue
            if a[0] == "new" and a[2] == "list" and op == "+":
                self._extend(s, a, b)
                out.append((s, None))
                continue
            out.extend(self.assign(n.target, self._bin(op, a, b), s, fr, n, aug=(op, b)))
        return out

    def s_Delete(self, n, st, fr):
        cur = [(st, None)]
        for t in n.targets:
            nx = []
            for s, sig in cur:
                if sig is not None:
                    nx.append((s, sig))
                    continue
                if isinstance(t, ast.Name):
                    s.frames[fr.fid].pop(t.id, None)
                    nx.append((s, None))
                    continue
                if isinstance(t, ast.Subscript):
                    found = [(q, b if isinstance(b, Raise) else ("sub", b[0], b[1])) for q, b in self.evs([t.value, t.slice], s, fr)]
                else:
                    found = self.ev(_as_load(t), s, fr, noread=True)
                for s2, v in found:
                    if isinstance(v, Raise):
                        nx.append((s2, ("raise", v.exc, v.implicit)))
                        continue
                    if self._implicit_here():
                        s3 = s2.fork()
                        nx.append((s3, ("raise", ("unk", "del"), True)))
                    self.emit(s2, Ev("del", n, fr.func, target=v))
                    self._invalidate_target(s2, v)
                    if v[0] == "sub" and v[1][0] == "new" and s2.heap.get(("items", v[1])) is not None:
                        self._del_item(s2, v[1], v[2])
                    nx.append((s2, None))
            cur = nx
        return cur

    def assign(self, t, v, st, fr, n, aug=None):
        if isinstance(t, ast.Name):
            tgt_f = self._lookup_frame(t.id, st, fr) if self._is_nonlocal(t.id, fr) else fr
            if tgt_f is None:
                self.emit(st, Ev("write", n, fr.func, target=("glob", fr.func.module.name, t.id), value=v, aug=aug))
            else:
                st.frames[tgt_f.fid][t.id] = v
            return [(st, None)]
        if isinstance(t, ast.Tuple | ast.List):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            parts = []
            items = self._items_of(st, v)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    parts.append((e.value, ("sub", v, ("slice", ("const", i), NONE, NONE))))
                elif items is not None and not star and len(items) == len(t.elts):
                    parts.append((e, items[i]))
                elif items is not None and star and i < star[0] and i < len(items):
                    parts.append((e, items[i]))
                else:
                    j = i if not star or i < star[0] else i - len(t.elts)
                    parts.append((e, ("sub", v, ("const", j))))
            cur = [(st, None)]
            for e, pv in parts:
                nx = []
                for s, sig in cur:
                    nx.extend(self.assign(e, pv, s, fr, n) if sig is None else [(s, sig)])
                cur = nx
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr, n)
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st, fr):
                if isinstance(b, Raise):
                    out.append((s, ("raise", b.exc, b.implicit)))
                    continue
                out.extend(self._store(("attr", b, t.attr), v, s, fr, n, aug))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, bv in self.evs([t.value, t.slice], st, fr):
                if isinstance(bv, Raise):
                    out.append((s, ("raise", bv.exc, bv.implicit)))
                    continue
                out.extend(self._store(("sub", bv[0], bv[1]), v, s, fr, n, aug))
            return out
        raise AnalysisBroken(f"assignment target {ast.dump(t)[:60]}")

    def _store(self, target, v, st, fr, n, aug=None):
        # property setters of the analysed class are inlined
        if target[0] == "attr" and target[1] == SELF and self.self_cls is not None:
            for c in self.self_cls.mro_classes:
                if target[2] in c.setters:
                    f = c.setters[target[2]]
                    if f not in self.stack and self._policy(f, True):
                        outs = []
                        for s, r in self.inline(f, [v], {}, st, SELF, n, fr):
                            outs.append((s, ("raise", r.exc, r.implicit) if isinstance(r, Raise) else None))
                        return outs
                    break
                if target[2] in c.methods:
                    break
        target = self._canon_target(target)
        self._invalidate_target(st, target)
        self.emit(st, Ev("write", n, fr.func, target=target, value=v, aug=aug, snap=self.snap(st, [v])))
        st.heap[target] = v
        if target[0] == "sub" and target[1][0] == "new":
            its = st.heap.get(("items", target[1]))
            if target[1][2] == "dict" and its is not None:
                st.heap[("items", target[1])] = tuple(x for x in its if x[1] != target[2]) + (("tuple", target[2], v),)
        t = self.type_of(v, st)
        if t is not None:
            st.types.setdefault(target, t)
        return [(st, None)]

    def _canon_target(self, target):
        # obj.__dict__["x"] is obj.x storage: keep, but canonical
        return target

    def _invalidate_target(self, st, target):
        if target[0] == "attr":
            nm = target[2]
            for k in [k for k in st.facts if has_attr(k, nm)]:
                del st.facts[k]
            for k in [k for k in st.heap if k[0] != "items" and k != target and (has_attr(k[1], nm) or (k[0] == "attr" and k[2] == nm and k[1][0] not in ("new",) and target[1][0] not in ("new",) and k[1] != target[1] and False))]:
                del st.heap[k]
        elif target[0] == "sub":
            b = target[1]
            for k in [k for k in st.facts if contains(k, b)]:
                # facts about other keys of b are kept, facts about b itself go
                if not (k[0] == "in" and k[1] != target[2] and k[2] == b):
                    del st.facts[k]
            for k in [k for k in st.heap if k[0] == "sub" and k[1] == b and k[2] != target[2] and not (k[2][0] == "const" and target[2][0] == "const")]:
                del st.heap[k]
            if st.heap.get(target) is not None:
                del st.heap[target]

    def s_If(self, n, st, fr):
        out = []
        for s, b in self.branch(n.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, ("raise", b.exc, b.implicit)))
            else:
                out.extend(self.block(n.body if b else n.orelse, [s], fr))
        return self.merge(out)

    def s_While(self, n, st, fr):
        out = []
        live = [st]
        st.loop += 1
        const_true = isinstance(n.test, ast.Constant) and bool(n.test.value)
        for it in range(self.cfg.unroll + 1):
            nxt = []
            for s in live:
                last = it == self.cfg.unroll
                if last and const_true:
                    s.loop -= 1
                    out.append((s, ("cut",)))
                    continue
                for s2, b in self.branch(n.test, s, fr, force=False if last else None):
                    if isinstance(b, Raise):
                        s2.loop -= 1
                        out.append((s2, ("raise", b.exc, b.implicit)))
                        continue
                    if not b:
                        s2.loop -= 1
                        out.extend(self.block(n.orelse, [s2], fr) if n.orelse else [(s2, None)])
                        continue
                    if last:
                        continue
                    for s3, sig in self.block(n.body, [s2], fr):
                        if sig is None or sig[0] == "continue":
                            nxt.append(s3)
                        elif sig[0] == "break":
                            s3.loop -= 1
                            out.append((s3, None))
                        else:
                            s3.loop -= 1
                            out.append((s3, sig))
            live = nxt
            if len(live) > 24 and self.cfg.merge:
                seen = {}
                for s in live:
                    seen.setdefault(s.key(), s)
                live = list(seen.values())
        return self.merge(out)

    def s_For(self, n, st, fr):
        out = []
        for s, itv in self.ev(n.iter, st, fr):
            if isinstance(itv, Raise):
                out.append((s, ("raise", itv.exc, itv.implicit)))
                continue
            out.extend(self._loop(n, itv, s, fr, n.target, n.body, n.orelse))
        return self.merge(out)

    def _loop(self, n, itv, s, fr, target, body, orelse):
        out = []
        lit = self._literal_iter(s, itv)
        s.loop += 1
        self.emit(s, Ev("loop", n, fr.func, term=itv))
        if lit is not None:
            seqs = [lit]
        else:
            el = self.elem(itv, s)
            seqs = [[el] * k for k in range(0, self.cfg.unroll_for + 1)]
        for seq in seqs:
            live = [s.fork()]
            for el in seq:
                nxt = []
                for s1 in live:
                    self.emit(s1, Ev("iter", n, fr.func, term=itv, value=el))
                    for s2, sig in self.assign(target, el, s1, fr, n):
                        for s3, sg in self.block(body, [s2], fr):
                            if sg is None or sg[0] == "continue":
                                nxt.append(s3)
                            elif sg[0] == "break":
                                s3.loop -= 1
                                self.emit(s3, Ev("break", n, fr.func, term=itv))
                                out.append((s3, None))
                            else:
                                s3.loop -= 1
                                out.append((s3, sg))
                live = nxt
            for s1 in live:
                s1.loop -= 1
                self.emit(s1, Ev("endloop", n, fr.func, term=itv))
                out.extend(self.block(orelse, [s1], fr) if orelse else [(s1, None)])
        return out

    def _literal_iter(self, st, t):
        if t[0] == "call" and t[1][0] == "builtin" and t[2] and not t[3]:
            n = t[1][1]
            if n in ("reversed", "list", "tuple", "iter", "enumerate"):
                it = self._literal_iter(st, t[2][0])
                if it is None:
                    return None
                if n == "enumerate":
                    return [("tuple", ("const", i), x) for i, x in enumerate(it)]
                return it[::-1] if n == "reversed" else it
            if n == "zip":
                its = [self._literal_iter(st, x) for x in t[2]]
                return None if any(i is None for i in its) else [("tuple", *z) for z in zip(*its)]
        if t[0] == "tuple" and len(t) <= 9:
            return list(t[1:])
        if t[0] == "new" and t[2] in ("list",):
            it = st.heap.get(("items", t))
            if it is not None and len(it) <= 8 and not any(x[0] in ("star", "each") for x in it):
                return list(it)
        if t[0] == "new" and t[2] == "set":
            it = st.heap.get(("items", t))
            if it is not None and len(it) <= 8 and all(x[0] == "const" for x in it):
                return sorted(set(it), key=lambda x: repr(x)[::-1], reverse=True)  # in no particular order
        view = "keys"
        d = t
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("items", "keys", "values") and not t[2]:
            view, d = t[1][2], t[1][1]
        if d[0] == "new" and d[2] == "dict":
            it = st.heap.get(("items", d))
            if it is not None and len(it) <= 8 and all(x[0] == "tuple" and len(x) == 3 for x in it):
                return [x if view == "items" else x[1] if view == "keys" else x[2] for x in it]
        return None

    def elem(self, t, st):
        """Element term of an iterable."""
        if t[0] == "call":
            n = last_name(t[1])
            f = t[1]
            if f[0] == "builtin" and t[2]:
                if n == "enumerate":
                    return ("tuple", ("idx", strip_iter(t[2][0])), self.elem(t[2][0], st))
                if n == "zip":
                    return ("tuple",) + tuple(self.elem(x, st) for x in t[2])
                if n in ("list", "tuple", "reversed", "sorted", "iter", "set", "frozenset"):
                    return self.elem(t[2][0], st)
                if n == "range":
                    if len(t[2]) == 1 and _islen(t[2][0]):
                        return ("idx", strip_iter(t[2][0][2][0]))
                    return ("elem", t)
                if n == "map" and len(t[2]) == 2:
                    return ("call", t[2][0], (self.elem(t[2][1], st),), ())
            if f[0] == "attr":
                if n == "items" and not t[2]:
                    d = strip_iter(f[1])
                    return ("tuple", ("elem", d), ("sub", d, ("elem", d)))
                if n == "values" and not t[2]:
                    d = strip_iter(f[1])
                    return ("sub", d, ("elem", d))
                if n in ("keys", "copy") and not t[2]:
                    return self.elem(f[1], st)
        if t[0] == "sub" and t[2][0] == "slice":
            return ("elem", t)
        if t[0] == "comp":
            return t[2]
        if t[0] == "new" and t[2] == "list":
            it = st.heap.get(("items", t))
            if it:
                for x in it:
                    if x[0] in ("star", "each"):
                        return self.elem(x[1], st) if x[0] == "star" else x[1]
                return it[0]
        return ("elem", t)

    def s_Try(self, n, st, fr):
        has_h = bool(n.handlers)
        self.trydepth += 1
        if has_h or n.finalbody:
            self._try_stack = getattr(self, "_try_stack", [])
            self._try_stack.append(n)
        outs = self.block(n.body, [st], fr)
        if has_h or n.finalbody:
            self._try_stack.pop()
        self.trydepth -= 1
        res = []
        for s, sig in outs:
            if sig is not None and sig[0] == "raise" and has_h:
                res.extend(self._handle(n, s, sig, fr))
            elif sig is None and n.orelse:
                res.extend(self.block(n.orelse, [s], fr))
            else:
                res.append((s, sig))
        if n.finalbody:
            fin = []
            for s, sig in res:
                for s2, sg in self.block(n.finalbody, [s], fr):
                    fin.append((s2, sg if sg is not None else sig))
            res = fin
        return self.merge(res)

    def _handle(self, n, st, sig, fr):
        exc, implicit = sig[1], sig[2]
        if exc == ("cut",):
            return [(st, sig)]
        names = self._exc_ancestry(exc)
        out = []
        rest = True
        for h in n.handlers:
            hn = self._handler_names(h, fr)
            if hn is None:
                verdict = "yes"
            elif names is None:
                verdict = "yes" if ("Exception" in hn or "BaseException" in hn) and exc[0] != "intr" else "maybe"
                if exc[0] == "implicit" and verdict == "maybe":
                    # interrupts and generator exits only arrive at a yield, stops only from advancing a generator
                    may = [x for x in hn if x not in ("Interrupt", "GeneratorExit") and (
                        x != "StopIteration" or exc[1] in ("next", "send", "__next__", "throw"))]
                    if exc[1] == "subscript":
                        may = [x for x in may if x in ("LookupError", "KeyError", "IndexError", "TypeError")]
                    if not may:
                        verdict = "no"
            else:
                verdict = "yes" if any(x in names for x in hn) else "no"
            if verdict == "no":
                continue
            s = st.fork() if verdict == "maybe" else st
            self.emit(s, Ev("catch", h, fr.func, name="|".join(hn) if hn else "*", term=exc))
            if h.name:
                s.frames[fr.fid][h.name] = ("caught", exc) if names is None else exc
                if names is None and hn and len(hn) == 1:
                    s.frames[fr.fid][h.name] = ("caught", ("excof", hn[0], exc))
            old = s.frames[fr.fid].get("$exc")
            s.frames[fr.fid]["$exc"] = exc
            for s2, sg in self.block(h.body, [s], fr):
                if old is None:
                    s2.frames[fr.fid].pop("$exc", None)
                else:
                    s2.frames[fr.fid]["$exc"] = old
                out.append((s2, sg))
            if verdict == "yes":
                rest = False
                break
        if rest:
            out.append((st, sig))
        return out

    def _handler_names(self, h, fr):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split(".")[-1] for t in ts]

    def _exc_ancestry(self, exc):
        """All class names exc is an instance of, or None when unknown."""
        if exc[0] == "intr":
            base = exc[1]
        elif exc[0] == "new":
            base = str(exc[3]).split(":")[-1].split(".")[-1]
        elif exc[0] == "class":
            base = exc[1].name
        elif exc[0] == "builtin":
            base = exc[1]
        elif exc[0] == "ext":
            base = exc[1].split(".")[-1]
        else:
            return None
        seen = []
        todo = [base]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.append(b)
            if b in EXC_PARENTS:
                todo.extend(EXC_PARENTS[b])
            elif b in self.p.by_class:
                todo.extend(x.name if isinstance(x, Class) else x.split(".")[-1] for x in self.p.by_class[b][0].bases)
        if "BaseException" not in seen:
            seen += ["Exception", "BaseException"]
        return seen

    def s_With(self, n, st, fr):
        return self._with_items(n, list(n.items), st, fr)

    def _with_items(self, n, items, st, fr):
        if not items:
            return self.block(n.body, [st], fr)
        it, rest = items[0], items[1:]
        out = []
        for s, v in self.ev(it.context_expr, st, fr):
            if isinstance(v, Raise):
                out.append((s, ("raise", v.exc, v.implicit)))
                continue
            self.emit(s, Ev("with", n, fr.func, term=v))
            if it.optional_vars is not None:
                for s2, sig in self.assign(it.optional_vars, ("entered", v), s, fr, n):
                    pass
            old = self.withs
            self.withs = old + (v,)
            for s2, sig in self._with_items(n, rest, s, fr):
                self.withs = old
                self.emit(s2, Ev("endwith", n, fr.func, term=v))
                if sig is not None and sig[0] == "raise" and call_name(v) == "suppress":
                    hn = [last_name(a) for a in v[2]]
                    names = self._exc_ancestry(sig[1])
                    if names is None or any(x in names for x in hn):
                        if names is None:
                            out.append((s2.fork(), sig))
                        out.append((s2, None))
                        continue
                out.append((s2, sig))
            self.withs = old
        return out

    def s_Match(self, n, st, fr):
        # lowered to a chain of equality tests
        out = []
        for s, v in self.ev(n.subject, st, fr):
            if isinstance(v, Raise):
                out.append((s, ("raise", v.exc, v.implicit)))
                continue
            live = [s]
            for case in n.cases:
                nxt = []
                for s1 in live:
                    pat = case.pattern
                    opts = pat.patterns if isinstance(pat, ast.MatchOr) else [pat]
                    if isinstance(pat, ast.MatchAs) and pat.pattern is None and case.guard is None:
                        if pat.name:
                            s1.frames[fr.fid][pat.name] = v
                        out.extend(self.block(case.body, [s1], fr))
                        continue
                    conds = []
                    for o in opts:
                        if isinstance(o, ast.MatchValue):
                            r = self.ev(o.value, s1, fr)
                            conds.append(("cmp", "==", v, r[0][1]))
                        elif isinstance(o, ast.MatchSingleton):
                            conds.append(("cmp", "is", v, ("const", o.value)))
                        elif isinstance(o, ast.MatchClass):
                            r = self.ev(o.cls, s1, fr)
                            conds.append(("call", ("builtin", "isinstance"), (v, r[0][1]), ()))
                        else:
                            conds.append(("unk", f"match{id(o)}"))
                    cur = [s1]
                    for c in conds:
                        nn = []
                        for s2 in cur:
                            for s3, b in self.decide(c, s2, fr, n):
                                if b:
                                    if case.guard is not None:
                                        for s4, gb in self.branch(case.guard, s3, fr):
                                            if gb:
                                                out.extend(self.block(case.body, [s4], fr))
                                            else:
                                                nxt.append(s4)
                                    else:
                                        out.extend(self.block(case.body, [s3], fr))
                                else:
                                    nn.append(s3)
                        cur = nn
                    nxt.extend(cur)
                live = nxt
            out.extend((s1, None) for s1 in live)
        return out

    # -- conditions --------------------------------------------------------------
    def branch(self, e, st, fr, force=None):
        """Evaluate e as a condition -> [(state, bool | Raise)]."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            f = None if force is None else not force
            return [(s, b if isinstance(b, Raise) else not b) for s, b in self.branch(e.operand, st, fr, f)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out = []
            live = [st]
            for i, v in enumerate(e.values):
                nx = []
                last = i == len(e.values) - 1
                for s in live:
                    fo = force if (last or (force is not None and force == isand)) else None
                    for s2, b in self.branch(v, s, fr, fo):
                        if isinstance(b, Raise):
                            out.append((s2, b))
                        elif b == isand:
                            nx.append(s2)
                        else:
                            if force is None or force == b:
                                out.append((s2, b))
                live = nx
            if force is None or force == isand:
                out.extend((s, isand) for s in live)
            return out
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            vals = [e.left] + e.comparators
            parts = [ast.copy_location(ast.Compare(vals[i], [e.ops[i]], [vals[i + 1]]), e) for i in range(len(e.ops))]
            return self.branch(ast.copy_location(ast.BoolOp(ast.And(), parts), e), st, fr, force)
        if isinstance(e, ast.NamedExpr):
            out = []
            for s, v in self.ev(e, st, fr):
                if isinstance(v, Raise):
                    out.append((s, v))
                else:
                    out.extend(self.decide(v, s, fr, e, force))
            return out
        # any/all over a generator or literal are loops
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and self._lookup(e.func.id, st, fr) is None:
            out = []
            for s, v in self.ev(e, st, fr):
                if isinstance(v, Raise):
                    out.append((s, v))
                else:
                    out.extend(self.decide(v, s, fr, e, force))
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(self.decide(v, s, fr, e, force))
        return out

    def decide(self, t, st, fr, node, force=None):
        """Fork on the truth of term t."""
        if t[0] == "not":
            f = None if force is None else not force
            return [(s, not b) for s, b in self.decide(t[1], st, fr, node, f)]
        if t[0] in ("and", "or"):
            isand = t[0] == "and"
            out, live = [], [st]
            for x in t[1:]:
                nx = []
                for s in live:
                    for s2, b in self.decide(x, s, fr, node):
                        (nx if b == isand else out).append(s2 if b == isand else (s2, b))
                live = nx
            return out + [(s, isand) for s in live]
        if t[0] == "call" and t[1] in (("builtin", "any"), ("builtin", "all")) and len(t[2]) == 1:
            it = self._literal_iter(st, t[2][0])
            if it is not None and it:
                return self.decide((("or",) if t[1][1] == "any" else ("and",)) + tuple(it), st, fr, node, force)
        if t[0] == "cmp" and t[1] in ("==", "!="):
            for x in t[2:]:
                if x[0] == "new" and x[3] == "empty" and st.heap.get(("items", x)):
                    t = ("cmp", t[1], *(("new", y[1], y[2], "filled") if y == x else y for y in t[2:]))
                    st.heap[("items", ("new", x[1], x[2], "filled"))] = st.heap[("items", x)]
        key, pol = canon(t)
        known = self.lookup_fact(key, st)
        if known is None and self.cfg.oracle is not None:
            known = self.cfg.oracle("cond", key, st)
        if known is not None and force is None:
            return [(st, known == pol)]
        out = []
        for b in (True, False):
            if force is not None and b != force:
                continue
            s = st.fork() if force is None else st
            kv = b == pol
            s.facts[key] = kv
            if key[0] == "isinst" and kv:
                c = key[2]
                if c[0] == "class":
                    s.types.setdefault(key[1], c[1])
            self.emit(s, Ev("cond", node, fr.func, term=key, pol=kv))
            out.append((s, b))
        return out

    def lookup_fact(self, key, st):
        if key in st.facts:
            return st.facts[key]
        o = key[0]
        x = key[1] if len(key) > 1 else None
        if o in ("truthy", "isnone"):
            if x[0] == "const":
                return bool(x[1]) if o == "truthy" else x[1] is None
            if o == "isnone":
                if x[0] in ("new", "tuple", "func", "class", "lambda", "bm", "cmp", "fstr", "comp", "mod", "bin", "gen"):
                    return False
                if st.facts.get(("truthy", x)) is True:
                    return False
                for k, v in st.facts.items():
                    if v and k[0] == "isinst" and k[1] == x:
                        return False
                    if v and k[0] in ("eq", "is") and x in k[1:] and any(y[0] == "const" and y[1] is not None for y in k[1:]):
                        return False
            else:
                if st.facts.get(("isnone", x)) is True:
                    return False
                if x[0] == "tuple":
                    return len(x) > 1
                if x[0] in ("func", "class", "lambda", "bm", "mod", "gen"):
                    return True
                if _sometext(x, st):
                    return True
                if x[0] == "new" and x[2] == "obj":
                    return True if x[3] not in ("unk",) and not str(x[3]).startswith("ext?") else None
                if x[0] == "new" and x[2] in ("list", "dict", "set"):
                    it = st.heap.get(("items", x))
                    if it is not None and not any(i[0] in ("star", "each") for i in it):
                        return len(it) > 0
        if o in ("eq", "is"):
            a, b = key[1], key[2]
            if a == b and not contains(a, lambda y: y[0] in ("unk", "yielded")):
                return True
            if a[0] == "const" and b[0] == "const":
                return a[1] == b[1]
            if o == "eq" and a[0] == b[0] == "new" and a[2] == b[2] == "set":
                its = [self._literal_iter(st, x) for x in (a, b)]
                if None not in its and all(x[0] == "const" for it in its for x in it):
                    return set(its[0]) == set(its[1])
            for x, y in ((a, b), (b, a)):
                if y[0] == "const":
                    for k, v in st.facts.items():
                        if v and k[0] in ("eq", "is") and x in k[1:]:
                            oth = k[2] if k[1] == x else k[1]
                            if oth[0] == "const" and oth[1] != y[1]:
                                return False
                        if v and k == ("isnone", x) and y[1] is not None:
                            return False
                if y[0] in ("attr", "class", "glob") and o == "is":
                    pass
        if o == "in" and key[2][0] == "tuple":
            its = key[2][1:]
            if key[1][0] == "const" and all(i[0] == "const" for i in its):
                return key[1] in its
        if o == "in" and key[2][0] == "new" and key[1][0] == "const":
            its = st.heap.get(("items", key[2]))
            if its is not None and key[2][2] == "dict" and all(i[0] == "tuple" for i in its):
                its = [i[1] for i in its]

            if its is not None and all(i[0] == "const" for i in its):
                return key[1] in its
        if o == "lt0":
            d = dict(key[1])
            if set(d) <= {()}:
                return d.get((), 0) < 0
            # opposite orientation / implied by a known strict bound with the same terms
            neg = linkey({k: -v for k, v in d.items()})
            if st.facts.get(("lt0", neg)) is True:
                return False
        if o == "isinst":
            if key[1] == NONE:
                return False
            if st.facts.get(("isnone", key[1])) is True:
                return False
            x = key[1]
            if x[0] == "new" and x[2] == "obj" and key[2][0] == "class":
                cs = [c for c in self.p.classes() if c.qual == x[3]]
                if cs:
                    return key[2][1] in cs[0].mro
            if x == SELF and self.self_cls is not None and key[2][0] == "class":
                r = self._related(self.self_cls, key[2])
                if r is not None:
                    return r
            for k, v in st.facts.items():
                if v and k[0] == "isinst" and k[1] == x and k[2][0] == "class":
                    r = self._related(k[2][1], key[2])
                    if r is not None:
                        return r
            if x[0] == "new" and x[2] in ("list", "dict", "set") and key[2][0] == "builtin":
                return x[2] == key[2][1]
            if x[0] == "const" and key[2][0] == "builtin":
                return type(x[1]).__name__ == key[2][1] or (key[2][1] == "int" and isinstance(x[1], bool))
        return None

    def _related(self, c, d):
        """Is an instance of class c one of d?  None when a subclass may be."""
        if d[0] == "class":
            if d[1] in c.mro:
                return True
            if any(c in k.mro and d[1] in k.mro for k in self.p.classes()):
                return None
            return False
        if d[0] == "ext":
            nm = d[1].split(".")[-1]

            def bases(k):
                return any(not isinstance(b, Class) and str(b).split(".")[-1] == nm for m in k.mro_classes for b in m.bases)

            if bases(c):
                return True
            return None if any(c in k.mro and bases(k) for k in self.p.classes()) else False
        return None

    # -- expressions ----------------------------------------------------------
    def evs(self, exprs, st, fr):
        """Evaluate a list of expressions left to right -> [(state, [terms] | Raise)]."""
        live = [(st, [])]
        done = []
        for e in exprs:
            nx = []
            for s, vals in live:
                for s2, v in self.ev(e, s, fr):
                    if isinstance(v, Raise):
                        done.append((s2, v))
                    else:
                        nx.append((s2, vals + [v]))
            live = nx
        return live + done

    def ev(self, e, st, fr, noread=False):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken(f"expression kind {type(e).__name__} not supported at {fr.func.module.rel}:{e.lineno}")
        if noread and isinstance(e, ast.Attribute | ast.Subscript):
            return m(e, st, fr, True)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return [(st, ("const", e.value))]

    def e_Name(self, e, st, fr):
        v = self._lookup(e.id, st, fr)
        if v is None:
            v = self._global(e.id, fr)
        return [(st, v)]

    def _lookup_frame(self, name, st, fr):
        f = fr
        while f is not None:
            if name in st.frames.get(f.fid, {}):
                return f
            f = f.parent
        return None

    def _lookup(self, name, st, fr):
        f = self._lookup_frame(name, st, fr)
        return st.frames[f.fid][name] if f is not None else None

    def _is_nonlocal(self, name, fr):
        for n in ast.walk(fr.func.node) if fr.func else []:
            if isinstance(n, ast.Nonlocal | ast.Global) and name in n.names:
                return True
        return False

    def _global(self, name, fr):
        r = self.p.resolve(fr.func.module, name)
        if r is not None:
            return self._resterm(r)
        if name in BUILTINS:
            return ("builtin", name)
        return ("free", name)

    def _resterm(self, r):
        if isinstance(r, Func):
            return ("func", r)
        if isinstance(r, Class):
            return ("class", r)
        if isinstance(r, Module):
            return ("mod", r)
        if r[0] == "global":
            m = self.p.modules[r[1]]
            v = m.globals[r[2]]
            if isinstance(v, ast.Constant) and (r[2].isupper() or r[2].startswith("_")):
                return ("const", v.value)
            return ("glob", r[1], r[2])
        return ("ext", r[1])

    def e_Attribute(self, e, st, fr, noread=False):
        out = []
        for s, b in self.ev(e.value, st, fr):
            if isinstance(b, Raise):
                out.append((s, b))
                continue
            out.extend(self._getattr(b, e.attr, s, fr, e, noread))
        return out

    def _getattr(self, b, name, st, fr, node, noread=False):
        if b[0] == "mod":
            r = self.p.resolve(b[1], name)
            return [(st, self._resterm(r) if r is not None else ("attr", b, name))]
        if b[0] == "ext":
            return [(st, ("ext", b[1] + "." + name))]
        if b[0] == "super":
            f = self._super_find(b, name)
            if f is not None and f.is_property:
                if self.cfg.inline_props and self._prop_policy(f, b):
                    return self.inline(f, [], {}, st, b[2], node, fr)
                return [(st, ("attr", b, name))]
            if f is not None:
                return [(st, ("bm", b[2], f))]
            return [(st, ("attr", b, name))]
        if b[0] == "class":
            f = b[1].find(name)
            if f is not None:
                if f.is_classmethod:
                    return [(st, ("bm", b, f))]
                return [(st, ("func", f))]
            for c in b[1].mro_classes:
                if name in c.attrs and isinstance(c.attrs[name], ast.Constant):
                    return [(st, ("attr", b, name))]
            return [(st, ("attr", b, name))]
        t = ("attr", b, name)
        if noread:
            return [(st, t)]
        if name in self.cfg.track_reads:
            self.emit(st, Ev("get", node, fr.func, target=t, name=name))
        if t in st.heap:
            return [(st, st.heap[t])]
        c = self.type_of(b, st)
        if c is not None:
            f = c.find(name)
            if f is not None:
                if f.is_property:
                    if self.cfg.inline_props and self._prop_policy(f, b):
                        return self.inline(f, [], {}, st, b, node, fr)
                    ann = self._ann_class(f.module, f.node.returns)
                    if ann is not None:
                        st.types.setdefault(t, ann)
                    return [(st, t)]
                return [(st, ("bm", b, f))]
        return [(st, t)]

    def _prop_policy(self, f, b):
        if f.name in self.cfg.opaque or f.qual in self.cfg.opaque:
            return False
        if f in self.stack or len(self.stack) > self.cfg.max_depth:
            return False
        if f.name in self.cfg.inline or f.qual in self.cfg.inline:
            return True
        return f.qual not in self.known

    def _super_find(self, b, name):
        cls_after, selft = b[1], b[2]
        root = self.self_cls
        if selft[0] == "class":
            root = selft[1]
        if root is None or cls_after not in root.mro:
            root = cls_after
        return root.find(name, after=cls_after)

    def e_Subscript(self, e, st, fr, noread=False):
        out = []
        for s, v in self.evs([e.value, e.slice], st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            b, i = v
            its = self._items_of(s, b)
            if its is not None and i[0] == "const" and type(i[1]) is int and not any(x[0] in ("star", "each") for x in its):
                if -len(its) <= i[1] < len(its):
                    out.append((s, its[i[1]]))
                else:
                    out.append((s, Raise(("intr", "IndexError", "index", 0))))
                continue
            if its is not None and i[0] == "slice" and all(x[0] == "const" and (x[1] is None or type(x[1]) is int) for x in i[1:]) \
                    and not any(x[0] in ("star", "each") for x in its) and i[3] != ("const", 0):
                part = tuple(its)[slice(*(x[1] for x in i[1:]))]
                out.append((s, ("tuple", *part) if b[0] == "tuple" else self._new(s, "list", "lit", part)))
                continue
            if self.cfg.defaults and not noread and b[0] == "new" and b[2] == "dict" and i[0] == "const" and not str(b[3]).startswith("dd:"):
                its = s.heap.get(("items", b))
                if its is not None and ("sub", b, i) not in s.heap and all(x[0] == "tuple" and x[1][0] == "const" and x[1] != i for x in its):
                    out.append((s, Raise(("intr", "KeyError", "key", 0))))
                    continue
            t = self._sub(s, b, i)
            if self._implicit_here() and not noread and i[0] != "slice":
                s2 = s.fork()
                self.emit(s2, Ev("exc", e, fr.func, name="subscript", term=t))
                out.append((s2, Raise(("implicit", "subscript", t), True)))
            out.append((s, t))
        return out

    def _sub(self, s, b, i):
        items = self._items_of(s, b)
        if items is not None and i[0] == "const" and isinstance(i[1], int) and not isinstance(i[1], bool):
            if -len(items) <= i[1] < len(items) and not any(x[0] in ("star", "each") for x in items):
                return items[i[1]]
        if b[0] == "new" and b[2] == "dict":
            for x in reversed(s.heap.get(("items", b)) or ()):
                if x[0] == "tuple" and x[1] == i:
                    return x[2]
                if x[0] in ("star", "each"):
                    break
            its = s.heap.get(("items", b))
            if its is not None and str(b[3]).startswith("dd:") and i[0] == "const" and all(
                    x[0] == "tuple" and x[1][0] == "const" for x in its):
                k = b[3][3:]
                if k == "int":
                    return ("const", 0)
                v = self._new(s, k, "empty", [])
                s.heap[("items", b)] = its + (("tuple", i, v),)
                return v
        t = ("sub", b, i)
        if i[0] == "idx" and i[1] == strip_iter(b):
            return self.elem(b, s)
        if t in s.heap:
            return s.heap[t]
        return t

    def _items_of(self, st, t):
        if t[0] == "tuple":
            return t[1:]
        if t[0] == "new" and t[2] == "list":
            it = st.heap.get(("items", t))
            if it is not None and not any(x[0] in ("star", "each") for x in it):
                return it
        return None

    def e_Slice(self, e, st, fr):
        parts = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        return [(s, v if isinstance(v, Raise) else ("slice", *v)) for s, v in self.evs(parts, st, fr)]

    def e_Tuple(self, e, st, fr):
        return [(s, v if isinstance(v, Raise) else ("tuple", *v)) for s, v in self.evs(e.elts, st, fr)]

    def e_Starred(self, e, st, fr):
        return [(s, v if isinstance(v, Raise) else ("star", v)) for s, v in self.ev(e.value, st, fr)]

    def _new(self, st, kind, label, items=None):
        t = ("new", st.fresh(), kind, label)
        if items is not None:
            if kind == "dict" and len(items) > 1 and all(x[0] == "tuple" and x[1][0] == "const" for x in items):
                items = list({x[1]: x for x in items}.values())
            st.heap[("items", t)] = tuple(items)
        return t

    def e_List(self, e, st, fr):
        out = []
        for s, v in self.evs(e.elts, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            items = []
            for x in v:
                if x[0] == "star":
                    sub = self._items_of(s, x[1])
                    if sub is not None:
                        items.extend(sub)
                        continue
                items.append(x)
            out.append((s, self._new(s, "list", "empty" if not v else "lit", items)))
        return out

    def e_Set(self, e, st, fr):
        return [(s, v if isinstance(v, Raise) else self._new(s, "set", "lit", v)) for s, v in self.evs(e.elts, st, fr)]

    def e_Dict(self, e, st, fr):
        exprs = []
        for k, v in zip(e.keys, e.values):
            exprs += [k if k is not None else ast.Constant(("**",)), v]
        out = []
        for s, vs in self.evs(exprs, st, fr):
            if isinstance(vs, Raise):
                out.append((s, vs))
                continue
            items = []
            for i in range(0, len(vs), 2):
                if vs[i] == ("const", ("**",)):
                    sub = s.heap.get(("items", vs[i + 1]))
                    if vs[i + 1][0] == "new" and sub is not None:
                        items.extend(sub)
                    else:
                        items.append(("star", vs[i + 1]))
                else:
                    items.append(("tuple", vs[i], vs[i + 1]))
            out.append((s, self._new(s, "dict", "empty" if not items else "lit", items)))
        return out

    def e_JoinedStr(self, e, st, fr):
        parts = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
        plain = all(x.conversion == -1 and x.format_spec is None for x in e.values if isinstance(x, ast.FormattedValue))
        return [(s, v if isinstance(v, Raise) else ("const", "".join(str(x[1]) for x in v)) if plain and all(
            x[0] == "const" and type(x[1]) in (str, int) for x in v) else ("fstr", *v)) for s, v in self._fstr(e, parts, st, fr)]

    def _fstr(self, e, parts, st, fr):
        out = []
        for s, v in self.evs(parts, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            res, it = [], iter(v)
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    res.append(next(it))
                elif isinstance(x, ast.Constant):
                    res.append(("const", x.value))
            out.append((s, res))
        return out

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_BinOp(self, e, st, fr):
        op = _OPS.get(type(e.op), "?")
        out = []
        for s, v in self.evs([e.left, e.right], st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            a, b = v
            if op == "|":
                u = self._setunion(s, a, b)
                if u is not None:
                    out.append((s, u))
                    continue
            if op in ("-", "&"):
                u = self._set_less(s, op, a, b)
                if u is not None:
                    out.append((s, u))
                    continue
            if op == "+":
                la, lb = self._items_of(s, a), self._items_of(s, b)
                if a[0] == "new" and a[2] == "list":
                    ia = s.heap.get(("items", a))
                    if ia is not None:
                        ib = lb if lb is not None else (("star", b),)
                        out.append((s, self._new(s, "list", "lit", tuple(ia) + tuple(ib))))
                        continue
                if b[0] == "new" and b[2] == "list" and s.heap.get(("items", b)) is not None:
                    ia = la if la is not None else (("star", a),)
                    out.append((s, self._new(s, "list", "lit", tuple(ia) + tuple(s.heap[("items", b)]))))
                    continue
            dn = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__"}.get(op)
            c = self.type_of(a, s) if dn and a[0] not in ("const", "bin") else None
            if c is not None and any(dn in k.methods for k in c.mro_classes):
                out.append((s, ("call", ("attr", a, dn), (b,), ())))
                continue
            out.append((s, self._bin(op, a, b)))
        return out

    def _set_less(self, s, op, a, b):
        """Difference or intersection of sets of constants."""
        if not (a[0] == b[0] == "new" and a[2] == b[2] == "set"):
            return None
        ia, ib = s.heap.get(("items", a)), s.heap.get(("items", b))
        if ia is None or ib is None or not all(x[0] == "const" for x in (*ia, *ib)):
            return None
        return self._new(s, "set", "lit", tuple(x for x in ia if (x in ib) == (op == "&")))

    def _setunion(self, s, a, b):
        """a | b for sets and dicts whose contents are tracked on at least one side."""
        for kind in ("set", "dict"):
            if any(x[0] == "new" and x[2] == kind and s.heap.get(("items", x)) is not None for x in (a, b)):
                its = []
                for x in (a, b):
                    it = s.heap.get(("items", x)) if x[0] == "new" else None
                    its.extend(it if it is not None else (("star", x),))
                return self._new(s, kind, "lit", its)
        return None

    def _bin(self, op, a, b):
        if a[0] == "const" and b[0] == "const" and isinstance(a[1], int | float) and isinstance(b[1], int | float):
            try:
                return ("const", {"+": lambda: a[1] + b[1], "-": lambda: a[1] - b[1], "*": lambda: a[1] * b[1],
                                  "/": lambda: a[1] / b[1], "//": lambda: a[1] // b[1], "%": lambda: a[1] % b[1],
                                  "**": lambda: a[1] ** b[1]}[op]())
            except Exception:
                pass
        if op == "+" and a[0] == b[0] == "const" and type(a[1]) is type(b[1]) is str:
            return ("const", a[1] + b[1])
        if op == "+" and a == ("const", "") and b[0] in ("fstr", "const"):
            return b
        return ("bin", op, a, b)

    def e_UnaryOp(self, e, st, fr):
        out = []
        for s, v in self.ev(e.operand, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
            elif isinstance(e.op, ast.Not):
                out.append((s, ("not", v) if v[0] != "const" else ("const", not v[1])))
            elif isinstance(e.op, ast.USub):
                out.append((s, ("const", -v[1]) if v[0] == "const" and isinstance(v[1], int | float) else ("neg", v)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, ("unop", type(e.op).__name__, v)))
        return out

    def e_BoolOp(self, e, st, fr):
        # value context: keep as term when operands are side-effect free comparisons
        if all(_pure_cond(v) for v in e.values):
            out = []
            for s, v in self.evs(e.values, st, fr):
                out.append((s, v if isinstance(v, Raise) else ("and" if isinstance(e.op, ast.And) else "or", *v)))
            return out
        isand = isinstance(e.op, ast.And)
        out = []
        live = [st]
        for i, x in enumerate(e.values):
            nx = []
            for s in live:
                for s2, v in self.ev(x, s, fr):
                    if isinstance(v, Raise):
                        out.append((s2, v))
                    elif i == len(e.values) - 1:
                        out.append((s2, v))
                    else:
                        for s3, b in self.decide(v, s2, fr, e):
                            if b == isand:
                                nx.append(s3)
                            else:
                                out.append((s3, v if v[0] not in ("cmp", "not") else ("const", b)))
            live = nx
        return out

    def e_Compare(self, e, st, fr):
        if len(e.ops) > 1:
            vals = [e.left] + e.comparators
            out = []
            for s, v in self.evs(vals, st, fr):
                if isinstance(v, Raise):
                    out.append((s, v))
                else:
                    parts = tuple(("cmp", _CMP[type(e.ops[i])], v[i], v[i + 1]) for i in range(len(e.ops)))
                    out.append((s, ("and", *parts)))
            return out
        return [(s, v if isinstance(v, Raise) else ("cmp", _CMP[type(e.ops[0])], v[0], v[1]))
                for s, v in self.evs([e.left, e.comparators[0]], st, fr)]

    def e_IfExp(self, e, st, fr):
        out = []
        for s, b in self.branch(e.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, b))
            else:
                out.extend(self.ev(e.body if b else e.orelse, s, fr))
        return out

    def e_NamedExpr(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            if not isinstance(v, Raise):
                s.frames[fr.fid][e.target.id] = v
            out.append((s, v))
        return out

    def e_Lambda(self, e, st, fr):
        return [(st, self._closure(e, fr))]

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        vals = self.ev(e.value, st, fr) if e.value is not None else [(st, NONE)]
        out = []
        for s, v in vals:
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            self.emit(s, Ev("yield", e, fr.func, value=v, snap=self.snap(s, [v])))
            self._forget_shared(s)
            if self._env_yield(e, "yield", s, v, fr, out):
                continue
            for x in self.cfg.yield_raises:
                s2 = s.fork()
                self.emit(s2, Ev("exc", e, fr.func, name=x, term=v))
                out.append((s2, Raise(("intr", x), True)))
            out.append((s, ("yielded", s.fresh(), v)))
        return out

    def _env_yield(self, e, kind, s, v, fr, out):
        if self.cfg.oracle is None:
            return False
        r = self.cfg.oracle(kind, v, s)
        if r is None:
            return False
        for s2, (k, t) in r:
            if k != "cut":
                self.emit(s2, Ev("resume", e, fr.func, name=k, term=v, value=t))
            out.append((s2, t if k == "value" else Raise(t if k == "raise" else ("cut",), False)))
        return True

    def _forget_shared(self, s):
        """After a yield other processes may have changed shared attributes."""
        for k in [k for k in s.facts if contains(k, lambda x: x[0] == "attr" or (x[0] == "call" and x[1][0] == "attr"))]:
            del s.facts[k]
        for k in [k for k in s.heap if k[0] in ("attr", "sub") and not (contains(k[1], lambda x: x[0] == "new"))]:
            del s.heap[k]

    def e_YieldFrom(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            if v[0] == "gen":
                f = v[1]
                outs = self.inline(f, list(v[3]), dict(v[4]), s, v[2], e, fr)
                out.extend(outs)
                continue
            self.emit(s, Ev("yieldfrom", e, fr.func, value=v))
            self._forget_shared(s)
            if self._env_yield(e, "yieldfrom", s, v, fr, out):
                continue
            for x in self.cfg.yield_raises:
                s2 = s.fork()
                self.emit(s2, Ev("exc", e, fr.func, name=x, term=v))
                out.append((s2, Raise(("intr", x), True)))
            out.append((s, ("yielded", s.fresh(), v)))
        return out

    # comprehensions: 0 or 1 element, filter conditions recorded as cond events
    def _comp(self, e, elts, st, fr, kind):
        fid = next(self.fids)
        sub = Frame(fid, fr.func, fr.cls, fr, fr.self_term)
        self.frames[fid] = sub
        st.frames[fid] = {}
        if len(e.generators) == 1:
            full = self._comp_literal(e, elts, st, sub, kind)
            if full is not None:
                return full
        st.loop += 1
        outs = self._comp_gen(e, list(e.generators), elts, st, sub)
        res = []
        zero_done = set()
        for s, v, src in outs:
            s.loop -= 1
            s.frames.pop(fid, None)
            if isinstance(v, Raise):
                res.append((s, v))
            elif v is None:
                res.append((s, self._new(s, "list" if kind in ("list", "gen") else kind, "comp0", [])))
            elif kind == "dict":
                res.append((s, self._new(s, "dict", "comp", [("each", ("tuple", v[0], v[1]), src)])))
            else:
                res.append((s, self._new(s, "list" if kind == "gen" else kind, "comp", [("each", v[0], src)])))
        return res

    def _comp_literal(self, e, elts, st, fr, kind):
        """A comprehension over known elements builds known elements."""
        g = e.generators[0]
        probe = st.fork()
        src = self.ev(g.iter, probe, fr)
        if len(src) != 1 or isinstance(src[0][1], Raise):
            return None
        probe, itv = src[0]
        lit = self._literal_iter(probe, itv)
        if lit is None or not lit and not (itv[0] == "new" and not str(itv[3]).startswith("comp")):
            return None
        done, live = [], [(probe, ())]
        self.emit(probe, Ev("loop", e, fr.func, term=itv))
        for el in lit:
            nxt = []
            for s, acc in live:
                self.emit(s, Ev("iter", e, fr.func, term=itv, value=el))
                for s1, sig in self.assign(g.target, el, s, fr, e):
                    cur, out = [s1], []
                    for c in g.ifs:
                        nx = []
                        for s2 in cur:
                            for s3, b in self.branch(c, s2, fr):
                                if isinstance(b, Raise):
                                    done.append((s3, b))
                                elif b:
                                    nx.append(s3)
                                else:
                                    out.append((s3, acc))
                        cur = nx
                    nxt.extend(out)
                    for s2 in cur:
                        for s3, v in self.evs(elts, s2, fr):
                            if isinstance(v, Raise):
                                done.append((s3, v))
                            else:
                                nxt.append((s3, acc + ((("tuple", v[0], v[1]) if kind == "dict" else v[0]),)))
            live = nxt
        res = []
        for s, acc in live:
            self.emit(s, Ev("endloop", e, fr.func, term=itv))
            s.frames.pop(fr.fid, None)
            res.append((s, self._new(s, "list" if kind == "gen" else kind, "lit", acc)))
        for s, v in done:
            s.frames.pop(fr.fid, None)
            res.append((s, v))
        return res

    def _comp_gen(self, e, gens, elts, st, fr):
        if not gens:
            return [(s, v, None) for s, v in self.evs(elts, st, fr)]
        g, rest = gens[0], gens[1:]
        out = []
        for s, itv in self.ev(g.iter, st, fr):
            if isinstance(itv, Raise):
                out.append((s, itv, None))
                continue
            lit = self._literal_iter(s, itv)
            self.emit(s, Ev("loop", e, fr.func, term=itv))
            s0 = s.fork()
            if lit is None or not lit:
                out.append((s0, None, itv))
            self.emit(s0, Ev("endloop", e, fr.func, term=itv))
            if lit is not None and not lit:
                continue
            el = lit[0] if lit else self.elem(itv, s)
            self.emit(s, Ev("iter", e, fr.func, term=itv, value=el))
            for s1, sig in self.assign(g.target, el, s, fr, e):
                live = [s1]
                for c in g.ifs:
                    nx = []
                    for s2 in live:
                        for s3, b in self.branch(c, s2, fr):
                            if isinstance(b, Raise):
                                out.append((s3, b, itv))
                            elif b:
                                nx.append(s3)
                            else:
                                out.append((s3, None, itv))
                    live = nx
                for s2 in live:
                    for s4, v, src in self._comp_gen(e, rest, elts, s2, fr):
                        out.append((s4, v, itv))
        return out

    def e_ListComp(self, e, st, fr):
        return self._comp(e, [e.elt], st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self._comp(e, [e.elt], st, fr, "set")

    def e_GeneratorExp(self, e, st, fr):
        return self._comp(e, [e.elt], st, fr, "gen")

    def e_DictComp(self, e, st, fr):
        return self._comp(e, [e.key, e.value], st, fr, "dict")

    # -- calls --------------------------------------------------------------------
    def _implicit_here(self):
        return self.cfg.implicit and self.trydepth > 0

    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self._lookup("super", st, fr) is None:
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            cls = f.cls if f else None
            if e.args and isinstance(e.args[0], ast.Name):
                r = self.p.resolve(fr.func.module, e.args[0].id)
                if isinstance(r, Class):
                    cls = r
            selft = fr.self_term
            return [(st, ("super", cls, selft))]
        args = list(e.args)
        kws = list(e.keywords)
        exprs = [e.func] + args + [k.value for k in kws]
        out = []
        for s, v in self.evs(exprs, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            f = v[0]
            av = v[1 : 1 + len(args)]
            kv = {}
            extra = []
            for k, val in zip(kws, v[1 + len(args) :]):
                if k.arg is None:
                    its = s.heap.get(("items", val)) if val[0] == "new" and val[2] == "dict" else None
                    if its is not None and all(i[0] == "tuple" and i[1][0] == "const" for i in its):
                        for i in its:
                            kv[i[1][1]] = i[2]
                    else:
                        kv["**"] = val
                else:
                    kv[k.arg] = val
            flat = []
            for a in av:
                if a[0] == "star":
                    its = self._items_of(s, a[1])
                    if its is not None:
                        flat.extend(its)
                        continue
                flat.append(a)
            out.extend(self.call(f, flat, kv, s, e, fr))
        return out

    def call(self, f, args, kw, st, node, fr):
        o = f[0]
        if o == "lambda" and f[1] in self.lambdas:
            return self._call_closure(f, args, kw, st, node, fr)
        if o == "bm":
            fn, recv = f[2], f[1]
            if fn.is_static:
                return self._call_func(fn, args, kw, st, None, node, fr, recv)
            return self._call_func(fn, args, kw, st, recv, node, fr, recv)
        if o == "func":
            fn = f[1]
            if fn.cls is not None and not fn.is_static and fn.parent is None and not fn.is_classmethod:
                # Class.method(self, ...)
                if args:
                    return self._call_func(fn, args[1:], kw, st, args[0], node, fr, args[0])
            return self._call_func(fn, args, kw, st, None, node, fr, None)
        if o == "class":
            return self._construct(f[1], args, kw, st, node, fr)
        if o == "builtin":
            r = self._builtin(f[1], args, kw, st, node, fr)
            if r is not None:
                return r
        if o == "ext" and f[1].split(".")[-1] == "cast" and len(args) == 2:
            return [(st, args[1])]
        return self._opaque(f, args, kw, st, node, fr)

    def _policy(self, fn, self_call):
        if fn in self.stack or len(self.stack) > self.cfg.max_depth:
            return False
        bad = [d for d in fn.decorators if d not in ("property", "staticmethod", "classmethod", "abstractmethod", "override", "abc.abstractmethod", "cached_property", "lru_cache", "functools.lru_cache", "cache", "functools.cache") and not d.endswith(".setter")]
        if bad:
            return False
        if fn.name in self.cfg.opaque or fn.qual in self.cfg.opaque or (fn.cls and f"{fn.cls.name}.{fn.name}" in self.cfg.opaque):
            return False
        if fn.name in self.cfg.inline or fn.qual in self.cfg.inline or (fn.cls and f"{fn.cls.name}.{fn.name}" in self.cfg.inline):
            return True
        if fn.qual not in self.known:
            return True
        if self_call:
            return True
        if fn.cls is None and (fn.module is self.root.module or self.cfg.inline_all_modules):
            return True
        return False

    def _call_func(self, fn, args, kw, st, recv, node, fr, disp):
        self_call = disp is not None and (disp == SELF or disp[0] in ("class", "super"))
        if fn.cls is not None and fn.is_static and disp is None:
            self_call = self.self_cls is not None and fn.cls in self.self_cls.mro
        if self._policy(fn, self_call):
            if fn.is_generator:
                return [(st, ("gen", fn, recv if recv is not None else NONE, tuple(args), tuple(sorted(kw.items()))))]
            return self.inline(fn, args, kw, st, recv, node, fr)
        fterm = ("attr", disp, fn.name) if disp is not None else ("func", fn)
        return self._opaque(fterm, args, kw, st, node, fr, resolved=fn)

    def inline(self, fn, args, kw, st, recv, node, fr):
        self.inlined.add(fn.qual)
        fid = next(self.fids)
        nf = Frame(fid, fn, fn.cls, None, recv if recv is not None else fr.self_term)
        self.frames[fid] = nf
        loc = self._bind(fn.node.args, args, kw, st, fn, recv)
        if loc is None:
            return self._opaque(("func", fn), args, kw, st, node, fr, resolved=fn)
        st.frames[fid] = loc
        return self._run_body(fn, fn.node.body, nf, st, node, fr, (fn, args, kw, recv))

    def _run_body(self, fn, body, nf, st, node, fr, info):
        self.emit(st, Ev("enter", node, fr.func, name=fn.name, resolved=fn, args=tuple(info[1]), kwargs=dict(info[2]), recv=info[3]))
        self.stack.append(fn)
        saved, savedw = self.trydepth, self.withs
        outs = self.block(body, [st], nf)
        self.trydepth, self.withs = saved, savedw
        self.stack.pop()
        res = []
        for s, sig in outs:
            s.frames.pop(nf.fid, None) if not self._captured(s, nf.fid) else None
            if sig is None:
                v = NONE
            elif sig[0] == "return":
                v = sig[1]
            elif sig[0] == "raise":
                v = Raise(sig[1], sig[2])
            elif sig[0] == "cut":
                v = Raise(("cut",), True)
            else:
                v = NONE
            self.emit(s, Ev("exit", node, fr.func, name=fn.name, resolved=fn, value=None if isinstance(v, Raise) else v))
            res.append((s, v))
        return res

    def _captured(self, s, fid):
        def has(v):
            return contains(v, lambda x: x[0] == "lambda" and x[2] == fid)
        return any(any(has(v) for v in f.values()) for f in s.frames.values()) or any(has(v) for v in s.heap.values() if isinstance(v, tuple))

    def _call_closure(self, f, args, kw, st, node, fr):
        n, dfr = self.lambdas[f[1]]
        fn = self.p.func_by_node.get(n)
        depth_ok = len(self.stack) <= self.cfg.max_depth
        if fn is not None and (fn in self.stack or not depth_ok or [d for d in fn.decorators if d not in ("wraps",)]):
            return self._opaque(("free", fn.name), args, kw, st, node, fr, resolved=fn)
        if fn is not None and _has_yield_cached(fn):
            return [(st, ("gen", fn, NONE, tuple(args), tuple(sorted(kw.items()))))]
        if not depth_ok:
            return self._opaque(("free", "lambda"), args, kw, st, node, fr)
        fid = next(self.fids)
        nf = Frame(fid, fn or fr.func, dfr.cls, dfr if dfr.fid in st.frames else None, dfr.self_term)
        self.frames[fid] = nf
        loc = self._bind(n.args, args, kw, st, fn or fr.func, None, dfr)
        if loc is None:
            return self._opaque(("free", "lambda"), args, kw, st, node, fr)
        st.frames[fid] = loc
        if isinstance(n, ast.Lambda):
            r = ast.copy_location(ast.Return(n.body), n.body)
            body = [r]
            dummy = fn or Func("lambda", "<lambda>", n, fr.func.module)
            return self._run_body(dummy, body, nf, st, node, fr, (dummy, args, kw, None))
        return self._run_body(fn, n.body, nf, st, node, fr, (fn, args, kw, None))

    def _bind(self, a, args, kw, st, fn, recv, dfr=None):
        loc = {}
        pos = list(a.posonlyargs) + list(a.args)
        args = list(args)
        if recv is not None and fn.cls is not None and not fn.is_static and pos:
            loc[pos[0].arg] = recv if not fn.is_classmethod else (recv if recv[0] == "class" else ("class", self.self_cls or fn.cls))
            pos = pos[1:]
        kw = dict(kw)
        rest = []
        defaults = dict(zip([p.arg for p in (list(a.posonlyargs) + list(a.args))[len(a.posonlyargs) + len(a.args) - len(a.defaults):]], a.defaults))
        for p in a.kwonlyargs:
            pass
        starred = any(x[0] == "star" for x in args) or "**" in kw
        i = 0
        for p in pos:
            if i < len(args) and args[i][0] != "star":
                loc[p.arg] = args[i]
                i += 1
            elif i < len(args):
                loc[p.arg] = ("sub", args[i][1], ("const", pos.index(p)))
            elif p.arg in kw:
                loc[p.arg] = kw.pop(p.arg)
            elif "**" in kw and p.arg not in defaults:
                loc[p.arg] = ("sub", kw["**"], ("const", p.arg))
            elif p.arg in defaults:
                loc[p.arg] = self._default(defaults[p.arg], fn, st)
            else:
                return None
        if a.vararg is not None:
            extra = args[i:]
            if len(extra) == 1 and extra[0][0] == "star":
                loc[a.vararg.arg] = extra[0][1]
            else:
                loc[a.vararg.arg] = ("tuple", *extra)
        elif i < len(args) and not starred:
            return None
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kw:
                loc[p.arg] = kw.pop(p.arg)
            elif d is not None:
                loc[p.arg] = self._default(d, fn, st)
            elif "**" in kw:
                loc[p.arg] = ("sub", kw["**"], ("const", p.arg))
            else:
                return None
        if a.kwarg is not None:
            if set(kw) == {"**"}:
                loc[a.kwarg.arg] = kw["**"]
            else:
                items = [("tuple", ("const", k), v) if k != "**" else ("star", v) for k, v in kw.items()]
                loc[a.kwarg.arg] = self._new(st, "dict", "lit" if items else "empty", items)
        for p in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs):
            c = self._ann_class(fn.module, p.annotation)
            v = loc.get(p.arg)
            if c is not None and v is not None and v[0] not in ("const", "new", "tuple", "class"):
                st.types.setdefault(v, c)
        return loc

    def _default(self, d, fn, st):
        fr = Frame(-1, fn, fn.cls, None, SELF)
        st.frames[-1] = {}
        r = self.ev(d, st, fr)
        st.frames.pop(-1, None)
        return r[0][1] if r and not isinstance(r[0][1], Raise) else ("unk", "default")

    def _construct(self, c, args, kw, st, node, fr):
        ext = [b for b in c.external_bases()]
        t = ("new", st.fresh(), "obj", c.qual)
        st.types[t] = c
        ev = Ev("call", node, fr.func, name=c.name, fn=("class", c), args=tuple(args), kwargs=kw, resolved=c,
                value=t, snap=self.snap(st, list(args) + list(kw.values())))
        self.emit(st, ev)
        out = []
        init = c.find("__init__")
        if self._implicit_here() and "Exception" not in (self._exc_ancestry(("class", c)) if any(
                isinstance(b, str) and (b in EXC_PARENTS) for b in c.mro) else ()):
            s2 = st.fork()
            out.append((s2, Raise(("implicit", c.name), True)))
        if init is not None and (self.cfg.inline_ctor or init.qual in self.cfg.inline or c.name in self.cfg.inline) and init not in self.stack and len(self.stack) <= self.cfg.max_depth:
            saved = self.self_cls
            for s, v in self._inline_init(init, args, kw, st, t, node, fr, c):
                out.append((s, v if isinstance(v, Raise) else t))
            return out
        # dataclass-like field stores for classes without __init__
        st.heap[("ctor", t)] = ("tuple", *args)
        for k, v in kw.items():
            st.heap.setdefault(("attr", t, k), v)
        if init is None:
            flds = [k for cc in reversed(c.mro_classes) for k in cc.annots]
            for k, v in zip(flds, args):
                st.heap.setdefault(("attr", t, k), v)
        out.append((st, t))
        return out

    def _inline_init(self, init, args, kw, st, t, node, fr, c):
        saved = self.self_cls
        return self.inline(init, args, kw, st, t, node, fr)

    def _opaque(self, f, args, kw, st, node, fr, resolved=None):
        name = last_name(f)
        recv = f[1] if f[0] == "attr" else None
        # model of list/dict literals
        if recv is not None and recv[0] == "new":
            r = self._model_container(recv, name, args, kw, st)
            if r is not None:
                self.emit(st, Ev("call", node, fr.func, name=name, recv=recv, fn=f, args=tuple(args), kwargs=kw,
                                 resolved=resolved, snap=self.snap(st, args), value=r))
                return [(st, r)]
        if recv is not None and recv[0] == "const" and type(recv[1]) is str and name in STR_FOLD and not kw and all(
                a[0] == "const" and type(a[1]) in (str, int) for a in args):
            try:
                return [(st, ("const", getattr(recv[1], name)(*(a[1] for a in args))))]
            except Exception:
                pass
        if f[0] == "ext" and name == "deque" and len(args) <= 1:
            its = [] if not args else self._literal_iter(st, args[0])
            if its is not None:
                return [(st, self._new(st, "list", "lit", its))]
        if self.cfg.defaults and f[0] == "ext" and name == "Counter" and len(args) <= 1 and not kw:
            its = self._literal_iter(st, args[0]) if args else []
            if its is not None and all(x[0] == "const" for x in its):
                return [(st, self._new(st, "dict", "dd:int", [("tuple", x, ("const", its.count(x))) for x in dict.fromkeys(its)]))]
        if self.cfg.defaults and f[0] == "ext" and name == "defaultdict" and len(args) == 1 and args[0][0] == "builtin" and not kw:
            return [(st, self._new(st, "dict", "dd:" + args[0][1], []))]
        isclass = f[0] == "ext" and name and name[:1].isupper()
        if isclass:
            res = ("new", st.fresh(), "obj", f[1])
        elif self.cfg.distinct and f[0] == "attr":
            res = ("call", f, tuple(args), tuple(sorted(kw.items())) + (("#", ("const", st.fresh())),))
        else:
            res = ("call", f, tuple(args), tuple(sorted(kw.items())))
        out = []
        sn = self.snap(st, list(args) + list(kw.values()) + ([recv] if recv else []))
        mk = lambda **x: Ev("call", node, fr.func, name=name, recv=recv, fn=f, args=tuple(args), kwargs=kw,
                            resolved=resolved, snap=sn, **x)
        ev = mk(value=res)
        if self.cfg.oracle is not None:
            r = self.cfg.oracle("call", ev, st)
            if r is not None:
                for s2, (k, t) in r:
                    if k != "cut":
                        self.emit(s2, mk(value=t, raised=k != "value"))
                    out.append((s2, t if k == "value" else Raise(t if k == "raise" else ("cut",), False)))
                return out
        wants = self.cfg.raising is not None and self.cfg.raising(ev)
        if wants or (self._implicit_here() and f[0] not in ("builtin",) and recv is not None and name not in SAFE
                     and not (name == "get" and args)) or (
            self._implicit_here() and name in ("next", "float", "int")):
            s2 = st.fork()
            self.emit(s2, mk(raised=True))
            out.append((s2, Raise(("implicit", name, ("call", f, tuple(args), ())), True)))
        self.emit(st, ev)
        if recv is not None:
            self._effects_of_opaque(recv, name, resolved, st)
        if resolved is not None and isinstance(resolved, Func):
            c = self._ann_class(resolved.module, resolved.node.returns)
            if c is not None:
                st.types.setdefault(res, c)
        cls_ = [a for a in list(args) + list(kw.values()) if a[0] == "lambda" and a[1] in self.lambdas] if name in self.cfg.play else []
        if cls_:
            # what the handed-over function does when called later: bracketed by play/endplay events
            n = self.lambdas[cls_[0][1]][0]
            ps = [("cb", x.arg) for x in n.args.posonlyargs + n.args.args]
            self.emit(st, Ev("play", node, fr.func, name=name, args=tuple(ps)))
            for s2, v in self._call_closure(cls_[0], ps, {}, st, node, fr):
                self.emit(s2, Ev("endplay", node, fr.func, name=name, value=None if isinstance(v, Raise) else v))
                out.append((s2, res))
            return out
        out.append((st, res))
        return out

    def _effects_of_opaque(self, recv, name, resolved, st):
        if recv not in (SELF,) and recv[0] not in ("param", "mod", "class", "builtin"):
            for k in [k for k in st.facts if contains(k, recv)]:
                del st.facts[k]
            if name in MUTATORS:
                for k in [k for k in st.heap if k[0] == "sub" and k[1] == recv]:
                    del st.heap[k]
        if resolved is not None and isinstance(resolved, Func):
            names = self.write_summary(resolved)
            if names:
                for k in [k for k in st.facts if contains(k, lambda x: x[0] == "attr" and x[2] in names)]:
                    del st.facts[k]
                for k in [k for k in st.heap if k[0] == "attr" and k[2] in names and k[1] == recv]:
                    del st.heap[k]

    def write_summary(self, fn, busy=None):
        """Attribute names a repo function may write (transitively through self calls)."""
        if fn in self._wsum:
            return self._wsum[fn]
        busy = busy or set()
        if fn in busy:
            return set()
        busy.add(fn)
        out = set()
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store | ast.Del):
                out.add(n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store | ast.Del) and isinstance(n.value, ast.Attribute):
                out.add(n.value.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in MUTATORS and isinstance(n.func.value, ast.Attribute):
                    out.add(n.func.value.attr)
                if isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and fn.cls is not None:
                    g = (self.self_cls or fn.cls).find(n.func.attr) or fn.cls.find(n.func.attr)
                    if g is not None:
                        out |= self.write_summary(g, busy)
        self._wsum[fn] = out
        return out

    def _extend(self, st, lst, v):
        its = st.heap.get(("items", lst))
        if its is None:
            return
        add = self._items_of(st, v)
        st.heap[("items", lst)] = tuple(its) + (tuple(add) if add is not None else (("star", v),))

    def _del_item(self, st, recv, k):
        """del recv[k] for a literal list or dict."""
        its = st.heap[("items", recv)]
        if any(x[0] in ("star", "each") for x in its):
            return
        if recv[2] == "list" and k[0] == "const" and isinstance(k[1], int) and -len(its) <= k[1] < len(its):
            l2 = list(its)
            l2.pop(k[1])
            st.heap[("items", recv)] = tuple(l2)
        elif recv[2] == "dict" and any(x[0] == "tuple" and x[1] == k for x in its):
            st.heap[("items", recv)] = tuple(x for x in its if not (x[0] == "tuple" and x[1] == k))

    def _model_container(self, recv, name, args, kw, st):
        key = ("items", recv)
        its = st.heap.get(key)
        if its is None:
            return None
        if recv[2] == "list":
            if name == "append" and args:
                st.heap[key] = its + (args[0],)
                return NONE
            if name == "extend" and args:
                self._extend(st, recv, args[0])
                return NONE
            if name == "insert" and len(args) == 2:
                if args[0] == ("const", 0):
                    st.heap[key] = (args[1],) + its
                else:
                    st.heap[key] = its + (args[1],)
                return NONE
            if name == "pop":
                if its and not any(x[0] in ("star", "each") for x in its):
                    i = args[0][1] if args and args[0][0] == "const" else (-1 if not args else None)
                    if isinstance(i, int) and -len(its) <= i < len(its):
                        l2 = list(its)
                        v = l2.pop(i)
                        st.heap[key] = tuple(l2)
                        return v
                if its:
                    for x in its:
                        if x[0] == "each":
                            return x[1]
                        if x[0] == "star":
                            return self.elem(x[1], st)
                return None
            if name == "appendleft" and args:
                st.heap[key] = (args[0],) + its
                return NONE
            if name == "popleft" and its and not any(x[0] in ("star", "each") for x in its):
                st.heap[key] = its[1:]
                return its[0]
            if name == "clear":
                st.heap[key] = ()
                return NONE
            if name == "remove" and len(args) == 1 and args[0] in its and all(x[0] == "env" for x in its):
                l2 = list(its)
                l2.remove(args[0])
                st.heap[key] = tuple(l2)
                return NONE
            if name == "copy":
                return self._new(st, "list", recv[3], its)
        if recv[2] == "set" and name == "add" and args:
            if args[0] not in its:
                st.heap[key] = its + (args[0],)
            return NONE
        if recv[2] == "set" and name in ("discard", "remove") and args and all(x[0] == "const" for x in (*its, *args)) and (
                name == "discard" or args[0] in its):
            st.heap[key] = tuple(x for x in its if x != args[0])
            return NONE
        if recv[2] == "set" and name in ("difference", "intersection") and len(args) == 1:
            it = self._literal_iter(st, args[0])
            if it is not None and all(x[0] == "const" for x in (*its, *it)):
                return self._new(st, "set", "lit", tuple(x for x in its if (x in it) == (name == "intersection")))
        if recv[2] == "set" and name in ("update", "union") and args:
            new = its
            for a in args:
                sub = st.heap.get(("items", a)) if a[0] == "new" else (a[1:] if a[0] == "tuple" else None)
                new = new + (tuple(sub) if sub is not None else (("star", a),))
            if name == "union":
                return self._new(st, "set", "lit", new)
            st.heap[key] = new
            return NONE
        if recv[2] == "dict":
            if name == "items" and not args:
                return ("call", ("attr", recv, "items"), (), ())
            if name in ("get", "pop") and args:
                for x in reversed(its):
                    if x[0] == "tuple" and x[1] == args[0]:
                        if name == "pop":
                            self._invalidate_target(st, ("sub", recv, args[0]))
                            self._del_item(st, recv, args[0])
                        return x[2]
                    if x[0] in ("star", "each"):
                        break
                if name == "get" and not str(recv[3]).startswith("comp") and args[0][0] == "const" and all(x[0] == "tuple" and x[1][0] == "const" for x in its):
                    return args[1] if len(args) > 1 else NONE
            if name == "update":
                add = []
                if args and args[0][0] == "new" and st.heap.get(("items", args[0])) is not None:
                    add = list(st.heap[("items", args[0])])
                elif args:
                    add = [("star", args[0])]
                add += [("tuple", ("const", k), v) for k, v in kw.items()]
                st.heap[key] = its + tuple(add)
                return NONE
        return None

    def _builtin(self, name, args, kw, st, node, fr):
        if name in ("any", "all") and len(args) == 1 and not kw and args[0][0] == "new" and args[0][3] != "comp0":
            it = self._literal_iter(st, args[0])
            if it is not None and not it:
                return [(st, ("const", name == "all"))]
            if it:
                return [(s, ("const", b)) for s, b in self.decide((("or",) if name == "any" else ("and",)) + tuple(it), st, fr, node)]
        if name == "getattr" and len(args) >= 2 and args[1][0] == "const" and isinstance(args[1][1], str):
            if len(args) == 2:
                return self._getattr(args[0], args[1][1], st, fr, node)
            t = ("attr", args[0], args[1][1])
            if t in st.heap:
                return [(st, st.heap[t])]
            return [(st, ("getattr", args[0], args[1][1], args[2]))]
        if name == "setattr" and len(args) == 3 and args[1][0] == "const":
            outs = []
            for s, sig in self._store(("attr", args[0], args[1][1]), args[2], st, fr, node):
                outs.append((s, NONE if sig is None else Raise(sig[1], sig[2])))
            return outs
        if name in ("list", "tuple", "sorted") and len(args) == 1 and not kw and args[0][0] in ("new", "call") and not (
                args[0][0] == "new" and args[0][2] == "list" and name != "sorted"):
            it = self._literal_iter(st, args[0])
            if it is not None and all(x[0] == "const" for x in it) and (name != "sorted" or len({type(x[1]) for x in it}) <= 1):
                if name == "sorted":
                    it = sorted(it, key=lambda x: x[1])
                return [(st, ("tuple", *it) if name == "tuple" else self._new(st, "list", "lit", it))]
        if name in ("list", "tuple", "set", "dict") and not args and not kw:
            return [(st, self._new(st, name, "empty", []) if name != "tuple" else ("tuple",))]
        if name == "dict" and not args and kw and "**" not in kw:
            return [(st, self._new(st, "dict", "lit", [("tuple", ("const", k), v) for k, v in kw.items()]))]
        if name in ("list", "tuple") and len(args) == 1:
            a = args[0]
            if a[0] == "new" and a[2] == "list" and st.heap.get(("items", a)) is not None:
                it = st.heap[("items", a)]
                if name == "tuple" and not any(x[0] in ("star", "each") for x in it):
                    return [(st, ("tuple", *it))]
                return [(st, self._new(st, "list", a[3], it))]
            if a[0] == "tuple":
                return [(st, self._new(st, "list", "lit", a[1:]) if name == "list" else a)]
        if name == "float" and len(args) == 1 and args[0][0] == "const" and isinstance(args[0][1], str) and args[0][1].lower() in ("inf", "-inf", "infinity"):
            return [(st, ("const", float(args[0][1])))]
        if name == "vars" and len(args) == 1:
            return [(st, ("attr", args[0], "__dict__"))]
        if name == "range" and args and all(a[0] == "const" and type(a[1]) is int for a in args) and not kw:
            r = range(*(a[1] for a in args))
            if len(r) <= 8:
                return [(st, ("tuple", *(("const", i) for i in r)))]
        if name in ("min", "max", "sorted", "sum", "filter", "map", "reversed", "enumerate", "zip") and args:
            r = self._literal_fold(name, args, kw, st, node, fr)
            if r is not None:
                return r
        if name == "set" and len(args) == 1:
            a = args[0]
            it = self._literal_iter(st, a)
            if it is not None and all(x[0] == "const" for x in it):
                return [(st, self._new(st, "set", "lit", tuple(dict.fromkeys(it))))]
            it = st.heap.get(("items", a)) if a[0] == "new" and a[2] != "dict" else (a[1:] if a[0] == "tuple" else None)
            return [(st, self._new(st, "set", "lit", it if it is not None else (("star", a),)))]
        if name == "len" and len(args) == 1:
            its = self._items_of(st, args[0])
            if its is not None:
                return [(st, ("const", len(its)))]
            if args[0][0] == "new" and args[0][2] in ("set", "dict") and not str(args[0][3]).startswith("comp"):
                its = self._literal_iter(st, args[0])
                if its is not None and all(x[0] == "const" for x in its):
                    return [(st, ("const", len(set(its))))]
        if name == "next" and args:
            a = args[0]
            if a[0] == "call" and a[1] == ("builtin", "iter") and a[2]:
                el = self.elem(a[2][0], st)
                return self._next_result(el, args, st, node, fr)
            if a[0] == "new" and a[2] == "list":
                it = st.heap.get(("items", a))
                if it is not None:
                    if not it:
                        if len(args) > 1:
                            return [(st, args[1])]
                        return [(st, Raise(("builtin", "StopIteration"), True))]
                    x = it[0]
                    return [(st, x[1] if x[0] == "each" else (self.elem(x[1], st) if x[0] == "star" else x))]
        return None

    def _literal_fold(self, name, args, kw, st, node, fr):
        """min, max, sorted, sum, filter and map over literal collections whose keys are constants."""
        if name == "map" or name == "filter":
            its = self._literal_iter(st, args[1]) if len(args) == 2 else None
            if its is None:
                return None
            live = [(st, [])]
            for x in its:
                nx = []
                for s, acc in live:
                    if name == "filter" and args[0] == NONE:
                        rs = [(s, x)]
                    else:
                        rs = self.call(args[0], [x], {}, s, node, fr)
                    for s2, v in rs:
                        if isinstance(v, Raise):
                            return None
                        if name == "map":
                            nx.append((s2, acc + [v]))
                        else:
                            nx += [(s3, acc + [x] if b else acc) for s3, b in self.decide(v, s2, fr, node)]
                live = nx
            return [(s, self._new(s, "list", "lit", acc)) for s, acc in live]
        if name in ("reversed", "enumerate", "zip"):
            return None
        its = self._literal_iter(st, args[0]) if len(args) == 1 else (list(args) if name in ("min", "max") else None)
        if its is None:
            return None
        if name == "sum":
            if not all(x[0] == "const" for x in its):
                return None
            return [(st, ("const", sum(x[1] for x in its)))]
        key = kw.get("key", NONE)
        rev = kw.get("reverse", ("const", False))
        if rev[0] != "const" or set(kw) - {"key", "reverse", "default"}:
            return None
        if not its:
            if name == "sorted":
                return [(st, self._new(st, "list", "lit", []))]
            return [(st, kw["default"])] if "default" in kw else [(st, Raise(("builtin", "ValueError"), True))]
        live = [(st.fork(), [])]
        for x in its:
            nx = []
            for s, acc in live:
                rs = [(s, x)] if key == NONE else self.call(key, [x], {}, s, node, fr)
                for s2, v in rs:
                    if isinstance(v, Raise):
                        return None
                    nx.append((s2, acc + [v]))
            live = nx

        def plain(t):
            if t[0] == "const":
                return t[1]
            if t[0] == "tuple":
                return tuple(plain(x) for x in t[1:])
            if t[0] == "new" and t[2] == "list":
                it = st.heap.get(("items", t))
                if it is not None:
                    return [plain(x) for x in it]
            if t[0] == "unary" and t[1] == "-":
                return -plain(t[2])
            raise ValueError(t)

        out = []
        for s, ks in live:
            try:
                kp = [plain(k) for k in ks]
                if name == "sorted":
                    order = sorted(range(len(its)), key=lambda i: kp[i], reverse=bool(rev[1]))
                    out.append((s, self._new(s, "list", "lit", [its[i] for i in order])))
                else:
                    i = (min if name == "min" else max)(range(len(its)), key=lambda i: kp[i])
                    out.append((s, its[i]))
            except (ValueError, TypeError):
                return None
        return out

    def _next_result(self, el, args, st, node, fr):
        out = [(st.fork(), el)]
        if len(args) > 1:
            out.append((st, args[1]))
        return out

    # -- types ----------------------------------------------------------------
    def type_of(self, t, st) -> Class | None:
        if t in st.types:
            return st.types[t]
        if t[0] == "new" and t[2] == "obj":
            for c in self.p.by_class.get(str(t[3]).split(":")[-1], []):
                if c.qual == t[3]:
                    return c
        if t[0] == "attr":
            bt = self.type_of(t[1], st)
            if bt is not None:
                return self._attr_type(bt, t[2])
        return None

    def _attr_type(self, c, name):
        cache = self.p.__dict__.setdefault("_attr_types", {})
        k = (c, name)
        if k in cache:
            return cache[k]
        cache[k] = None
        for cc in c.mro_classes:
            if name in cc.annots:
                cache[k] = self._ann_class(cc.module, cc.annots[name])
                return cache[k]
            f = cc.methods.get(name)
            if f is not None and f.is_property:
                cache[k] = self._ann_class(f.module, f.node.returns)
                return cache[k]
            for m in cc.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name \
                            and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                        r = self._ann_class(cc.module, n.annotation)
                        if r is not None:
                            cache[k] = r
                            return r
                    if isinstance(n, ast.Assign) and m in self.p.building():
                        for tg in n.targets:
                            if isinstance(tg, ast.Attribute) and tg.attr == name and isinstance(tg.value, ast.Name) and tg.value.id == "self":
                                if isinstance(n.value, ast.Name):
                                    for p in m.node.args.args + m.node.args.kwonlyargs:
                                        if p.arg == n.value.id:
                                            r = self._ann_class(cc.module, p.annotation)
                                            if r is not None:
                                                cache[k] = r
                                                return r
                                if isinstance(n.value, ast.Call):
                                    r = self.p.resolve_expr(cc.module, n.value.func)
                                    if isinstance(r, Class):
                                        cache[k] = r
                                        return r
        return None

    def _ann_class(self, m: Module, ann) -> Class | None:
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp):
            a, b = self._ann_class(m, ann.left), self._ann_class(m, ann.right)
            if a is not None and b is not None and a is not b:
                return None
            return a or b
        if isinstance(ann, ast.Subscript):
            n = ast.unparse(ann.value).split(".")[-1]
            if n in ("Optional", "Annotated"):
                return self._ann_class(m, ann.slice)
            if n in ("list", "dict", "tuple", "Callable", "Generator", "Iterable", "set", "type", "Literal", "Sequence", "Iterator"):
                return None
            return self._ann_class(m, ann.value)
        r = self.p.resolve_expr(m, ann) if isinstance(ann, ast.Name | ast.Attribute) else None
        if isinstance(r, Class):
            return r
        if isinstance(ann, ast.Name) and r is None or (isinstance(r, tuple) and r[0] == "ext"):
            # names imported only under TYPE_CHECKING resolve through m.imports already
            return None
        if isinstance(r, tuple) and r[0] == "global":
            # TypeVar with a bound
            v = self.p.modules[r[1]].globals[r[2]]
            if isinstance(v, ast.Call):
                for k in v.keywords:
                    if k.arg == "bound":
                        return self._ann_class(self.p.modules[r[1]], k.value)
        return None


def _has_yield_cached(fn):
    return fn.is_generator


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
    return t


def _pure_cond(e):
    if isinstance(e, ast.Compare):
        return not any(isinstance(x, ast.Call | ast.NamedExpr | ast.Yield) for x in ast.walk(e))
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return _pure_cond(e.operand) or isinstance(e.operand, ast.Name | ast.Attribute)
    if isinstance(e, ast.BoolOp):
        return all(_pure_cond(v) for v in e.values)
    return False


_OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
        ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
