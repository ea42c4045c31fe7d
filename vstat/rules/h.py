"""Vocabulary shared by the rules: what an effect on a path means for the package."""
from __future__ import annotations

import ast

from ..engine import (FALSE, NONE, SELF, TRUE, attr, call_name, contains, has_attr, is_attr, last_name, lin, norm, same,
                      show, strip_iter, subterms)
from ..model import AnalysisBroken, Class, Func


def P(name):
    return ("param", name)


def C(v):
    return ("const", v)


def params(func: Func) -> list[str]:
    a = func.node.args
    ps = [x.arg for x in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs)]
    if func.cls is not None and func.parent is None and not func.is_static and ps:
        ps = ps[1:]
    return ps


def par(func: Func, i: int):
    """i-th parameter (self excluded) as a term: parameters are identified by position, not by name."""
    return P(params(func)[i])


def sub(b, i):
    return ("sub", b, i)


def facts(p, upto=None):
    """Branch conditions taken on the path before event `upto` (all when None)."""
    return dict(p.conds(upto))


def isnone(t):
    return ("isnone", t)


def truthy(t):
    return ("truthy", t)


def before(p, a, b):
    return p.index(a) < p.index(b)


def ctor_of(ev_or_term, *names):
    t = ev_or_term.value if hasattr(ev_or_term, "value") else ev_or_term
    return isinstance(t, tuple) and t[0] == "new" and t[2] == "obj" and str(t[3]).split(":")[-1].split(".")[-1] in names


def exc_name(v):
    """Class name of a raised value."""
    if v is None or not isinstance(v, tuple):
        return None
    if v[0] == "new":
        return str(v[3]).split(":")[-1].split(".")[-1]
    if v[0] in ("call",):
        return last_name(v[1])
    if v[0] == "class":
        return v[1].name
    if v[0] in ("builtin", "ext"):
        return v[1].split(".")[-1]
    if v[0] == "intr":
        return v[1]
    return None


def raises(p):
    """The path ends with an explicit raise."""
    return p.outcome == "raise"


def completes(p):
    return p.outcome == "return"


def bind_ctor(prog, func: Func) -> dict:
    """attr name -> term written to self.<attr> by every completing path of a constructor (None when it varies)."""
    raise NotImplementedError


def loop_depth(ev):
    return ev.loop


def eff(p, skip_raised=True):
    """Events with effects: calls, writes, deletes, yields."""
    return [e for e in p.events if e.kind in ("call", "write", "del", "yield", "yieldfrom") and not (skip_raised and e.raised)]


# -- histories --------------------------------------------------------------
def history_appends(p, attrname="_state_histories"):
    """(event, owner, key, entry) for every entry added to <owner>._state_histories[<key>]."""
    out = []
    for e in p.events:
        if e.raised:
            continue
        if e.kind == "write" and e.target[0] == "sub" and is_attr(e.target[1], attrname):
            its = e.items(e.value)
            if its is not None:
                for x in its:
                    if x[0] != "star":
                        out.append((e, e.target[1][1], e.target[2], x))
            elif e.aug and e.aug[0] == "+":
                its = e.items(e.aug[1])
                for x in its or ():
                    out.append((e, e.target[1][1], e.target[2], x))
            else:
                out.append((e, e.target[1][1], e.target[2], None))
        elif e.kind == "call" and e.name in ("append", "insert", "extend") and e.recv is not None:
            r = e.recv
            if r[0] == "call" and r[1][0] == "attr" and r[1][2] in ("setdefault", "get") and is_attr(r[1][1], attrname):
                out.append((e, r[1][1][1], r[2][0], e.args[-1] if e.args else None))
            elif r[0] == "sub" and is_attr(r[1], attrname):
                out.append((e, r[1][1], r[2], e.args[-1] if e.args else None))
    return out


def tup(t, n=None):
    """Components of a tuple term or None."""
    if isinstance(t, tuple) and t and t[0] == "tuple" and (n is None or len(t) == n + 1):
        return t[1:]
    return None


def is_now(t, owner=None):
    """owner.env.now, possibly through float()."""
    if t is None:
        return False
    t = norm(t)
    if t[0] == "call" and t[1] == ("builtin", "float") and len(t[2]) == 1:
        t = t[2][0]
    return is_attr(t, "now") and (is_attr(t[1], "env") and (owner is None or t[1][1] == owner) or
                                  (t[1][0] == "getattr" and t[1][2] == "env" and (owner is None or t[1][1] == owner)))


def value_store(p, inst, key=None):
    """Writes of the state's value: inst.__dict__[self.name]."""
    d = attr(inst, "__dict__")
    k = key if key is not None else attr(SELF, "name")
    out = []
    for e in p.events:
        if e.raised:
            continue
        if e.kind == "write" and e.target == sub(d, k):
            out.append((e, e.value))
        elif e.kind == "call" and e.recv == d and e.name == "__setitem__" and e.args and e.args[0] == k:
            out.append((e, e.args[1]))
        elif e.kind == "call" and e.recv == d and e.name == "update" and e.args:
            for x in e.items(e.args[0]) or ():
                if x[0] == "tuple" and x[1] == k:
                    out.append((e, x[2]))
        elif e.kind == "call" and e.recv == d and e.name == "setdefault" and e.args and e.args[0] == k:
            out.append((e, e.args[1]))
    return out


def calls_of(p, pred):
    return [e for e in p.events if e.kind == "call" and not e.raised and pred(e)]


def fmt(t):
    return show(t)


def full_loops(p, pred):
    """Every loop over a matching iterable runs to its end (no break, no early return, no unhandled failure)."""
    n = 0
    for e in p.events:
        if e.kind in ("iter", "break") and pred(e.term):
            if e.kind == "break":
                return False
            n += 1
    if p.outcome == "return":
        # a return from inside the last iteration
        for i, e in enumerate(p.events):
            if e.kind == "iter" and pred(e.term) and isinstance(e.node, (ast.For,)):
                if not any(x.kind == "endloop" and x.node is e.node for x in p.events[i:]):
                    return False
    return True


# -- maps -------------------------------------------------------------------
def map_ops(p, mp, upto=None):
    """(kind, key, value, event) for every effect on the map `mp`: store | remove | wipe."""
    out = []
    for e in p.events:
        if e is upto:
            break
        if e.raised:
            continue
        if e.kind == "write":
            if e.target[0] == "sub" and e.target[1] == mp:
                out.append(("store", e.target[2], e.value, e))
            elif e.target == mp:
                out.append(("wipe", None, e.value, e))
        elif e.kind == "del":
            if e.target[0] == "sub" and e.target[1] == mp:
                out.append(("remove", e.target[2], None, e))
            elif e.target == mp:
                out.append(("wipe", None, None, e))
        elif e.kind == "call" and e.recv == mp:
            if e.name == "__setitem__" and len(e.args) == 2:
                out.append(("store", e.args[0], e.args[1], e))
            elif e.name == "setdefault" and e.args:
                out.append(("default", e.args[0], e.args[1] if len(e.args) > 1 else NONE, e))
            elif e.name in ("pop", "__delitem__") and e.args:
                out.append(("pop" if len(e.args) == 1 else "popdef", e.args[0], e.value, e))
            elif e.name == "update":
                its = e.items(e.args[0]) if e.args else ()
                for x in its if its is not None else (None,):
                    if x and x[0] == "tuple":
                        out.append(("store", x[1], x[2], e))
                    else:
                        out.append(("wipe", None, None, e))
            elif e.name in ("clear", "popitem"):
                out.append(("wipe", None, None, e))
    return out


def has_key(p, mp, key, upto=None):
    """Was `key in mp` decided on the path (before upto)?"""
    r = None
    for e in p.events:
        if e is upto:
            break
        if e.kind == "cond":
            t = e.term
            if t[0] == "in" and t[1] == key and strip_iter(t[2]) == mp:
                r = e.pol
            elif t[0] == "is" and any(x[0] == "call" and x[1] == attr(mp, "get") and x[2][:1] == (key,) and len(x[2]) == 2 and
                                      y == x[2][1] and y != NONE for x, y in ((t[1], t[2]), (t[2], t[1]))):
                r = not e.pol
        elif e.kind == "catch" and e.term and e.term[0] == "implicit" and (
                e.term[-1] == sub(mp, key) or (e.term[-1][0] == "call" and e.term[-1][1] in (attr(mp, "pop"),)
                                               and e.term[-1][2][:1] == (key,))):
            r = False
    return r


def read_of(t, mp, key):
    """t is the value under key: 'sub' (raises when absent), 'get' (None when absent), 'pop'."""
    if t == sub(mp, key):
        return "sub"
    if t[0] == "call" and t[1] == attr(mp, "get") and t[2][:1] == (key,):
        return "get" if len(t[2]) == 1 or t[2][1] == NONE else "getdef"
    if t[0] == "call" and t[1] == attr(mp, "pop") and t[2] == (key,):
        return "pop"
    return None


def pairs(p, t):
    """Contents of a dict built on the path: list of (key, value) or None when unknown."""
    if not (isinstance(t, tuple) and t[0] == "new" and t[2] == "dict"):
        return None
    its = p.heap.get(("items", t))
    if its is None:
        return None
    out = []
    for x in its:
        if x[0] == "each":
            x = x[1]
        if x[0] != "tuple" or len(x) != 3:
            return None
        out.append((x[1], x[2]))
    return out


LOGS = {"_log_caller", "log", "get_caller_info"}


def fresh_copy(p, v, src):
    """v is a list created on the path whose contents are exactly the elements of src."""
    if v[0] == "call" and last_name(v[1]) in ("list", "copy", "deepcopy", "sorted") and v != src and strip_iter(v) == src:
        return last_name(v[1]) != "sorted"
    if v[0] == "sub" and v[1] == src and v[2][0] == "slice":
        return all(x == NONE for x in v[2][1:])
    if v[0] == "copyof":
        return v[1] == src
    if v[0] == "new" and v[2] == "list":
        its = p.heap.get(("items", v))
        if its is None:
            its = next((e.snap[v] for e in reversed(p.events) if e.snap and v in e.snap), None)
        if its is None:
            return False
        if len(its) == 0:
            return v[3] == "comp0" or any(e.kind == "loop" and strip_iter(e.term) == src for e in p.events)
        if len(its) == 1:
            x = its[0]
            if x[0] == "star":
                return strip_iter(x[1]) == src
            if x[0] == "each":
                return x[1] == ("elem", src)
            return x == ("elem", src)
    return False


# -- arithmetic ---------------------------------------------------------------
def poly(t, rw=None):
    """Polynomial normal form: {sorted tuple of factors: coefficient}; rw rewrites atoms first."""
    if rw is not None:
        r = rw(t)
        if r is not None:
            t = r
    if t[0] == "const" and isinstance(t[1], int | float) and not isinstance(t[1], bool):
        return {(): t[1]} if t[1] else {}
    if t[0] == "bin" and t[1] in ("+", "-"):
        a, b = poly(t[2], rw), poly(t[3], rw)
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if t[1] == "+" else -v)
        return {k: v for k, v in out.items() if v}
    if t[0] == "bin" and t[1] == "*":
        a, b = poly(t[2], rw), poly(t[3], rw)
        out = {}
        for k, v in a.items():
            for k2, v2 in b.items():
                kk = _cancel(tuple(sorted(k + k2, key=repr)))
                out[kk] = out.get(kk, 0) + v * v2
        return {k: v for k, v in out.items() if v}
    if t[0] == "bin" and t[1] == "/":
        a, b = poly(t[2], rw), poly(t[3], rw)
        if set(b) == {()}:
            return {k: v / b[()] for k, v in a.items()}
        if len(b) == 1:
            (bk, bv), = b.items()
            inv = tuple(x[1] if x[0] == "inv" else ("inv", x) for x in bk)
            out = {}
            for k, v in a.items():
                kk = _cancel(tuple(sorted(k + inv, key=repr)))
                out[kk] = out.get(kk, 0) + v / bv
            return out
        return {_cancel(tuple(sorted(k + (("inv", ("poly", tuple(sorted(b.items(), key=repr)))),), key=repr))): v for k, v in a.items()}
    if t[0] == "bin" and t[1] == "**" and t[3][0] == "const" and t[3][1] in (2, 3):
        r = poly(t[2], rw)
        m = t
        p = t[2]
        out = p
        for _ in range(int(t[3][1]) - 1):
            out = ("bin", "*", out, p)
        return poly(out, rw)
    if t[0] == "neg":
        return {k: -v for k, v in poly(t[1], rw).items()}
    if t[0] == "lin":
        out = {}
        for x, c in t[1]:
            for k, v in (poly(x, rw) if x != () else {(): 1}).items():
                out[k] = out.get(k, 0) + c * v
        return {k: v for k, v in out.items() if v}
    if t[0] == "call" and t[1] == ("builtin", "float") and len(t[2]) == 1:
        return poly(t[2][0], rw)
    if rw is not None:
        t = rewrite(t, rw)
    return {(t,): 1}


def _cancel(k):
    k = list(k)
    for x in list(k):
        if x[0] == "inv" and x[1] in k and x in k:
            k.remove(x)
            k.remove(x[1])
    return tuple(k)


def rewrite(t, rw):
    """Apply rw bottom-up-free (top-down, first match) inside a term."""
    if not isinstance(t, tuple):
        return t
    if t and isinstance(t[0], str):
        r = rw(t)
        if r is not None:
            return r
    return tuple(rewrite(x, rw) for x in t)


def peq(a, b, rw=None):
    pa, pb = poly(a, rw), poly(b, rw)
    return set(pa) == set(pb) and all(abs(pa[k] - pb[k]) < 1e-12 * max(1, abs(pa[k])) for k in pa)


def add(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = ("bin", "+", r, t)
    return r


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = ("bin", "*", r, t)
    return r


def minus(a, b):
    return ("bin", "-", a, b)


def div(a, b):
    return ("bin", "/", a, b)


def order(p, a, b, upto=None, rw=None):
    """Signs a-b may have given the branch conditions of the path: a subset of {-1, 0, 1}."""
    d = poly(minus(a, b), rw)
    if set(d) <= {()}:
        v = d.get((), 0)
        return {(v > 0) - (v < 0)}
    out = {-1, 0, 1}

    def ratio(x):
        if set(x) != set(d):
            return None
        k0 = next(iter(d))
        r = x[k0] / d[k0]
        return r if r and all(abs(x[k] - r * d[k]) < 1e-12 for k in d) else None

    for k, v in facts(p, upto).items():
        if k[0] == "lt0":
            x = {}
            for t, c in k[1]:
                for kk, cc in (poly(mul(t, C(c)), rw) if t != () else {(): c}).items():
                    x[kk] = x.get(kk, 0) + cc
            r = ratio(x)
            if r is not None:
                s = -1 if r > 0 else 1
                out &= {s} if v else {0, -s}
        elif k[0] == "eq":
            r = ratio(poly(minus(k[1], k[2]), rw))
            if r is not None:
                out &= {0} if v else {-1, 1}
        elif k[0] in ("truthy", "iszero"):
            r = ratio(poly(k[1], rw))
            if r is not None:
                out &= {-1, 1} if v else {0}
    return out


def possible(p, rw=None):
    """False when a branch condition of the path contradicts plain arithmetic."""
    for k, v in facts(p).items():
        if k[0] == "eq":
            d = poly(minus(k[1], k[2]), rw)
            if not d and not v:
                return False
        elif k[0] == "truthy" and k[1][0] in ("bin", "lin", "neg"):
            d = poly(k[1], rw)
            if set(d) <= {()} and bool(d) != v:
                return False
        elif k[0] == "lt0":
            d = {}
            for t, c in k[1]:
                for kk, cc in (poly(mul(t, C(c)), rw) if t != () else {(): c}).items():
                    d[kk] = d.get(kk, 0) + cc
            d = {a: b for a, b in d.items() if b}
            if set(d) <= {()} and (d.get((), 0) < 0) != v:
                return False
    return True
