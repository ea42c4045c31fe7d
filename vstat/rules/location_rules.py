"""C31: locations and location data."""
from __future__ import annotations

import ast
import math
from fractions import Fraction

from .. import algebra
from ..api import Ctx, prop
from ..value import Builtin, Ext, Obj, T, explore, num, show, term

DIST = ("attr", ("sym", "stage"), "distance_units")
ALT = ("attr", ("sym", "stage"), "altitude_units")
METRE = ("const", "m")


def conv(v, a, b):
    """A conversion is linear (C32): the value times a factor of the two units."""
    if a == b:
        return v
    return T(("bin", "*", term(v), ("sym", f"{show(a)}->{show(b)}")), "num")


def h_convert(it, a, k):
    names = ("value", "units_from", "units_to")
    f = it.prog.func("units.convert:unit_convert")
    d = dict(zip([x.arg for x in f.node.args.args] or names, a)) | k
    v, x, y = list(d.values())[:3] if len(d) == 3 else (d["value"], d["units_from"], d["units_to"])
    return conv(v, term(x), term(y))


def model_call(it, ft, args, kw):
    if ft[0] != "attr" or ft[1] != ("attr", ("sym", "stage"), "stage_model"):
        return None
    if ft[2] == "distance":
        ps = list(args) + [None] * (3 - len(args))
        for i, n in enumerate(("loc1", "loc2", "units")):
            if n in kw:
                ps[i] = kw[n]
        if any(p is None for p in ps):
            return None
        a, b = (tuple(it.items(p)) for p in ps[:2])
        return T(("geodist", term(a), term(b), term(ps[2])), "num")
    if ft[2] == "lla2ecef":
        pts = list(it.items(args[0] if args else next(iter(kw.values()))))
        out = []
        for p in pts:
            p = tuple(it.items(p))
            out.append(tuple(T(("ecef", ax, term(p)), "num") for ax in "xyz"))
        return out
    return None


BASE = {
    "units.convert:unit_convert": h_convert,
    "base:UpstageBase.__init__": lambda it, a, k: None,
    ("attr", "stage"): lambda it, o: T(("sym", "stage")),
    ("attr", "env"): lambda it, o: T(("sym", "env")),
    "call": model_call,
    "math.radians": lambda it, a, k: angle(it, "math.radians", "math.degrees", a[0]),
    "math.degrees": lambda it, a, k: angle(it, "math.degrees", "math.radians", a[0]),
}


def angle(it, fn, inv, v):
    if not isinstance(v, T):
        return NotImplemented
    return T(("call", ("ext", fn), (v.t,), ()), "num")


def square(t):
    """t*t, with the root of a sum taken away -> (num, den)"""
    o = t[0]
    if o == "call" and t[1] == ("ext", "math.sqrt"):
        return algebra.rat(t[2][0])
    if o == "call" and t[1] in (("builtin", "abs"), ("builtin", "float")) or o == "neg":
        return square(t[2][0] if o == "call" else t[1])
    if o == "bin" and t[1] == "**" and t[3][0] == "const" and t[3][1] == Fraction(1, 2):
        return algebra.rat(t[2])
    if o == "bin" and t[1] in "*/":
        (a, b), (c, d) = square(t[2]), square(t[3])
        return (algebra._mul(a, c), algebra._mul(b, d)) if t[1] == "*" else (algebra._mul(a, d), algebra._mul(b, c))
    n, d = algebra.rat(t)
    return algebra._mul(n, n), algebra._mul(d, d)


def same_square(t, want):
    (n, d), (m, e) = square(t), algebra.rat(want)
    return bool(d) and algebra._mul(n, e) == algebra._mul(m, d)


def add(*ts):
    out = ts[0]
    for t in ts[1:]:
        out = ("bin", "+", out, t)
    return out


def sq(t):
    return ("bin", "**", t, ("const", 2))


def minus(a, b):
    return ("bin", "-", a, b)


def times(a, b):
    return ("bin", "*", a, b)


class Closure:
    """Congruence closure over the equalities of a path."""

    def __init__(self, pairs):
        self.pairs = pairs

    def norm(self, t, depth=0):
        for a, b in self.pairs:
            if t == b:
                return self.norm(a, depth + 1) if depth < 20 and a != b else a
        if not isinstance(t, tuple):
            return t
        u = tuple(self.norm(x, depth) if isinstance(x, tuple) else x for x in t)
        return u

    def equal(self, x, y):
        # orient every pair both ways: the pairs here relate syntactically different points
        for flip in (False, True):
            c = Closure([(b, a) if flip else (a, b) for a, b in self.pairs])
            if c.norm(x) == c.norm(y):
                return True
        return False


class Loc:
    """A class of locations: how to make one."""

    def __init__(self, prog, name, coords, flag, data=False):
        self.name, self.cls, self.coords, self.flag, self.data = name, prog.cls(name), coords, flag, data

    def make(self, it, p, flag, values=None):
        v = values or [T(("sym", p + c), "num") for c in self.coords]
        return it.construct(self.cls, [], {**dict(zip(self.coords, v)), self.flag: flag})


@prop("C31")
def locations(ctx: Ctx):
    prog = ctx.prog
    G = Loc(prog, "GeodeticLocation", ("lat", "lon", "alt"), "in_radians")
    C = Loc(prog, "CartesianLocation", ("x", "y", "z"), "use_altitude_units")
    GD = Loc(prog, "GeodeticLocationData", ("lat", "lon", "alt"), "in_radians", True)
    CD = Loc(prog, "CartesianLocationData", ("x", "y", "z"), "use_altitude_units", True)
    ALL = (G, C, GD, CD)

    def run(thunk, extra=None):
        rs = explore(prog, thunk, intercept={**BASE, **(extra or {})})
        ctx.paths_n += len(rs)
        for r in rs:
            ctx.functions |= {f if isinstance(f, str) else f.qual for f in r.it.used}
        return rs

    R = ctx.rule
    R("C31.frozen", "setting a coordinate or unit flag of a location after construction raises and changes nothing", 8)
    R("C31.pure", "no method of a location changes it or the location it is given", 30)
    R("C31.made", "construction, copy and make_location keep every component", 12)
    R("C31.angle", "to_radians, to_degrees and latlon convert exactly latitude and longitude", 8)
    R("C31.index", "indexing gives the coordinates in order and raises beyond them", 10)
    R("C31.same", "locations with the same components are equal", 8)
    R("C31.every", "a difference in any one coordinate or in the meaning of the height makes locations unequal", 24)
    R("C31.units", "equality of geodetic locations does not depend on the angle unit", 4)
    R("C31.symmetric", "a == b gives what b == a gives", 16)
    R("C31.hash", "equal locations hash equally", 2)
    R("C31.kinds", "comparing or subtracting a location of another kind, or something else, raises or is unequal", 24)
    R("C31.distance", "distances use every coordinate, in the stage's units", 20)
    R("C31.zero", "the distance of a location to itself is zero", 2)

    loc = {L.name: f"{L.cls.module.rel}:{L.cls.node.lineno}" for L in ALL}
    memo = {}

    def attrs(o, L):
        return {c: term(it_get(o, c)) for c in L.coords}

    def it_get(o, n):
        return o.attrs.get(n)

    def comps(it, o, L):
        """The coordinates and the flag of an object, as it gives them."""
        out = {c: term(it.getattr(o, c)) for c in L.coords}
        try:
            out[L.flag] = term(it.getattr(o, L.flag))
        except Exception:     # the data class spells it another way: found by its value below
            out[L.flag] = None
        return out

    # -- frozen ------------------------------------------------------------------------------------
    for L in (G, C):
        for c in (*L.coords, L.flag):
            box = {}

            def th(it, L=L, c=c):
                o = L.make(it, "a", False)
                box["o"], before = o, dict(o.attrs)
                box["before"] = before
                it.setattr(o, c, T(("sym", "new"), "num"))

            for r in run(th):
                if r.outcome != "raise":
                    ctx.bad("C31.frozen", f"{L.name}.{c}", f"setting `{c}` of a {L.name} does not raise", loc[L.name])
                elif box["o"].attrs != box["before"]:
                    ctx.bad("C31.frozen", f"{L.name}.{c}", f"setting `{c}` of a {L.name} changes it", loc[L.name])
                else:
                    ctx.ok("C31.frozen", f"{L.name}.{c}")

    # -- construction, copies ----------------------------------------------------------------------
    TARGET = {G.name: G, C.name: C}

    def kept(rule, c, r, M, p, flag, L, angles=None):
        """The result is an M with the components of the L called p."""
        if r.outcome != "return":
            return ctx.bad(rule, c, f"raises {r.value}", loc[L.name])
        o = r.value
        if not isinstance(o, Obj) or o.cls is not M.cls:
            return ctx.bad(rule, c, f"gives {o!r}, not a {M.name}", loc[L.name])
        for n in M.coords:
            want = ("sym", p + n)
            if angles and n in ("lat", "lon"):
                want = ("call", ("ext", angles), (want,), ())
            if n not in o.attrs or term(o.attrs[n]) != want:
                return ctx.bad(rule, c, f"`{n}` becomes {show(term(o.attrs.get(n)))} instead of {show(want)}", loc[L.name])
        fl = [v for k, v in o.attrs.items() if isinstance(v, bool)]
        if fl != [flag]:
            return ctx.bad(rule, c, f"`{M.flag}` becomes {fl} instead of {flag}", loc[L.name])
        ctx.ok(rule, c)

    for L in ALL:
        for flag in (False, True):
            for r in run(lambda it: L.make(it, "a", flag)):
                kept("C31.made", f"{L.name}({flag})", r, L, "a", flag, L)
            m = "make_location" if L.data else "copy"
            M = TARGET[L.name.removesuffix("Data")]
            for r in run(lambda it: it.call(it.getattr(L.make(it, "a", flag), m), [], {})):
                kept("C31.made", f"{L.name}.{m}({flag})", r, M, "a", flag, L)
            if not L.data:
                def fresh(it):
                    o = L.make(it, "a", flag)
                    return it.call(it.getattr(o, m), [], {}) is not o
                # a location is frozen: the copy may be the location itself
    for flag in (False, True):
        for m, to, fn in (("to_radians", True, "math.radians"), ("to_degrees", False, "math.degrees")):
            for r in run(lambda it: it.call(it.getattr(G.make(it, "a", flag), m), [], {})):
                kept("C31.angle", f"{G.name}.{m}({flag})", r, G, "a", to, G, None if flag == to else fn)
        for L in (G, GD):
            for r in run(lambda it: it.call(it.getattr(L.make(it, "a", flag), "latlon"), [], {})):
                want = [("sym", "alat"), ("sym", "alon")]
                if flag:
                    want = [("call", ("ext", "math.degrees"), (w,), ()) for w in want]
                got = [term(x) for x in r.value] if r.outcome == "return" and isinstance(r.value, (list, tuple)) else None
                ctx.check(got == want, "C31.angle", f"{L.name}.latlon({flag})", f"gives {r.value!r}, not the latitude and longitude in degrees", loc[L.name])
    for L in (G, C):
        for i in range(-1, 4):
            for r in run(lambda it: it.index(L.make(it, "a", False), i)):
                c = f"{L.name}[{i}]"
                if 0 <= i <= 2:
                    ctx.check(r.outcome == "return" and term(r.value) == ("sym", "a" + L.coords[i]), "C31.index", c, f"gives {r.value!r}", loc[L.name])
                else:
                    ctx.check(r.outcome == "raise", "C31.index", c, f"gives {r.value!r} instead of raising", loc[L.name])

    # -- equality ----------------------------------------------------------------------------------
    def eq(L, mk):
        return run(lambda it: it.equal(*mk(it)))

    def syms(p, L):
        return [T(("sym", p + c), "num") for c in L.coords]

    for L in ALL:
        for flag in (False, True):
            for which, other in (("itself", False), ("a copy", True)):
                def mk(it):
                    o = L.make(it, "a", flag)
                    return (o, L.make(it, "a", flag) if other else o)
                bad = [r for r in eq(L, mk) if r.outcome != "return" or r.value is not True]
                ctx.check(not bad, "C31.same", f"{L.name}({flag})=={which}", f"a {L.name} does not equal {which}: {bad[:1]}", loc[L.name])
            for i, c in enumerate(L.coords):
                for d in (Fraction(1), Fraction(-1)):
                    def mk(it):
                        v = syms("a", L)
                        v[i] = T(("bin", "+", v[i].t, ("const", d)), "num")
                        return L.make(it, "a", flag), L.make(it, "a", flag, v)
                    # any factor between the units will do
                    extra = LINEAR | {"units.convert:unit_convert": lambda it, a, k: it.bin(ast.Mult(), a[0], Fraction(3))}
                    bad = [r for r in run(lambda it: it.equal(*mk(it)), extra) if undecided_true(r)]
                    ctx.check(not bad, "C31.every", f"{L.name}({flag}).{c}", f"locations that differ by {d} in `{c}` are equal: {bad[:1]}", loc[L.name])
    # heights in other units are other locations
    bad = [r for r in eq(CD, lambda it: (CD.make(it, "a", False), CD.make(it, "a", True))) if r.outcome == "return" and r.value is True]
    ctx.check(not bad, "C31.every", f"{CD.name}.{CD.flag}", "data whose heights are in other units is equal", loc[CD.name])
    for L in (G, GD):
        for flag in (False, True):
            f, back = ("math.radians", "math.degrees") if not flag else ("math.degrees", "math.radians")

            def mk(it):
                v = [LINEAR[f](it, [x], {}) for x in syms("a", L)[:2]] + syms("a", L)[2:]
                return L.make(it, "a", flag), L.make(it, "b", not flag, v)
            bad = [r for r in run(lambda it: it.equal(*mk(it)), LINEAR) if r.outcome != "return" or r.value is not True]
            ctx.check(not bad, "C31.units", f"{L.name}({flag})", f"a location does not equal itself in {'degrees' if flag else 'radians'}: {bad[:1]}", loc[L.name])
            for i, c in enumerate(L.coords):
                def mk2(it):
                    a, b = mk(it)
                    v = [it.getattr(b, n) for n in L.coords]
                    v[i] = T(("bin", "+", term(v[i]), ("const", Fraction(1))), "num")
                    return a, L.make(it, "b", not flag, v)
                bad = [r for r in run(lambda it: it.equal(*mk2(it)), LINEAR) if undecided_true(r)]
                ctx.check(not bad, "C31.every", f"{L.name}({flag}/{not flag}).{c}", f"locations in different angle units that differ in `{c}` are equal: {bad[:1]}", loc[L.name])
    for L in ALL:
        for fa in (False, True):
            for fb in (False, True):
                sides = []
                for swap in (False, True):
                    def mk(it):
                        a, b = L.make(it, "a", fa), L.make(it, "b", fb)
                        return (b, a) if swap else (a, b)
                    sides.append(eq(L, mk))
                got = [{canon(r) for r in s} for s in sides]
                ctx.check(got[0] == got[1], "C31.symmetric", f"{L.name}({fa},{fb})",
                          f"a == b is decided by {show_conds(sides[0])}, b == a by {show_conds(sides[1])}", loc[L.name])
    # -- hash --------------------------------------------------------------------------------------
    for L in (G, C):
        why = {}
        for fa in (False, True):
            for fb in (False, True):
                for r in eq(L, lambda it: (L.make(it, "a", fa), L.make(it, "b", fb))):
                    if r.outcome != "return" or r.value is not True:
                        continue
                    hs = [run(lambda it, p=p, f=f: it.call(Builtin("hash"), [L.make(it, p, f)], {})) for p, f in (("a", fa), ("b", fb))]
                    if any(len(h) != 1 or h[0].outcome != "return" for h in hs):
                        why.setdefault(L.name, f"hash({L.name}) gives {hs}")
                        continue
                    cl = Closure([(k[1], k[2]) for k, b in r.conds if b and k[0] == "eq"])
                    x, y = (term(h[0].value) for h in hs)
                    if not cl.equal(x, y):
                        # within a tolerance, no hash of the exact components can agree
                        near = [k for k, b in r.conds if k[0] == "lt" and "const" in (k[1][0], k[2][0])]
                        exact = all(h == ("call", ("builtin", "hash"), (("tuple", *(("sym", p + c) for c in L.coords), ("const", f)),), ())
                                    for h, p, f in ((x, "a", fa), (y, "b", fb)))
                        name = L.name + (" within a tolerance" if near and exact else "")
                        why.setdefault(name, f"equal when {show_conds([r])}, but the hashes are {show(x)} and {show(y)}")
        for n, w in why.items():
            ctx.bad("C31.hash", n, w, loc[L.name])
        if not why:
            ctx.ok("C31.hash", L.name)
    # -- other kinds -------------------------------------------------------------------------------
    strange = {"a number": lambda it: Fraction(5), "None": lambda it: None, "a tuple": lambda it: tuple(syms("a", G)), "another object": lambda it: Obj("object", {})}
    for L in ALL:
        strange["its components"] = lambda it: tuple(syms("a", L))
        strange["its components and unit"] = lambda it: (*syms("a", L), False)
        others = {M.name: (lambda it, M=M: M.make(it, "a", False)) for M in ALL if M is not L} | strange
        for n, mk in others.items():
            rs = run(lambda it: it.equal(L.make(it, "a", False), mk(it)))
            bad = [r for r in rs if r.outcome == "return" and r.value is not False]
            ctx.check(not bad, "C31.kinds", f"{L.name}=={n}", f"a {L.name} equals {n}", loc[L.name])
            if L.data:
                continue
            for m in ("-", "straight_line_distance"):
                def th(it):
                    o = L.make(it, "a", False)
                    return it.bin(ast.Sub(), o, mk(it)) if m == "-" else it.call(it.getattr(o, m), [mk(it)], {})
                bad = [r for r in run(th) if r.outcome == "return"]
                ctx.check(not bad, "C31.kinds", f"{L.name} {m} {n}", f"{m} of a {L.name} and {n} gives {bad[:1]} instead of raising", loc[L.name])
    # -- distances ---------------------------------------------------------------------------------
    kz = ("sym", f"{show(ALT)}->{show(DIST)}")
    km = ("sym", f"{show(ALT)}->{show(METRE)}")
    kd = ("sym", f"{show(METRE)}->{show(DIST)}")

    def deg(p, flag):
        return tuple(("call", ("ext", "math.degrees"), (("sym", p + c),), ()) if flag else ("sym", p + c) for c in ("lat", "lon"))

    for fa in (False, True):
        for fb in (False, True):
            for m in ("-", "straight_line_distance"):
                def th(it, L=C):
                    a, b = L.make(it, "a", fa), L.make(it, "b", fb)
                    return it.bin(ast.Sub(), a, b) if m == "-" else it.call(it.getattr(a, m), [b], {})
                za, zb = (times(("sym", p + "z"), kz) if f else ("sym", p + "z") for p, f in (("a", fa), ("b", fb)))
                want = add(sq(minus(("sym", "ax"), ("sym", "bx"))), sq(minus(("sym", "ay"), ("sym", "by"))), sq(minus(za, zb)))
                judge(ctx, run(th), lambda t: same_square(t, want), f"{C.name} {m} ({fa},{fb})", "the root of the sum of squares in distance units", loc[C.name])
            da, db = (("tuple", *deg(p, f)) for p, f in (("a", fa), ("b", fb)))
            great = [("geodist", x, y, DIST) for x, y in ((da, db), (db, da))]

            def th(it):
                return it.bin(ast.Sub(), G.make(it, "a", fa), G.make(it, "b", fb))
            judge(ctx, run(th), lambda t: t in great, f"{G.name} - ({fa},{fb})", "the model's distance between the two points in degrees, in distance units", loc[G.name])

            def th(it):
                return it.call(it.getattr(G.make(it, "a", fa), "dist_with_altitude"), [G.make(it, "b", fb)], {})
            dz = sq(times(minus(("sym", "aalt"), ("sym", "balt")), kz))
            judge(ctx, run(th), lambda t: any(same_square(t, add(dz, sq(g))) for g in great), f"{G.name}.dist_with_altitude ({fa},{fb})",
                  "the root of the squared ground distance and height difference, both in distance units", loc[G.name])

            def th(it):
                return it.call(it.getattr(G.make(it, "a", fa), "straight_line_distance"), [G.make(it, "b", fb)], {})
            pa, pb = ((*deg(p, f), times(("sym", p + "alt"), km)) for p, f in (("a", fa), ("b", fb)))
            parts = [sq(minus(("ecef", ax, ("tuple", *pa)), ("ecef", ax, ("tuple", *pb)))) for ax in "xyz"]
            judge(ctx, run(th), lambda t: same_square(t, times(sq(kd), add(*parts))), f"{G.name}.straight_line_distance ({fa},{fb})",
                  "the distance of the ECEF points of (degrees, degrees, metres), converted from metres to distance units", loc[G.name])
    for f in (False, True):
        def th(it):
            o = C.make(it, "a", f)
            return it.bin(ast.Sub(), o, C.make(it, "a", f))
        judge(ctx, run(th), lambda t: not square(t)[0], f"{C.name}({f})", "zero", loc[C.name], "C31.zero")
    # -- no method changes a location --------------------------------------------------------------
    for L in ALL:
        seen = set()
        for k in L.cls.mro_classes if hasattr(L.cls, "mro_classes") else [L.cls]:
            for n, f in k.methods.items():
                if n in seen or n in ("__setattr__", "__init_subclass__") or f in prog.building() or f.cls is None or f.cls.name == "UpstageBase" or f.module.name == "base":
                    continue
                seen.add(n)
                ps = [a.arg for a in f.node.args.args[1:]]
                need = len(ps) - len(f.node.args.defaults)
                if need > 1:
                    continue
                for fa in (False, True):
                    box = {}

                    def th(it):
                        a, b = L.make(it, "a", fa), L.make(it, "b", not fa)
                        box["v"] = [(a, dict(a.attrs)), (b, dict(b.attrs))]
                        arg = [Fraction(1) if n == "__getitem__" else b] if need else []
                        fn = it.getattr(a, n)
                        if callable(getattr(it, "call", None)) and not f.is_property:
                            it.call(fn, arg, {})
                        for o, was in box["v"]:
                            if o.attrs != was:
                                return [k for k in {**o.attrs, **was} if o.attrs.get(k) != was.get(k)]
                        return []
                    bad = [r for r in run(th) if r.outcome == "return" and r.value]
                    ctx.check(not bad, "C31.pure", f"{L.name}.{n}", f"{L.name}.{n} changes {bad and bad[0].value}", f.loc)


def judge(ctx, rs, fine, c, want, loc, rule="C31.distance"):
    if not rs:
        return ctx.bad(rule, c, "no path", loc)
    for r in rs:
        if r.outcome != "return" or not (isinstance(r.value, T) or num(r.value)):
            return ctx.bad(rule, c, f"gives {r!r}, not {want}", loc)
        if not fine(term(r.value)):
            return ctx.bad(rule, c, f"gives {show(term(r.value))}, not {want}", loc)
    ctx.ok(rule, c)


K = Fraction(math.degrees(1.0))     # what one radian is in degrees, for comparing angles of different units
LINEAR = {"math.radians": lambda it, a, k: it.bin(ast.Div(), a[0], K), "math.degrees": lambda it, a, k: it.bin(ast.Mult(), a[0], K)}


def undecided_true(r):
    """The path says equal (whatever else it assumed)."""
    return r.outcome == "return" and r.value is not False


def canon(r):
    out = []
    for k, b in r.conds:
        if k[0] == "eq":
            k = ("eq", *sorted(map(repr, k[1:])))
        elif k[0] in ("lt",):
            k = ("lt", *(canon_term(x) for x in k[1:]))
        out.append((repr(k), b))
    return (frozenset(out), r.outcome, repr(r.value) if r.outcome == "return" else "")


def canon_term(t):
    try:
        n, d = square(t)
    except RecursionError:
        return repr(t)
    return repr((sorted(((k, v) for k, v in n.items()), key=repr), sorted(((k, v) for k, v in d.items()), key=repr)))


def show_conds(rs):
    return [" and ".join(f"{'' if b else 'not '}{show(k)}" for k, b in r.conds) for r in rs if r.outcome == "return" and r.value is True]
