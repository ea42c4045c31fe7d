"""C33: the earth models: degrees at the boundaries, latitude before longitude, lengths in their units."""
from __future__ import annotations

import ast

from fractions import Fraction

from .. import trig
from ..api import Ctx, prop
from ..value import Builtin, Class, Fn, Obj, Scope, T, explore, num, show, term
from .unit_rules import LENGTH

R = ("sym", "earth_radius")
F = Fraction


def factor(u):
    """Metres in one of a unit, as a term."""
    if u[0] == "const":
        return ("const", LENGTH.get(u[1], F(1)))
    return ("sym", f"m/{show(u)}")


def h_convert(it, a, k):
    f = it.prog.func("units.convert:unit_convert")
    d = dict(zip([x.arg for x in f.node.args.args], a)) | k
    v, x, y = (d[n.arg] for n in f.node.args.args[:3])
    return it.named(T(("bin", "/", ("bin", "*", term(v), factor(term(x))), factor(term(y))), "num"))


def h_const(it, v):
    """The radius of the earth is a length."""
    if 6_300_000 < v < 6_400_000:
        return T(("bin", "*", R, ("const", F(v) / 6378137)), "num") if v != 6378137 else T(R, "num")
    return v


BASE = {"units.convert:unit_convert": h_convert, "const": h_const, "base:UpstageBase.__init__": lambda it, a, k: None,
        ("attr", "stage"): lambda it, o: T(("sym", "stage")), ("attr", "env"): lambda it, o: T(("sym", "env"))}


def sym(n):
    return T(("sym", n), "num")


class Space:
    """The symbols of a run and what they are."""

    def __init__(self):
        self.angles = set()          # degrees
        self.turned = {}             # atoms turned with the longitudes
        self.metre = {R: 1}
        self.unit = {}               # U -> weight, of lengths in the unit asked for
        self.other = {}              # symbol -> normal form

    def lat(self, n):
        self.angles.add(n)
        return sym(n)

    def lon(self, n):
        self.angles.add(n)
        self.turned[("sym", n)] = F(1)
        return sym(n)

    def angle(self, n):
        self.angles.add(n)
        return sym(n)

    def length(self, n, u=None):
        if u is None:
            self.metre[("sym", n)] = 1
        else:
            self.unit[("sym", n)] = 1
        return sym(n)

    def units(self, n):
        self.metre[factor(("sym", n))] = 1
        self.unit[factor(("sym", n))] = -1
        return T(("sym", n), "str")

    def nf(self, it):
        return trig.Nf(it.defs, self.angles, lambda t: self.other.get(t))

    def grades(self):
        return trig.Degrees(), trig.Turn(self.turned), trig.Scale(self.metre, "metres to the power"), trig.Scale(self.unit, "asked-for units to the power")


def sub_p(p, f):
    return p


# kinds of outputs: (degrees, turn, metres, units)
KINDS = {
    "latitude": (1, 0, 0, 0), "longitude": (1, 1, 0, 0), "bearing": (1, 0, 0, 0), "distance": (0, 0, 0, 1), "metres": (0, 0, 1, 0),
    "latitude in radians": (0, 0, 0, 0), "longitude in radians": (0, 1, 0, 0), "angle in radians": (0, 0, 0, 0), "course in radians": (0, 0, 0, 0),
}


def flat(v):
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in flat(y)]
    return [v]


@prop("C33")
def geography(ctx: Ctx):
    prog = ctx.prog
    S, W = prog.cls("Spherical"), prog.cls("WGS84")
    ru = ctx.rule
    ru("C33.degrees", "angles given and returned are in degrees, and trigonometric functions are applied to radians", 40)
    ru("C33.order", "latitude comes before longitude: turning all longitudes turns the longitudes returned and changes nothing else", 40)
    ru("C33.length", "distances and heights are in the units asked for, metres otherwise, and lengths enter angles only as fractions of each other", 40)
    ru("C33.points", "each function returns the points it is asked for, from the first to the last", 8)
    ru("C33.objects", "a location object, in degrees or radians, is as good as its latitude and longitude in degrees", 12)
    ru("C33.domain", "what is within the domain of an inverse function but for rounding is kept within it", 3)
    ru("C33.formula", "distances, bearings and destinations are those of the great circle (sphere) and of Vincenty's formulas (WGS84)", 10)
    ru("C33.callers", "the package gives the earth models degrees, latitude first, and metres for heights", 14)

    def run(thunk, extra=None, max_iter=2):
        rs = explore(prog, thunk, intercept={**BASE, **(extra or {})}, max_iter=max_iter, name_over=20)
        ctx.paths_n += len(rs)
        for r in rs:
            ctx.functions |= r.it.used
        return rs

    def method(c, n, *a, **k):
        return lambda it: it.call(it.getattr(c, n), list(a), dict(k))

    def grade(c, loc, sp, nf, v, kind, turn=True):
        """Check the kind of a value."""
        try:
            p = nf(term(v))
        except trig.TooBig:
            return ctx.bad("C33.degrees", c, f"the {kind} is too large a formula to decide", loc)
        except ZeroDivisionError:
            return ctx.bad("C33.degrees", c, f"the {kind} divides by zero", loc)
        deg, trn, met, uni = sp.grades()
        want = KINDS[kind]
        try:
            d = deg.poly(p)
            fine = d == want[0] or not p.d
            ctx.check(fine, "C33.degrees", c, f"the {kind} is in {deg.say(d)}: {trig.text(p)}", loc)
        except trig.Bad as e:
            ctx.bad("C33.degrees", c, f"the {kind}: {e}", loc)
        if turn:
            try:
                t = trn.shift(p)
                ctx.check(t == want[1] or not p.d, "C33.order", c, f"when all longitudes are turned, the {kind} {trn.say(t)}: {trig.text(p)}", loc)
            except trig.Bad as e:
                ctx.bad("C33.order", c, f"the {kind} depends on longitudes as if they were something else: {e}", loc)
        try:
            m, u = met.poly(p), uni.poly(p)
            ctx.check((m, u) == want[2:] or not p.d, "C33.length", c, f"the {kind} has {met.say(m)}, {uni.say(u)}: {trig.text(p)}", loc)
        except trig.Bad as e:
            ctx.bad("C33.length", c, f"the {kind}: {e}", loc)
        return p

    def conditions(c, loc, sp, nf, r, turn=True):
        for k, _ in r.conds:
            if k[0] in ("lt", "eq"):
                deg, trn, met, uni = sp.grades()
                try:
                    a, b = trig.units(nf(k[1]), nf(k[2]))
                    p = a - b
                    if a.const() is None and b.const() is None:
                        deg.poly(p)
                        met.poly(p)
                        if turn:
                            w = trn.shift(p)
                            if w:
                                raise trig.Bad("longitudes are compared with something else")
                except trig.Bad as e:
                    ctx.bad("C33.degrees", c, f"a comparison: {e}", loc)
                except trig.TooBig:
                    pass

    def returns(c, loc, rs, allow=()):
        got = [r for r in rs if r.outcome == "return"]
        for r in rs:
            if r.outcome == "raise" and not (r.value.cls in allow):
                ctx.bad("C33.points", c, f"raises {r.value!r}", loc)
        if not got:
            ctx.bad("C33.points", c, "never returns", loc)
        return got

    VINC = {"max_iter": 1}
    # -- each function on its own ------------------------------------------------------------------
    SPECS = [
        ("distance", lambda s: [(s.lat("lat1"), s.lon("lon1")), (s.lat("lat2"), s.lon("lon2")), s.units("U")], ["distance"], True),
        ("bearing", lambda s: [(s.lat("lat1"), s.lon("lon1")), (s.lat("lat2"), s.lon("lon2"))], ["bearing"], True),
        ("distance_and_bearing", lambda s: [(s.lat("lat1"), s.lon("lon1")), (s.lat("lat2"), s.lon("lon2")), s.units("U")], ["distance", "bearing"], True),
        ("point_from_bearing_dist", lambda s: [(s.lat("lat1"), s.lon("lon1")), s.angle("course"), s.length("d", "U"), s.units("U")], ["latitude", "longitude"], True),
        ("point_along", lambda s: [(s.lat("lat1"), s.lon("lon1")), (s.lat("lat2"), s.lon("lon2")), sym("f")], ["latitude", "longitude"], False),
        ("cross_track_distance", lambda s: [(s.lat("lat1"), s.lon("lon1")), (s.lat("lat2"), s.lon("lon2")), (s.lat("lat3"), s.lon("lon3")), s.units("U")], ["distance"], False),
        ("cross_track_point", lambda s: [(s.lat("lat1"), s.lon("lon1")), (s.lat("lat2"), s.lon("lon2")), (s.lat("lat3"), s.lon("lon3"))], ["latitude", "longitude"], False),
    ]
    forms = {}
    for C in (S, W):
        for n, mk, kinds, both in SPECS:
            f = C.find(n)
            if f is None:
                if both or C is S:
                    ctx.bad("C33.points", f"{C.name}.{n}", "there is no such function", f"{C.module.rel}:{C.node.lineno}")
                continue
            for its in ((1, 2) if C is W else (1,)):
                sp = Space()
                args = mk(sp)
                kw = {"max_iter": its} if "max_iter" in [a.arg for a in f.node.args.args] else {}
                c = f"{C.name}.{n}"
                rs = run(method(C, n, *args, **kw))
                for r in returns(c, f.loc, rs, ("ValueError",)):
                    nf = sp.nf(r.it)
                    vs = flat(r.value)
                    if len(vs) != len(kinds):
                        ctx.bad("C33.points", c, f"returns {len(vs)} values, not {' and '.join(kinds)}", f.loc)
                        continue
                    ps = [grade(c, f.loc, sp, nf, v, k) for v, k in zip(vs, kinds)]
                    conditions(c, f.loc, sp, nf, r)
                    if all(x is not None for x in ps):
                        forms.setdefault(c if its == 1 else c + "'", []).append((r, ps))
            once, twice = ({tuple(x.key() for x in ps) for _, ps in forms.get(k, ())} for k in (c, c + "'"))
            if C is W and n in ("distance", "bearing", "distance_and_bearing", "point_from_bearing_dist"):
                ctx.check(twice > once, "C33.formula", c, "a second iteration computes the same as the first", f.loc)
            ctx.ok("C33.points", f"{C.name}.{n}")
        # objects
        for n, mk, kinds, both in SPECS:
            f = C.find(n)
            if f is None:
                continue
            c = f"{C.name}.{n}"
            for rad in (False, True):
                sp = Space()
                args = mk(sp)
                names = [a for a in args if isinstance(a, tuple)]
                if rad:
                    sp.angles -= {x.t[1] for p in names for x in p}

                def th(it):
                    G = prog.cls("GeodeticLocation")
                    xs = [it.construct(G, [a[0], a[1]], {"in_radians": rad}) if isinstance(a, tuple) else a for a in args]
                    return it.call(it.getattr(C, n), xs, {"max_iter": 1} if "max_iter" in [a.arg for a in f.node.args.args] else {})
                rs = [r for r in run(th) if r.outcome == "return"]
                want = {tuple(x.key() for x in ps) for _, ps in forms.get(c, [])}
                got = set()
                for r in rs:
                    nf = sp.nf(r.it)
                    try:
                        got.add(tuple(nf(term(v)).key() for v in flat(r.value)))
                    except (trig.TooBig, ZeroDivisionError):
                        got.add("?")
                # a comparison of coordinates is decided for each
                ctx.check(bool(got) and got == want, "C33.objects", f"{c}({'radians' if rad else 'degrees'})",
                          f"given location objects in {'radians' if rad else 'degrees'} it computes something else than for their latitude and longitude in degrees", f.loc)
    # -- conversions -------------------------------------------------------------------------------
    for C in (S, W):
        for rad in (False, True):
            sp = Space()
            la, lo, al = sp.lat("lat1"), sp.lon("lon1"), sp.length("alt")
            if rad:
                sp.angles.clear()
            f = prog.method(C, "lla2ecef")
            c = f"{C.name}.lla2ecef({'radians' if rad else 'degrees'})"
            second = (sp.lat("lat2"), sp.lon("lon2"), sp.length("alt2"))
            if rad:
                sp.angles.clear()
            for r in returns(c, f.loc, run(method(C, "lla2ecef", [(la, lo, al), second], rad))):
                nf = sp.nf(r.it)
                vs = [flat(v) for v in r.value] if isinstance(r.value, (list, tuple)) else []
                if [len(v) for v in vs] != [3, 3]:
                    ctx.bad("C33.points", c, f"returns {len(vs)} points for two", f.loc)
                    continue
                ctx.ok("C33.points", c)
                for i, v in enumerate(vs):
                    xyz = cartesian(ctx, c, f.loc, sp, nf, v)
                    if xyz and i == 0:
                        forms.setdefault(c, []).append((r, xyz))
                mine = {a for v in vs[1] for a in syms(r.it, term(v))}
                ctx.check({"lat2", "lon2", "alt2"} <= mine and not mine & {"lat1", "lon1", "alt"}, "C33.points", c, "the second point is not computed from the second location", f.loc)
            sp = Space()
            az = ("sym", "azimuth")
            sp.turned[az] = F(1)
            hor = trig.atom(("sym", "horizontal"))
            sp.metre[("sym", "horizontal")] = 1
            e = trig.expi(trig.atom(az))
            sp.other[("sym", "X")] = hor * (e + trig.conj(e)).scale(F(1, 2))
            sp.other[("sym", "Y")] = hor * (e - trig.conj(e)).scale((F(0), F(-1, 2)))
            z = sp.length("Z")
            f = prog.method(C, "ecef2lla")
            c = f"{C.name}.ecef2lla({'radians' if rad else 'degrees'})"
            for r in returns(c, f.loc, run(method(C, "ecef2lla", [(sym("X"), sym("Y"), z)], rad))):
                nf = sp.nf(r.it)
                vs = flat(r.value)
                if len(vs) != 3:
                    ctx.bad("C33.points", c, f"returns {len(vs)} values for one point", f.loc)
                    continue
                ctx.ok("C33.points", c)
                suffix = " in radians" if rad else ""
                ps = [grade(c, f.loc, sp, nf, v, k) for v, k in zip(vs, ("latitude" + suffix, "longitude" + suffix, "metres"))]
                if all(x is not None for x in ps):
                    forms.setdefault(c, []).append((r, ps))
    # -- the formulas ------------------------------------------------------------------------------
    formulas(ctx, prog, forms)
    domain(ctx, prog)
    # -- paths and circles, by what the functions they call give -----------------------------------
    lines(ctx, prog, run, grade, returns, S, W)
    callers(ctx, prog, run)


def cartesian(ctx, c, loc, sp, nf, v):
    """x, y, z of a point: lengths; x + iy turns once, z does not."""
    ps = []
    for x in v:
        try:
            ps.append(nf(term(x)))
        except (trig.TooBig, ZeroDivisionError):
            ctx.bad("C33.degrees", c, "a coordinate cannot be decided", loc)
            return None
    deg, trn, met, uni = sp.grades()
    try:
        ctx.check(all(deg.poly(p) == 0 for p in ps), "C33.degrees", c, "a coordinate is in degrees", loc)
    except trig.Bad as e:
        ctx.bad("C33.degrees", c, f"a coordinate: {e}", loc)
    try:
        ctx.check(all(met.poly(p) == 1 for p in ps), "C33.length", c, "a coordinate is not in metres", loc)
    except trig.Bad as e:
        ctx.bad("C33.length", c, f"a coordinate: {e}", loc)
    try:
        up, down = trn.poly(ps[0] + trig.I * ps[1]), trn.poly(ps[0] - trig.I * ps[1])
        ctx.check((up, down, trn.shift(ps[2])) == (1, -1, 0), "C33.order", c, "when the longitude is turned, the point does not turn about the axis", loc)
    except trig.Bad as e:
        ctx.bad("C33.order", c, f"when the longitude is turned, the point does not turn about the axis: {e}", loc)
    return ps


def syms(it, t, seen=None):
    seen = set() if seen is None else seen
    out = set()
    if t[0] == "def":
        if t not in seen:
            seen.add(t)
            out |= syms(it, it.defs[t[1]], seen)
        return out
    if t[0] == "sym":
        return {t[1]}
    for x in t:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], tuple):
                for y in x:
                    if isinstance(y, tuple) and y:
                        out |= syms(it, y, seen)
            else:
                out |= syms(it, x, seen)
    return out


# -- published formulas -----------------------------------------------------------------------------
class X:
    def __init__(self, t):
        self.t = t

    def _b(self, op, o, rev=False):
        o = o.t if isinstance(o, X) else ("const", F(str(o)) if isinstance(o, float) else F(o))
        return X(("bin", op, o, self.t) if rev else ("bin", op, self.t, o))

    def __add__(self, o): return self._b("+", o)
    def __radd__(self, o): return self._b("+", o, True)
    def __sub__(self, o): return self._b("-", o)
    def __rsub__(self, o): return self._b("-", o, True)
    def __mul__(self, o): return self._b("*", o)
    def __rmul__(self, o): return self._b("*", o, True)
    def __truediv__(self, o): return self._b("/", o)
    def __rtruediv__(self, o): return self._b("/", o, True)
    def __pow__(self, o): return self._b("**", o)
    def __neg__(self): return X(("neg", self.t))
    def __mod__(self, o): return self._b("%", o)


def fun(n):
    return lambda *a: X(("call", ("ext", "math." + n), tuple(x.t if isinstance(x, X) else ("const", F(x)) for x in a), ()))


def fab(x):
    return X(("call", ("builtin", "abs"), (x.t,), ()))


sin, cos, tan, asin, acos, atan, atan2, sqrt, radians, degrees = (fun(n) for n in "sin cos tan asin acos atan atan2 sqrt radians degrees".split())


def v(n):
    return X(("sym", n))


STEPS: dict = {}


def ref():
    lat1, lon1, lat2, lon2 = (radians(v(n)) for n in ("lat1", "lon1", "lat2", "lon2"))
    r, u = X(R), X(factor(("sym", "U")))
    a = sin((lat2 - lat1) / 2) ** 2 + cos(lat1) * cos(lat2) * sin((lon2 - lon1) / 2) ** 2
    hav = [2 * r * atan2(sqrt(a), sqrt(1 - a)) / u, 2 * r * asin(sqrt(a)) / u]
    brg = [degrees(atan2(sin(lon2 - lon1) * cos(lat2), cos(lat1) * sin(lat2) - sin(lat1) * cos(lat2) * cos(lon2 - lon1))) % 360]
    d = v("d") * u / r
    course = radians(v("course"))
    la = asin(sin(lat1) * cos(d) + cos(lat1) * sin(d) * cos(course))
    lo = lon1 + atan2(sin(course) * sin(d) * cos(lat1), cos(d) - sin(lat1) * sin(la))
    out = {"Spherical.distance": (hav,), "Spherical.bearing": (brg,), "Spherical.distance_and_bearing": (hav, brg),
           "Spherical.point_from_bearing_dist": ([degrees(la)], [degrees(lo)])}
    # Vincenty, one step of the iteration
    f = 1 / X(("const", F("298.257223563")))
    b = r * (1 - f)
    U1, U2 = atan((1 - f) * tan(lat1)), atan((1 - f) * tan(lat2))
    L = lon2 - lon1
    ssig = sqrt((cos(U2) * sin(L)) ** 2 + (cos(U1) * sin(U2) - sin(U1) * cos(U2) * cos(L)) ** 2)
    csig = sin(U1) * sin(U2) + cos(U1) * cos(U2) * cos(L)
    sig = atan2(ssig, csig)
    salp = cos(U1) * cos(U2) * sin(L) / ssig
    c2 = 1 - salp ** 2
    c2sm = csig - 2 * sin(U1) * sin(U2) / c2

    def ab(c2, c2sm, ssig, csig):
        u2 = c2 * (r ** 2 - b ** 2) / b ** 2
        A = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)))
        B = u2 / 1024 * (256 + u2 * (-128 + u2 * (74 - 47 * u2)))
        ds = B * ssig * (c2sm + B / 4 * (csig * (2 * c2sm ** 2 - 1) - B / 6 * c2sm * (4 * ssig ** 2 - 3) * (4 * c2sm ** 2 - 3)))
        return A, ds
    A, ds = ab(c2, c2sm, ssig, csig)
    s = b * A * (sig - ds)
    vd = [s / u, X(("call", ("builtin", "round"), (s.t, ("const", F(6))), ())) / u]
    vb = [degrees(atan2(cos(U2) * sin(L), cos(U1) * sin(U2) - sin(U1) * cos(U2) * cos(L))) % 360]
    out |= {"WGS84.distance": (vd,), "WGS84.bearing": (vb,), "WGS84.distance_and_bearing": (vd, vb)}
    C = f / 16 * c2 * (4 + f * (4 - 3 * c2))
    STEPS["WGS84.distance_and_bearing"] = fab((1 - C) * f * salp * (sig + C * ssig * (c2sm + C * csig * (2 * c2sm ** 2 - 1))))
    m = v("d") * u
    tU = (1 - f) * tan(lat1)
    cU = 1 / sqrt(1 + tU ** 2)
    sU = tU * cU
    s1 = atan2(tU, cos(course))
    sa = cU * sin(course)
    c2 = 1 - sa ** 2
    A0, _ = ab(c2, v("zero"), v("zero"), v("zero"))
    sig0 = m / (b * A0)
    c2sm, ssig, csig = cos(2 * s1 + sig0), sin(sig0), cos(sig0)
    A, ds = ab(c2, c2sm, ssig, csig)
    sig = m / (b * A) + ds
    x = sU * ssig - cU * csig * cos(course)
    phi = atan2(sU * csig + cU * ssig * cos(course), (1 - f) * sqrt(sa ** 2 + x ** 2))
    lam = atan2(ssig * sin(course), cU * csig - sU * ssig * cos(course))
    C = f / 16 * c2 * (4 + f * (4 - 3 * c2))
    lo = lon1 + lam - (1 - C) * f * sa * (sig + C * ssig * (c2sm + C * csig * (2 * c2sm ** 2 - 1)))
    out["WGS84.point_from_bearing_dist"] = ([degrees(phi)], [degrees(lo)])
    # cross tracks, and points on the way
    lat3, lon3 = radians(v("lat3")), radians(v("lon3"))

    def haversine(la1, lo1, la2, lo2):
        a = sin((la2 - la1) / 2) ** 2 + cos(la1) * cos(la2) * sin((lo2 - lo1) / 2) ** 2
        return [2 * atan2(sqrt(a), sqrt(1 - a)), 2 * asin(sqrt(a))]

    def course(la1, lo1, la2, lo2):
        b = atan2(sin(lo2 - lo1) * cos(la2), cos(la1) * sin(la2) - sin(la1) * cos(la2) * cos(lo2 - lo1))
        return [radians(degrees(b) % 360), b]
    ct, cp = [], ([], [])
    for d13 in haversine(lat1, lon1, lat3, lon3):
        for t13, t12 in zip(course(lat1, lon1, lat3, lon3), course(lat1, lon1, lat2, lon2)):
            x = asin(sin(d13) * sin(t13 - t12))
            ct += [fab(x) * r / u, fab(x * r) / u]
            # along the track, behind the origin with a negative sign
            d = atan2(sin(d13) * cos(t13 - t12), cos(d13))
            la = asin(sin(lat1) * cos(d) + cos(lat1) * sin(d) * cos(t12))
            cp[0].append(degrees(la))
            cp[1].append(degrees(lon1 + atan2(sin(t12) * sin(d) * cos(lat1), cos(d) - sin(lat1) * sin(la))))
    out["Spherical.cross_track_distance"] = (ct,)
    out["Spherical.cross_track_point"] = cp
    pa = ([], [])
    for d in haversine(lat1, lon1, lat2, lon2):
        a, b = sin((1 - v("f")) * d) / sin(d), sin(v("f") * d) / sin(d)
        x, y = (a * cos(lat1) * g(lon1) + b * cos(lat2) * g(lon2) for g in (cos, sin))
        z = a * sin(lat1) + b * sin(lat2)
        pa[0].append(degrees(atan2(z, sqrt(x ** 2 + y ** 2))))
        pa[1].append(degrees(atan2(y, x)))
    out["Spherical.point_along"] = pa
    # earth-centred coordinates
    h = v("alt")
    out["Spherical.lla2ecef(degrees)"] = ([(r + h) * cos(lat1) * cos(lon1)], [(r + h) * cos(lat1) * sin(lon1)], [(r + h) * sin(lat1)])
    e2 = f * (2 - f)
    N = r / sqrt(1 - e2 * sin(lat1) ** 2)
    out["WGS84.lla2ecef(degrees)"] = ([(N + h) * cos(lat1) * cos(lon1)], [(N + h) * cos(lat1) * sin(lon1)], [(N * (1 - e2) + h) * sin(lat1)])
    return out


def equal(p, q):
    """Equal as rational functions."""
    if p == q:
        return True
    try:
        d = p - q
    except trig.TooBig:
        return False
    for _ in range(6):
        if not d.d:
            return True
        dens = {}
        for k in d.d:
            for a, e in k:
                if a[0] == "sum" and e < 0:
                    dens[a] = min(dens.get(a, 0), e)
        if not dens:
            break
        try:
            for a, e in dens.items():
                d = P_times(d, a, -e)
        except trig.TooBig:
            return False
    return not d.d


def P_times(d, a, e):
    return trig.reduce_powers(trig.P({trig.mono_mul(k, ((a, e),)): w for k, w in d.d.items()}))


def domain(ctx, prog):
    """sqrt, asin and acos of a sum that is within their domain but for rounding."""
    for m in prog.modules.values():
        if not (m.rel.endswith("geography/spherical.py") or m.rel.endswith("great_circle_calcs.py") or m.rel.endswith("geography/conversions.py")):
            continue
        for fn in ast.walk(m.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            once = {}
            for a in ast.walk(fn):
                if isinstance(a, ast.Name) and isinstance(a.ctx, ast.Store):
                    once.setdefault(a.id, []).append(None)
            for a in ast.walk(fn):
                t = a.targets[0] if isinstance(a, ast.Assign) and len(a.targets) == 1 else a.target if isinstance(a, ast.AnnAssign) else None
                if isinstance(t, ast.Name) and a.value is not None and len(once.get(t.id, ())) == 1:
                    once[t.id] = [a.value]

            def res(e):
                for _ in range(9):
                    if isinstance(e, ast.Name) and len(once.get(e.id, ())) == 1 and once[e.id][0] is not None:
                        e = once[e.id][0]
                    elif isinstance(e, ast.Call) and last(e) == "cast" and len(e.args) == 2:
                        e = e.args[1]
                    else:
                        break
                return e

            def last(c):
                return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ""

            def trig_sum(e):
                return isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and any(
                    isinstance(x, ast.Call) and last(x) in ("sin", "cos") for x in ast.walk(e))

            for c in ast.walk(fn):
                if not isinstance(c, ast.Call) or last(c) not in ("sqrt", "asin", "acos") or len(c.args) != 1:
                    continue
                x = res(c.args[0])
                n = last(c)
                if n == "sqrt":
                    out = isinstance(x, ast.BinOp) and isinstance(x.op, ast.Sub) and (
                        trig_sum(res(x.right)) if isinstance(x.left, ast.Constant) else m.rel.endswith("conversions.py") and isinstance(x.left, ast.BinOp))
                else:
                    out = trig_sum(x) or isinstance(x, ast.Call) and last(x) == "sqrt" and len(x.args) == 1 and trig_sum(res(x.args[0]))
                ctx.check(not out, "C33.domain", f"{fn.name}:{n}", f"{n} is given a sum that rounding takes out of its domain (it raises near "
                          "poles and opposite points); it is not kept within the domain", f"{m.rel}:{c.lineno}")


def formulas(ctx, prog, forms):
    for name, want in ref().items():
        cls, n = name.split("(")[0].split(".")
        f = prog.method(prog.cls(cls), n)
        angles = {"lat1", "lon1", "lat2", "lon2", "lat3", "lon3", "course"}
        nf = trig.Nf((), angles)
        ws = [[nf(w.t) for w in alts] for alts in want]
        got, here = [], 0
        for r, ps in forms.get(name, []):
            if n == "point_along" and r.conds and all(any(equal(p, nf(("sym", f"{x}{i}"))) for i in "12") for x, p in zip(("lat", "lon"), ps)):
                here += 1
            else:
                got.append(ps)
        if n == "point_along":
            ctx.check(here, "C33.formula", f"{name} of one place", "the point between a place and itself is not told apart: the formula divides by zero", f.loc)
        got = [ps for ps in got if any(p.d for p in ps)]      # the same point: zero
        if not got:
            ctx.bad("C33.formula", name, "no value to compare", f.loc)
            continue
        for ps in got:
            for i, (p, alts) in enumerate(zip(ps, ws)):
                if any(equal(p, w) for w in alts):
                    ctx.ok("C33.formula", name)
                elif cls == "WGS84" and degenerate(p, alts):
                    ctx.ok("C33.formula", name)
                else:
                    ctx.bad("C33.formula", name, f"value {i + 1} is not that of the published formula", f.loc)
    steps(ctx, prog, forms, STEPS)


def degenerate(p, alts):
    return False


def steps(ctx, prog, forms, wants):
    """The first step of an iteration, by what it is compared with the tolerance."""
    for name, w in wants.items():
        cls, n = name.split(".")
        f = prog.method(prog.cls(cls), n)
        nf = None
        found = other = 0
        for r, _ in forms.get(name, ()):
            nf = trig.Nf(r.it.defs, {"lat1", "lon1", "lat2", "lon2", "course"})
            for k, _ in r.conds:
                if k[0] != "lt":
                    continue
                for x, y in ((k[1], k[2]), (k[2], k[1])):
                    if x[0] == "const" and 0 < x[1] < F(1, 1000):
                        try:
                            p = nf(y)
                        except trig.TooBig:
                            continue
                        if equal(p, nf(w.t)) or equal(-p, nf(w.t)):
                            found += 1
                        else:
                            other += 1
        ctx.check(found and not other, "C33.formula", f"{name} step", "the first step of the iteration is not that of the published formula", f.loc)


# -- lines ------------------------------------------------------------------------------------------
def lines(ctx, prog, run, grade, returns, S, W):
    N = 3

    def summaries(C, sp):
        """What the other functions of the model give."""
        n = [0]

        def point(it, a, k):
            f = prog.method(C, "point_from_bearing_dist")
            d = dict(zip([x.arg for x in f.node.args.args], a)) | k
            i = n[0]
            n[0] += 1
            sp.calls.append(("point", d))
            return sp.lat(f"to_lat{i}"), sp.lon(f"to_lon{i}")

        def dab(it, a, k):
            f = prog.method(C, "distance_and_bearing")
            d = dict(zip([x.arg for x in f.node.args.args], a)) | k
            i = n[0]
            n[0] += 1
            sp.calls.append(("dab", d))
            u = term(d.get("units", "nmi"))
            if u[0] == "const":
                sp.metre[("sym", f"dist{i}")] = 1
                return T(("bin", "/", ("sym", f"dist{i}"), factor(u)), "num"), sp.angle(f"brg{i}")
            return sp.length(f"dist{i}", "U"), sp.angle(f"brg{i}")
        q = prog.method
        return {q(C, "point_from_bearing_dist").qual: point, q(C, "distance_and_bearing").qual: dab}

    for C in (S, W):
        # circles
        f = prog.method(C, "geo_circle")
        c = f"{C.name}.geo_circle"
        sp = Space()
        sp.calls = []
        args = [(sp.lat("lat1"), sp.lon("lon1")), sp.length("radius", "U"), sp.units("U"), N]
        for r in returns(c, f.loc, run(lambda it: it.call(it.getattr(C, "geo_circle"), args, {}), summaries(C, sp))):
            nf = sp.nf(r.it)
            pts = [flat(x) for x in r.value] if isinstance(r.value, (list, tuple)) else []
            calls = [d for k, d in sp.calls if k == "point"]
            ok = len(pts) == N + 1 and all(len(p) == 2 for p in pts) and len(calls) == N + 1
            ctx.check(ok, "C33.points", c, f"gives {len(pts)} points from {len(calls)} bearings for {N} segments", f.loc)
            if not ok:
                continue
            for i, (p, d) in enumerate(zip(pts, calls)):
                grade(c, f.loc, sp, nf, p[0], "latitude")
                grade(c, f.loc, sp, nf, p[1], "longitude")
                want = F(360) * i / N
                b = nf(term(d["bearing"])).const()
                ctx.check(b == want, "C33.points", c, f"point {i} is at bearing {b}, not {float(want):g} degrees", f.loc)
                call_ok(ctx, c, f.loc, sp, nf, d, ("sym", "radius"))
        # lines
        f = prog.method(C, "geo_linspace")
        c = f"{C.name}.geo_linspace"
        sp = Space()
        sp.calls = []
        a, b = (sp.lat("lat1"), sp.lon("lon1")), (sp.lat("lat2"), sp.lon("lon2"))
        if C is W:
            for r in returns(c, f.loc, run(lambda it: it.call(it.getattr(C, "geo_linspace"), [a, b, N], {}), summaries(C, sp))):
                nf = sp.nf(r.it)
                pts = [flat(x) for x in r.value] if isinstance(r.value, (list, tuple)) else []
                ok = len(pts) == N + 1 and all(len(p) == 2 for p in pts)
                ctx.check(ok, "C33.points", c, f"gives {len(pts)} points for {N} segments", f.loc)
                if not ok:
                    continue
                for p in pts:
                    grade(c, f.loc, sp, nf, p[0], "latitude")
                    grade(c, f.loc, sp, nf, p[1], "longitude")
                calls = [d for k, d in sp.calls if k == "point"]
                for d in calls:
                    call_ok(ctx, c, f.loc, sp, nf, d, None)
                ways = [nf(("bin", "*", term(d["distance"]), factor(term(d.get("distance_units", "nmi"))))) for d in calls]
                # from the start on, or from the point before
                ds = [nf(("sym", f"dist{i}")).scale(F(1)) for i in range(9) if ("sym", f"dist{i}") in sp.metre]
                ctx.check(bool(ds) and all(w == ds[0].scale(F(i, N)) for i, w in enumerate(ways[-(N - 1):] if len(ways) < N else ways[1 if len(ways) == N else 1:N], 1)),
                          "C33.points", c, "the points are not at equal shares of the distance", f.loc)
                first, last = ([term(x) for x in p] for p in (pts[0], pts[-1]))
                ctx.check(first == [term(x) for x in a] and last == [term(x) for x in b], "C33.points", c, "the first and last points are not the start and the end", f.loc)
        else:
            few = 2     # each point multiplies the paths by four
            for r in run(lambda it: it.call(it.getattr(C, "geo_linspace"), [a, b, few], {})):
                if r.outcome != "return":
                    if r.value.cls not in ("ValueError", "AssertionError"):
                        ctx.bad("C33.points", c, f"raises {r.value!r}", f.loc)
                    continue
                nf = sp.nf(r.it)
                pts = [flat(x) for x in r.value]
                ctx.check(len(pts) == few + 1, "C33.points", c, f"gives {len(pts)} points for {few} segments", f.loc)
                for p in pts:
                    for x, k in zip(p, ("latitude", "longitude")):
                        grade(c, f.loc, sp, nf, x, k, turn=False)
        # with altitudes, in earth-centred coordinates
        for n in ("ecef_linspace", "ecef_and_geo_linspace"):
            f = prog.method(C, n)
            c = f"{C.name}.{n}"
            sp = Space()
            la = [sp.lat(f"lat_{i}") for i in range(N + 1)]
            lo = [sp.lon(f"lon_{i}") for i in range(N + 1)]

            def pts_of(it, a, k, ecef=False):
                seg = k.get("num_segments", a[3] if len(a) > 3 else 10)
                ends = [*a[1:3], *(k[x] for x in ("start", "end") if x in k)]
                if seg != N or [term(x) for e in ends for x in e] != [("sym", x) for x in ("lat1", "lon1", "lat2", "lon2")]:
                    return NotImplemented
                if ecef:
                    return la, lo, [tuple(sym(f"{z}{i}") for z in "xyz") for i in range(N + 1)]
                return list(zip(la, lo))

            def ecef(it, a, k):
                return [tuple(T(("ecef", z, term(tuple(it.items(p)))), "num") for z in "xyz") for p in it.items(a[1] if len(a) > 1 else next(iter(k.values())))]
            ex = {prog.method(C, "geo_linspace").qual: pts_of, prog.method(C, "lla2ecef").qual: ecef}
            g = C.find("geo_linspace_with_ecef")
            if g is not None:
                ex[g.qual] = lambda it, a, k: pts_of(it, a, k, True)
            args = [(sp.lat("lat1"), sp.lon("lon1")), (sp.lat("lat2"), sp.lon("lon2")), sp.length("alt1"), sp.length("alt2"), N]
            for r in returns(c, f.loc, run(lambda it: it.call(it.getattr(C, n), args, {}), ex)):
                nf = sp.nf(r.it)
                a1, a2 = nf(("sym", "alt1")), nf(("sym", "alt2"))
                res = r.value if n == "ecef_and_geo_linspace" else (r.value, None)
                ok = isinstance(res, (tuple, list)) and len(res) == 2 and isinstance(res[0], list) and len(res[0]) == N + 1
                ctx.check(ok, "C33.points", c, f"does not give {N + 1} points for {N} segments", f.loc)
                if not ok:
                    continue
                llas = []
                for i, p in enumerate(res[0]):
                    ts = [term(x) for x in p]
                    good = len(ts) == 3 and [t[:2] for t in ts] == [("ecef", z) for z in "xyz"] and len({t[2] for t in ts}) == 1 and len(ts[0][2]) == 4
                    if good:
                        _, x, y, h = ts[0][2]
                        llas.append((x, y, h))
                        good = (x, y) == (term(la[i]), term(lo[i])) and nf(h) == a1 + (a2 - a1).scale(F(i, N))
                    ctx.check(good, "C33.points", c, f"point {i} is not that of the line at {i}/{N} of the way with the altitude in proportion", f.loc)
                if res[1] is not None:
                    got = [tuple(term(x) for x in p) for p in res[1]]
                    ctx.check(got == llas, "C33.points", c, "the two lists do not have the same points", f.loc)


def call_ok(ctx, c, loc, sp, nf, d, length):
    """Arguments of point_from_bearing_dist."""
    deg, trn, met, uni = sp.grades()
    pt = d.get("point")
    try:
        p = [nf(term(x)) for x in pt]
        b = nf(term(d["bearing"]))
        ctx.check([deg.poly(x) for x in p] == [1, 1] and (deg.poly(b) == 1 or b.const() is not None), "C33.degrees", c, "point_from_bearing_dist is not given degrees", loc)
        ctx.check([trn.shift(x) for x in p] == [0, 1], "C33.order", c, "point_from_bearing_dist is not given latitude and longitude", loc)
        u = term(d.get("distance_units", "nmi"))
        m = nf(("bin", "*", term(d["distance"]), factor(u)))
        ctx.check((met.poly(m), uni.poly(m)) == (1, 0), "C33.length", c, "the distance given to point_from_bearing_dist is not in the units given", loc)
    except (trig.Bad, TypeError) as e:
        ctx.bad("C33.degrees", c, f"arguments of point_from_bearing_dist: {e}", loc)


DU = ("attr", ("sym", "stage"), "distance_units")
AU = ("attr", ("sym", "stage"), "altitude_units")
MODEL = ("attr", ("sym", "stage"), "stage_model")
#          degrees, turn, metres, distance units, altitude units
SORTS = {"latitude": (1, 0, 0, 0, 0), "longitude": (1, 1, 0, 0, 0), "bearing": (1, 0, 0, 0, 0), "metres": (0, 0, 1, 0, 0), "distance": (0, 0, 0, 1, 0),
         "altitude": (0, 0, 0, 0, 1), "number": (0, 0, 0, 0, 0), "speed": (0, 0, 0, 1, 0), "latitude in radians": (0, 0, 0, 0, 0), "longitude in radians": (0, 1, 0, 0, 0)}


class Sorts(Space):
    """What the values of a caller are: degrees, metres, the stage's units."""

    def __init__(self):
        super().__init__()
        self.dist, self.alt = {factor(DU): -1}, {factor(AU): -1}
        self.metre |= {factor(DU): 1, factor(AU): 1}
        self.n = 0

    def new(self, sort, n=None):
        if n is None:
            n = f"{sort}{self.n}"
            self.n += 1
        sort, _, rad = sort.partition(" in ")
        if SORTS[sort][0] and not rad:
            self.angles.add(n)
        if sort == "longitude":
            self.turned[("sym", n)] = F(1)
        for w, d in zip(SORTS[sort][2:], (self.metre, self.dist, self.alt)):
            if w:
                d[("sym", n)] = w
        return sym(n)

    def place(self, it, prog, i, rad=False):
        """A location of the package."""
        s = " in radians" if rad else ""
        G = prog.cls("GeodeticLocation")
        return it.construct(G, [self.new("latitude" + s, f"lat{i}"), self.new("longitude" + s, f"lon{i}"), self.new("altitude", f"alt{i}")], {"in_radians": rad})

    def triple(self, n):
        return self.new("latitude", "lat" + n), self.new("longitude", "lon" + n), self.new("metres", "alt" + n)

    def grade(self, p):
        met, dis, alt = (trig.Scale(w, n + " to the power") for w, n in ((self.metre, "metres"), (self.dist, "distance units"), (self.alt, "altitude units")))
        return trig.Degrees().poly(p), trig.Turn(self.turned).shift(p), met.poly(p), dis.poly(p), alt.poly(p)

    def why(self, nf, v, sort):
        """None when a value is of a sort."""
        try:
            p = nf(term(v))
            got = self.grade(p)
        except (trig.Bad, trig.TooBig, ZeroDivisionError) as e:
            return str(e) or "it cannot be decided"
        if got == SORTS[sort] or not p.d:
            return None
        names = ("degrees", "turns", "metres", "distance units", "altitude units")
        return f"not a {sort}: " + (", ".join(f"{n} {w}" for n, w in zip(names, got) if w) or "a plain number")


def callers(ctx, prog, run):
    def wanted(c, loc, sp, it, checks):
        """checks: (value, sort, what)"""
        nf = sp.nf(it)
        bad = []
        for v, sort, what in checks:
            w = sp.why(nf, v, sort)
            if w:
                bad.append(f"{what}: {w}")
        ctx.check(not bad, "C33.callers", c, "; ".join(bad[:2]), loc)

    def bind(C, n, args, kw):
        names = [a.arg for a in prog.method(C, n).node.args.args][1:]
        return dict(zip(names, args)) | kw

    def earth(sp, rec, model=MODEL):
        """The earth model of the stage, by what it gives for what it is given."""
        S = prog.cls("Spherical")

        def pt(it, p):
            return tuple(it.items(p)) if not isinstance(p, Obj) else tuple(it.items(it.call(it.getattr(p, "latlon"), [], {})))

        def ans(it, ft, args, kw):
            if ft[0] != "attr" or ft[1] != model:
                return None
            n = ft[2]
            if S.find(n) is None:
                return None
            d = bind(S, n, args, kw)
            chk = rec.setdefault("checks", [])

            def ll(k):
                p = pt(it, d[k])
                chk.extend([(p[0], "latitude", f"{k} of {n}"), (p[1], "longitude", f"{k} of {n}")])
                return p

            def length(k, unit):
                u = term(d.get(unit, "nmi"))
                chk.append((T(("bin", "*", term(d[k]), factor(u)), "num"), "metres", f"{k} of {n}"))

            def out(unit):
                u = term(d.get(unit, "nmi"))
                return T(("bin", "/", term(sp.new("metres")), factor(u)), "num")
            rec.setdefault("calls", []).append(n)
            if n == "distance":
                ll("loc1"), ll("loc2")
                return out("units")
            if n == "bearing":
                ll("loc1"), ll("loc2")
                return sp.new("bearing")
            if n == "distance_and_bearing":
                ll("loc1"), ll("loc2")
                return out("units"), sp.new("bearing")
            if n == "point_from_bearing_dist":
                ll("point")
                chk.append((d["bearing"], "bearing", f"bearing of {n}"))
                length("distance", "distance_units")
                return sp.new("latitude"), sp.new("longitude")
            if n == "lla2ecef":
                rs = []
                for p in it.items(d["locs"]) if "locs" in d else it.items(next(iter(d.values()))):
                    p = tuple(it.items(p))
                    chk.extend([(p[0], "latitude", f"a point of {n}"), (p[1], "longitude", f"a point of {n}"), (p[2], "metres", f"a point of {n}")])
                    rs.append(tuple(sp.new("metres") for _ in "xyz"))
                return rs
            if n == "ecef_and_geo_linspace":
                ks = [a.arg for a in prog.method(S, n).node.args.args][1:]
                ll(ks[0]), ll(ks[1])
                for k in ks[2:4]:
                    chk.append((d[k], "metres", f"{k} of {n}"))
                pts = [(sp.new("latitude"), sp.new("longitude"), sp.new("metres")) for _ in range(3)]
                return [tuple(sp.new("metres") for _ in "xyz") for _ in pts], pts
            ctx.bad("C33.callers", f"{n} of the earth model", "is used in a way this rule does not know", "")
            return None
        return ans

    # each caller: explored by itself, its calls of the model and its results checked
    def explore_caller(c, f, thunk, extra=None, results=None, model=MODEL, need=1, max_iter=2, allow=()):
        sp = Sorts()

        def th(it):
            it.rec = {}
            sp.n = 0
            it.ans = earth(sp, it.rec, model)
            return thunk(it, sp)
        ex = {"call": lambda it, ft, a, k: it.ans(it, ft, a, k)}
        for k, h in (extra(sp) if extra else {}).items():
            if k == "call":
                ex["call"] = lambda it, ft, a, kw, h=h: (lambda v: it.ans(it, ft, a, kw) if v is None else v)(h(it, ft, a, kw))
            else:
                ex[k] = h
        some = 0
        for r in run(th, ex, max_iter):
            checks = list(r.it.rec.get("checks", ()))
            r.it.result = r
            if r.outcome == "return" and results:
                checks += results(r.it, sp, r.value)
            some += len(checks)
            if checks:
                wanted(c, f.loc, sp, r.it, checks)
        if some < need:
            ctx.bad("C33.callers", c, "gives and takes nothing this rule knows", f.loc)

    def located(it, o, what, rad=False):
        """The checks of a location object."""
        s = " in radians" if rad else ""
        if not isinstance(o, Obj):
            return []
        is_rad = it.getattr(o, "in_radians")
        if bool(is_rad) != rad:
            o = it.call(it.getattr(o, "to_radians" if rad else "to_degrees"), [], {})
        return [(it.getattr(o, "lat"), "latitude" + s, what), (it.getattr(o, "lon"), "longitude" + s, what), (it.getattr(o, "alt"), "altitude", what)]

    G = "motion.geodetic_model:"
    for rad in (False, True):
        way = "radians" if rad else "degrees"
        f = prog.func(G + "_to_tuple")
        explore_caller(f"_to_tuple({way})", f, lambda it, sp: it.call(fn_of(prog, f), [sp.place(it, prog, 1, rad)], {}), None,
                       lambda it, sp, v: list(zip(it.items(v), ("latitude", "longitude", "metres"), ("value 1", "value 2", "value 3"))), need=3)

        # the numerical intersections
        f = prog.func(G + "subdivide_intersection")
        CC = prog.cls("CrossingCondition")

        def inter(sp):
            def h(it, ft, args, kw):
                if ft != ("attr", ("sym", "stage"), "intersection_model"):
                    return None
                g = prog.func("geography.intersections:get_intersection_locations")
                d = dict(zip([a.arg for a in g.node.args.args], args)) | kw
                chk = it.rec.setdefault("checks", [])
                for k in ("start", "finish", "sphere_center"):
                    chk += list(zip(it.items(d[k]), ("latitude", "longitude", "metres"), (f"{k} of the intersection model",) * 3))
                chk.append((T(("bin", "*", term(d["radius"]), factor(term(d["radius_units"]))), "num"), "metres", "the radius given to the intersection model"))
                if d.get("dist_between") is not None:
                    pass
                if term(d["earth"]) != MODEL:
                    ctx.bad("C33.callers", f"subdivide_intersection({way})", "the intersection model is not given the earth model", f.loc)
                return [it.construct(CC, [], {"kind": k, "begin": (sp.new("latitude"), sp.new("longitude"), sp.new("metres"))}) for k in ("ENTER", "EXIT")]
            return {"call": h}

        def inter_out(it, sp, v):
            xs = it.items(v)
            out = []
            for o in it.items(xs[0]):
                out += located(it, o, "an intersection")
            out += [(t, "number", "a time") for t in it.items(xs[1])] + [(xs[3], "number", "the time of the path")]
            return out
        explore_caller(f"subdivide_intersection({way})", f, lambda it, sp: it.call(fn_of(prog, f), [
            sp.place(it, prog, 1, rad), sp.place(it, prog, 2, rad), sp.new("speed", "speed"), sp.place(it, prog, 3, rad), sp.new("distance", "reach")], {}), inter, inter_out, need=20)

        # the analytical intersections
        f = prog.func(G + "analytical_intersection")

        def circle(sp):
            q = prog.func("motion.great_circle_calcs:get_great_circle_points")
            g = prog.func("motion.great_circle_calcs:get_dist_rad")

            def pts(it, a, k):
                d = dict(zip([x.arg for x in q.node.args.args], a)) | k
                chk = it.rec.setdefault("checks", [])
                vs = list(d.values())
                for o in vs[:3]:
                    chk += located(it, o, "a location of get_great_circle_points", True)
                chk.append((vs[3], "number", "the distance given to get_great_circle_points"))
                ps = [(sp.new("latitude in radians"), sp.new("longitude in radians")) for _ in "ab"]
                return ps, [sp.new("number"), sp.new("number")]

            def dist(it, a, k):
                chk = it.rec.setdefault("checks", [])
                for o in [*a, *k.values()]:
                    chk += located(it, o, "a location of get_dist_rad", True)
                return sp.new("number")
            return {q.qual: pts, g.qual: dist}
        explore_caller(f"analytical_intersection({way})", f, lambda it, sp: it.call(fn_of(prog, f), [
            sp.place(it, prog, 1, rad), sp.place(it, prog, 2, rad), sp.new("speed", "speed"), sp.place(it, prog, 3, rad), sp.new("distance", "reach")], {}), circle, inter_out, need=20)

        # great circles, in radians
        GC = "motion.great_circle_calcs:"
        for n, sorts in (("get_dist_rad", ["number"]), ("get_course_rad", ["number"])):
            f = prog.func(GC + n)
            explore_caller(f"{n}({way})", f, lambda it, sp: it.call(fn_of(prog, f), [sp.place(it, prog, 1, rad), sp.place(it, prog, 2, rad)], {}), None,
                           lambda it, sp, v: [(v, "number", "the result")], need=1)
        f = prog.func(GC + "get_pos_from_points_and_distance")
        explore_caller(f"get_pos_from_points_and_distance({way})", f, lambda it, sp: it.call(fn_of(prog, f), [sp.place(it, prog, 1, rad), sp.place(it, prog, 2, rad), sp.new("number", "dist")], {}),
                       lambda sp: {GC + "get_course_rad": lambda it, a, k: sp.new("number", "course_rad")},
                       lambda it, sp, v: list(zip(it.items(v), ("latitude in radians", "longitude in radians"), ("the latitude", "the longitude"))), need=2)

    # moving along waypoints
    L = prog.cls("GeodeticLocationChangingState")

    def state(it):
        it.own = {}
        o = Obj(L, {"name": "loc"}, "state")
        return o, Obj(prog.cls("Actor"), {}, "actor")

    def moving(act):
        def ex(sp):
            base = {"states:ActiveState.get_activity_data": lambda it, a, k: it.data, "states:State.__set__": lambda it, a, k: None, "states:ActiveState.__set__": lambda it, a, k: None,
                    "actor:Actor._set_active_state_data": lambda it, a, k: it.data.update({x: y for x, y in k.items() if x != "state_name"}),
                    "hasattr": lambda it, t, n: False}
            return base
        return ex
    for rad in (False, True):
        for n in ("_setup", "_active"):
            f = prog.method(L, n)

            def th(it, sp):
                st, actor = state(it)
                it.data = {"now": sp.new("number", "now"), "started_at": sp.new("number", "began"), "value": sp.place(it, prog, 1, rad), "speed": sp.new("speed", "speed"),
                           "waypoints": [sp.place(it, prog, 2, rad), sp.place(it, prog, 3, rad)]}
                v = it.call(it.getattr(st, n), [actor], {})
                if n == "_active":      # a second look, some time after the first
                    it.data["now"] = sp.new("number", "later")
                    v = it.call(it.getattr(st, n), [actor], {})
                return v

            def res(it, sp, v):
                out = located(it, v, "the location")
                pd = it.data.get("path_data")
                for k, s in (("times", "number"), ("distances", "distance"), ("bearings", "bearing")):
                    if isinstance(pd, dict) and isinstance(pd.get(k), list):
                        out += [(x, s, f"the {k} of the path") for x in pd[k]]
                return out
            explore_caller(f"{L.name}.{n}({'radians' if rad else 'degrees'})", f, th, moving(n), res, need=12)

    # where a path meets a sphere
    N = "geography.intersections:"
    EARTH = ("sym", "earth")
    pre = prog.func(N + "_preprocess")
    explore_caller("_preprocess", pre, lambda it, sp: it.call(fn_of(prog, pre), [sp.triple("1"), sp.triple("2"), sp.triple("3"), T(EARTH), sp.new("metres", "step")], {}), None,
                   lambda it, sp, v: [(x, s, "a point") for p in it.items(it.items(v)[1]) for x, s in zip(it.items(p), ("latitude", "longitude", "metres"))]
                   + [(x, "metres", "a coordinate") for p in [*it.items(it.items(v)[0]), it.items(v)[2]] for x in it.items(p)], model=EARTH, need=12)
    fcp = prog.func(N + "find_crossing_points")

    def prepared(sp):
        def h(it, a, k):
            d = dict(zip([x.arg for x in pre.node.args.args], a)) | k
            chk = it.rec.setdefault("checks", [])
            for x in ("start_lla", "finish_lla", "point_lla"):
                chk += list(zip(it.items(d[x]), ("latitude", "longitude", "metres"), (f"{x} of _preprocess",) * 3))
            chk.append((d["dist_between"], "metres", "the length of a segment"))
            pts = [(sp.new("latitude"), sp.new("longitude"), sp.new("metres")) for _ in range(3)]
            return [tuple(sp.new("metres") for _ in "xyz") for _ in pts], pts, tuple(sp.new("metres") for _ in "xyz")
        return {pre.qual: h}

    def conds(it, sp, v):
        out = []
        for o in it.items(v):
            for a in ("begin", "end"):
                p = it.getattr(o, a)
                if p is not None:
                    out += list(zip(it.items(p), ("latitude", "longitude", "metres"), (f"the {a} of a crossing",) * 3))
        # what is compared with the radius
        for k, _ in it.result.conds:
            if k[0] == "lt" and "reach" in syms(it, k[1]) | syms(it, k[2]):
                out.append((T(("bin", "-", k[1], k[2]), "num"), "metres", "what is compared with the radius"))
        return out
    # segments are counted in the units their length is in
    sp0 = Sorts()

    def counted(it):
        it.rec = {}
        sp0.n = 0
        it.ans = earth(sp0, it.rec, EARTH)
        return it.call(fn_of(prog, pre), [sp0.triple("1"), sp0.triple("2"), sp0.triple("3"), T(EARTH), sp0.new("metres", "step")], {})
    for r in run(counted, {"call": lambda it, ft, a, k: it.ans(it, ft, a, k)}):
        nf = sp0.nf(r.it)
        for k, _ in r.conds:
            for x in k[1:]:
                if isinstance(x, tuple):
                    for p in inner(r.it, x, "int"):
                        q = nf(("bin", "/", ("bin", "*", p, ("sym", "step")), ("sym", "metres0"))).const()
                        ctx.check(q is None or two(q), "C33.callers", "_preprocess", "the number of segments is not that of metres in metres", pre.loc)
    explore_caller("find_crossing_points", fcp, lambda it, sp: it.call(fn_of(prog, fcp), [sp.triple("1"), sp.triple("2"), sp.triple("3"), T(EARTH), sp.new("metres", "reach"), sp.new("metres", "step")], {}),
                   prepared, conds, model=EARTH, need=15)
    gil = prog.func(N + "get_intersection_locations")

    def crossing(sp):
        def h(it, a, k):
            d = dict(zip([x.arg for x in fcp.node.args.args], a)) | k
            chk = it.rec.setdefault("checks", [])
            for x in ("start_lla", "finish_lla", "point_lla"):
                chk += list(zip(it.items(d[x]), ("latitude", "longitude", "metres"), (f"{x} of find_crossing_points",) * 3))
            chk.append((d["radius"], "metres", "the radius"))
            t = term(d.get("dist_between", 1))
            if t[0] != "const":
                chk.append((d["dist_between"], "metres", "the length of a segment"))
            C = prog.cls("CrossingCondition")

            def p():
                return sp.new("latitude"), sp.new("longitude"), sp.new("metres")
            return [it.construct(C, [], {"kind": "START_OUT", "begin": p()}), it.construct(C, [], {"kind": "ENTER", "begin": p(), "end": p()}), it.construct(C, [], {"kind": "END_INSIDE", "begin": p()})]
        return {fcp.qual: h}
    def in_units(sp):
        sp.units("U")
        return T(("bin", "/", term(sp.new("metres", "reach")), factor(("sym", "U"))), "num")
    for step in (False, True):
        explore_caller(f"get_intersection_locations({'given' if step else 'default'} step)", gil, lambda it, sp: it.call(fn_of(prog, gil), [
            sp.triple("1"), sp.triple("2"), sp.triple("3"), in_units(sp), T(("sym", "U"), "str"), T(EARTH)], {"dist_between": sp.new("metres", "step")} if step else {}),
            crossing, conds, model=EARTH, need=20)


def two(q):
    """A power of two."""
    a, b = abs(q.numerator), q.denominator
    return bool(a) and not a & (a - 1) and not b & (b - 1)


def inner(it, t, name):
    """The arguments of the calls of a function within a term."""
    if t[0] == "def":
        t = it.defs[t[1]]
    if t[0] == "call" and t[1][-1] == name and t[2]:
        yield t[2][0]
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from inner(it, x, name)


def fn_of(prog, f):
    return Fn(f, f.node, Scope(module=f.module), f.cls)
