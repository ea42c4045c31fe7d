"""C09 location states that follow waypoints."""
from __future__ import annotations

from fractions import Fraction

from ..algebra import decide, same as equal
from ..api import Ctx, prop
from ..model import AnalysisBroken
from .actor_rules import lit
from .h import *

INST = P("instance")
INLINE = {"get_activity_data", "get_active_state_data", "_set_active_state_data", "_setup", "_get_index", "_vector_add",
          "_vector_subtract", "_as_array", "_to_tuple", "straight_line_distance", "_get_remaining_waypoints"}
NOWT = attr(attr(INST, "env"), "now")
SPEED = ("speed",)
START = 1000
TOL = Fraction(1, 10 ** 9)     # clocks are rounded


def old(t, k):
    """Terms made by an earlier call, renamed apart from the next call's."""
    if not isinstance(t, tuple):
        return t
    if len(t) == 4 and t[0] == "new" and not (isinstance(t[1], tuple) and t[1] and t[1][0] in ("probe", "old")):
        return ("new", ("old", k, t[1]), *t[2:])
    return tuple(old(x, k) for x in t)


def is_loc(t):
    return t is not None and t[0] == "loc"


class Trip:
    """One activation: waypoints at given distances, read at given times after the start."""

    def __init__(self, cx, kind, dists, units=False, manager=True, rehearsing=False):
        self.cx, self.kind, self.dists = cx, kind, dists
        self.units, self.manager, self.rehearsing = units, manager, rehearsing
        self.cls = cx.prog.cls(kind)
        self.state = cx.prog.cls(kind + "ChangingState")
        self.n = len(dists)
        self.ups = {c.methods["deactivate"].qual for c in self.state.mro_classes[1:] if "deactivate" in c.methods}
        self.clock = [START]
        h = self.heap = {}
        h[attr(SELF, "name")] = C("s")
        self.way = lit(h, "way", [("loc", i + 1) for i in range(self.n)], "list")
        data = lit(h, "data", [("started_at", ("now", 0)), ("task", ("task", 0)), ("speed", SPEED), ("waypoints", self.way)])
        h[attr(INST, "_active_states")] = lit(h, "act", [("s", data)])
        self.own = h[attr(INST, "__dict__")] = lit(h, "own", [("s", ("loc", 0))])
        self.types = {("loc", i): self.cls for i in range(self.n + 12)} | {INST: cx.prog.cls("Actor")}
        self.legs = [Fraction(d) / 2 for d in dists]        # speed 2

    def place(self, i):
        """How far along the path location i is."""
        return Fraction(sum(self.dists[:i])) if i <= self.n else (self.clock[i - self.n] - START) * 2

    def dist(self, t):
        """(i, j) when the term is the distance between locations i and j."""
        a = None
        if t[0] == "bin" and t[1] == "-":
            a = t[2:]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("straight_line_distance", "__sub__") and len(t[2]) == 1:
            a = (t[1][1], t[2][0])
        elif t[0] == "sub" and t[2] in (C(0), C(1)) and t[1][0] == "dab":
            return tuple(sorted(t[1][1:3])) if t[2] == C(0) else None
        if a is not None and all(is_loc(x) for x in a):
            return tuple(sorted((a[0][1], a[1][1])))
        return None

    def atom(self, t):
        d = self.dist(t)
        return ("dist", *d) if d is not None else SPEED if t == SPEED else t

    def atoms(self, t):
        d = self.dist(t) if isinstance(t, tuple) else None
        if d is not None or t[0] == "dist":
            i, j = d or t[1:]
            return abs(self.place(i) - self.place(j))
        if t[0] == "now":
            return Fraction(self.clock[t[1]])
        if t == SPEED:
            return Fraction(2)
        if t[0] == "call" and last_name(t[1]) == "ulp":
            return Fraction(1, 10 ** 12)
        if t[0] == "call" and t[1] == ("builtin", "sum") and len(t[2]) == 1:
            return Fraction(sum(self.legs))
        return None

    def oracle(self, kind, what, st):
        if kind == "cond":
            r = decide(what, self.atoms)
            if r is not None:
                return r
            k = what[1] if len(what) > 1 else None
            if what[0] in ("truthy", "isnone") and isinstance(k, tuple):
                if k[0] in ("task", "loc", "now", "speed", "dab"):
                    return what[0] == "truthy"
                if is_attr(k, "use_altitude_units"):
                    return self.units
                if is_attr(k, "in_radians"):
                    return False
                nm = attr_asked(k)
                if nm == "motion_manager":
                    return (what[0] == "truthy") == self.manager
                if nm == "_is_rehearsing":
                    return self.rehearsing if what[0] == "truthy" else False
            if what[0] == "isinst" and is_loc(what[1]):
                return self.kind == last_name(what[2]) or last_name(what[2]) == "Location"
            return None
        if kind == "call" and what.name == "copy" and is_loc(what.recv if what.recv is not None else NONE):
            return [(st.fork(), ("value", what.recv))]
        if kind == "call" and what.name in ("copy", "deepcopy") and len(what.args) == 1 and is_loc(what.args[0]):
            return [(st.fork(), ("value", what.args[0]))]
        if kind == "call" and what.name == "distance_and_bearing":
            a = [x for x in what.args]
            ll = [x[1][1] if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "latlon" and not x[2] else None for x in a[:2]]
            if len(ll) != 2 or not all(x is not None and is_loc(x) for x in ll):
                return None
            u = what.kwargs.get("units", a[2] if len(a) > 2 else None)
            t = ("dab", ll[0][1], ll[1][1], u)
            return [(st.fork(), ("value", ("tuple", sub(t, C(0)), sub(t, C(1)))))]
        return None

    def step(self, name, at, commit=True):
        """Walk one method at a time after the start; its single outcome."""
        k = len(self.clock)
        self.clock.append(Fraction(START) + Fraction(at))
        h = dict(self.heap)
        h[NOWT] = ("now", k) if at else ("now", 0)
        f = self.cx.prog.method(self.state, name)
        bind = {par(f, 0)[1]: INST}
        ps = self.cx.paths(f, self.state, heap=h, implicit=False, defaults=True, bind=bind, oracle=self.oracle, types=self.types,
                           inline=INLINE, unroll=8, unroll_for=8, opaque={"__set__", "_start_mover", "_stop_mover", "unit_convert", "latlon",
                                                    *self.ups})
        if len(ps) != 1:
            seen = {(p.outcome, repr(p.value)) for p in ps}
            if len(seen) > 1 or not ps:
                raise AnalysisBroken(f"{f.qual}: {len(ps)} outcomes for one trip ({sorted(map(repr, facts(ps[0])))[:6] if ps else ''})")
        p = ps[0]
        if commit:
            self.heap = {old(a, k): old(b, k) for a, b in p.heap.items()}
            for x in sets(p):
                if x[1] is not None:
                    loc = ("loc", self.n + k)
                    self.heap[("items", self.own)] = (("tuple", C("s"), loc),)
        return f, p

    def leg(self, at):
        """The legs that contain the time: [(index, time before it)]."""
        out, s = [], Fraction(0)
        for i, t in enumerate(self.legs):
            if s - TOL <= at <= s + t + TOL:
                out.append((i, s))
            s += t
        return out


def attr_asked(k):
    """The attribute an attribute, getattr or hasattr term asks for."""
    if k[0] == "getattr" and isinstance(k[2], str):
        return k[2]
    if k[0] == "attr":
        return k[2]
    if k[0] == "call" and last_name(k[1]) in ("hasattr", "getattr") and len(k[2]) >= 2 and k[2][1][0] == "const":
        return k[2][1][1]
    return None


def sets(p):
    return [(e, e.args[1] if len(e.args) > 1 else e.kwargs.get("value")) for e in p.events
            if e.kind == "call" and e.name == "__set__" and not e.raised]


def movers(p, name):
    return [e for e in p.events if e.kind == "call" and e.name == name and not e.raised]


def sum_terms(ts):
    out = C(0)
    for t in ts:
        out = ("bin", "+", out, t)
    return out


def leg_terms(trip, i, at_term, first=0):
    """Elapsed fraction of leg i, in the terms of the statement."""
    d = [("dist", j, j + 1) for j in range(trip.n)]
    before_ = sum_terms([("bin", "/", x, SPEED) for x in d[:i]])
    t = ("bin", "/", d[i], SPEED)
    el = ("bin", "-", at_term, ("now", 0))
    return ("bin", "/", ("bin", "-", el, before_), t)


def position_rule(trip, p, at, k):
    at_term = ("now", k)
    end = sum(trip.legs)
    ws = sets(p)
    if at < 0 or at > end + Fraction(1, 1000):
        if completes(p):
            return "gives a position before its start" if at < 0 else "gives a position past the end of the path"
        return "changes the position and then fails" if ws else None
    if not completes(p):
        return "fails within the path"
    v = p.value
    if at == 0:
        if v == ("loc", 0) or v == NONE and not trip.n:
            return None
    if at and not ws:
        return "the position is not set"
    if len({x[1] for x in ws}) > 1:
        return "the position is set to several values"
    if ws and (ws[0][0].arg(0, "instance") != INST or ws[0][1] != v):
        return "the position set is not the one returned"
    if v is None or v[0] not in ("new", "call"):
        return f"the position is {show(v)}"
    ev = [e for e in p.events if e.kind == "call" and e.value == v]
    if len(ev) != 1 or call_name(ev[0]) != trip.kind:
        return f"the position is {show(v)}"
    e = ev[0]
    rs = []
    for i, _ in trip.leg(at):
        one = trip.legs[i] == 0
        fr = C(1) if one else leg_terms(trip, i, at_term)
        r = cart(trip, p, e, i, fr) if trip.kind.startswith("C") else geo(trip, p, e, i, fr, one)
        if r is None:
            return None
        rs.append(r)
    return rs[-1] if rs else "fails to refuse the time"


def call_name(e):
    f = e.fn
    return f[1].name if f is not None and f[0] == "class" else e.name


def cart(trip, p, e, i, fr):
    a, b = ("loc", i), ("loc", i + 1)
    for pos, c in enumerate("xyz"):
        got = e.arg(pos, c)
        def co(loc):
            z = attr(loc, c)
            if c == "z" and trip.units:
                st = attr(loc, "stage")
                return ("uconv", loc)
            return z
        want = ("bin", "+", co(a), ("bin", "*", fr, ("bin", "-", co(b), co(a))))

        def at(t):
            if t[0] == "call" and last_name(t[1]) == "unit_convert" and len(t[2]) == 3 and is_attr(t[2][0], "z") and is_loc(t[2][0][1]) and \
                    is_attr(t[2][1], "altitude_units") and is_attr(t[2][2], "distance_units"):
                return ("uconv", t[2][0][1])
            return trip.atom(t)
        if got is None or not equal(got, want, at):
            return f"{c} is {show(got)[:160] if got is not None else 'missing'}"
    ua = e.kwargs.get("use_altitude_units", C(False))
    if ua != C(False):
        return "the units of the altitude change"
    return None


def geo(trip, p, e, i, fr, one):
    a, b = ("loc", i), ("loc", i + 1)
    lat, lon = e.arg(0, "lat"), e.arg(1, "lon")
    alt = e.arg(2, "alt")
    if e.kwargs.get("in_radians", C(False)) != C(False):
        return "the position is in radians"
    want = ("bin", "+", attr(a, "alt"), ("bin", "*", fr, ("bin", "-", attr(b, "alt"), attr(a, "alt"))))
    if alt is None or not equal(alt, want, trip.atom):
        return f"the altitude is {show(alt)[:160] if alt is not None else 'missing'}"
    pts = [x for x in p.events if x.kind == "call" and x.name == "point_from_bearing_dist"]
    for x in pts:
        if (lat, lon) != (sub(x.value, C(0)), sub(x.value, C(1))):
            continue
        f = trip.cx.prog.method(trip.cx.prog.cls("Spherical"), "point_from_bearing_dist")
        names = [n.arg for n in f.node.args.args if n.arg not in ("cls", "self")]
        pt, br, ds, un = (x.arg(j, n) for j, n in enumerate(names))
        if pt != ("call", attr(a, "latlon"), (), ()):
            return f"the leg starts at {show(pt)}"
        if br is None or not (br[0] == "sub" and br[2] == C(1) and br[1][0] == "dab" and br[1][1:3] == (i, i + 1)):
            return "the bearing is not the leg's"
        if ds is None or not equal(ds, ("bin", "*", fr, ("dist", i, i + 1)), trip.atom):
            return f"the distance moved is {show(ds)[:160]}"
        if un is None or not is_attr(un, "distance_units"):
            return "the distance moved is not in the stage's units"
        us = {y[3] for y in all_subterms(ds) if y[0] == "dab"}
        if any(u is None or not is_attr(u, "distance_units") for u in us):
            return "the distances are not in the stage's units"
        return None
    return f"the point is {show(lat)[:80]}, {show(lon)[:80]}"


def all_subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from all_subterms(x)


def trips(cx):
    out = [((4, 6, 10), [(0, 1, Fraction(5, 2), 7, 10), (0, 2, 5), (0, Fraction(9, 2)), (0, 11), (0, Fraction(1, 10 ** 9), 9, Fraction(1001, 100)),
                         (0, -1), (0, 5, 6)]),
           ((0, 6), [(0, 1, 3), (0, Fraction(1, 10 ** 13), 2)]), ((4, 0, 6), [(0, 2, 3), (0, 5), (0, 4, 6)]),
           ((6, 0), [(0, 1, 3), (0, 4)]), ((0, 0), [(0,), (0, 1)]), ((8,), [(0, 1, 2, 4), (0, 5)])]
    if cx.tier == "thorough":
        out += [((2, 4, 6, 8, 10), [(0, Fraction(1, 2), 1, 2, 3, 4, 6, 8, 10, 12, 15), (0, 14), (0, 15, 16), (0, 5, 5, 5), (0, 1, -1)]),
                ((0, 4, 0, 0, 8), [(0, 1, 2, 3, 6), (0, 7)]), ((1, 1000000), [(0, 1, 500000)])]
    return out


def moving(cx: Ctx):
    prog = cx.prog
    cx.rule("C09.position", "while active, the position is on the leg containing the elapsed time at the elapsed fraction of that leg; "
                            "outside of the path's time it raises", 100)
    cx.rule("C09.waypoints", "the remaining waypoints are those from the current leg on", 60)
    cx.rule("C09.manager", "the motion manager is told of each start and stop of a non-rehearsing actor, once, with the whole path", 12)
    cx.rule("C09.inactive", "a location state that is not active has no position of its own", 2)
    bad = {}
    for kind in ("CartesianLocation", "GeodeticLocation"):
        for units in ((False, True) if kind.startswith("C") else (False,)):
            for dists, reads in trips(cx):
                for seq in reads:
                    t = Trip(cx, kind, dists, units)
                    what = f"{kind} legs {list(dists)} at speed 2"
                    for n, at in enumerate(seq):
                        f, p = t.step("_active", at)
                        k = len(t.clock) - 1
                        r = position_rule(t, p, at, k if at else 0)
                        txt = f"{what} read at {[str(x) for x in seq[:n + 1]]}"
                        if r:
                            bad.setdefault(("C09.position", f.qual, r), (txt, f, p))
                            break
                        cx.ok("C09.position", txt + f" {units}")
                        ms = movers(p, "_start_mover")
                        if n and ms:
                            bad.setdefault(("C09.manager", f.qual, "tells the manager of a start at a later read"), (txt, f, p))
                        if not 0 <= at <= sum(t.legs):
                            continue
                        g, q = t.step("_get_remaining_waypoints", at, commit=False)
                        its = q.heap.get(("items", q.value)) if q.value is not None and q.value[0] == "new" else None
                        if completes(q) and its is None and q.value is not None:
                            for i in range(t.n + 1):
                                if q.value == ("sub", t.way, ("slice", C(i), NONE, NONE)) or (i == 0 and q.value == t.way):
                                    its = tuple(("loc", j + 1) for j in range(i, t.n))
                        ok = completes(q) and any(its == tuple(("loc", j + 1) for j in range(i, t.n)) for i, _ in t.leg(at))
                        if q.value == t.way:
                            bad.setdefault(("C09.waypoints", g.qual, "hands out the state's own list"), (txt, g, q))
                        elif not ok:
                            bad.setdefault(("C09.waypoints", g.qual, "gives other waypoints"), (f"{txt}: {show(q.value) if its is None else its}", g, q))
                        else:
                            cx.ok("C09.waypoints", txt + f" {units}")
        for man, reh, n in ((True, False, 1), (True, False, 2), (True, False, 4), (True, True, 2), (False, False, 2), (False, True, 1)):
            t = Trip(cx, kind, (4, 6, 2, 8)[:n], manager=man, rehearsing=reh)
            f, p = t.step("_active", 0)
            what = f"{kind}: {'a' if man else 'no'} manager, {'rehearsing' if reh else 'real'} actor, {n} waypoints"
            r = start_rule(t, p, man and not reh)
            if r:
                bad.setdefault(("C09.manager", f.qual, r), (what, f, p))
            else:
                cx.ok("C09.manager", what + " start")
            g, q = t.step("deactivate", 1)
            ms = movers(q, "_stop_mover")
            want = 1 if man and not reh else 0
            up = [e for e in q.events if e.kind == "call" and e.resolved is not None and getattr(e.resolved, "qual", None) in t.ups]
            if completes(q) and (len(up) != 1 or q.value != up[0].value):
                bad.setdefault(("C09.manager", g.qual, "does not deactivate the state"), (what, g, q))
            if not completes(q) or len(ms) != want or any(e.args[:1] != (INST,) and e.arg(0, "mover") != INST for e in ms):
                bad.setdefault(("C09.manager", g.qual, "does not tell the manager of the stop exactly once" if want else "tells a manager of a stop"),
                               (what, g, q))
            else:
                cx.ok("C09.manager", what + " stop")
        t = Trip(cx, kind, (4, 6))
        t.heap[("items", t.heap[attr(INST, "_active_states")])] = ()
        f, p = t.step("_active", 1)
        if not completes(p) or p.value != NONE or sets(p) or movers(p, "_start_mover"):
            bad.setdefault(("C09.inactive", f.qual, "moves without being active"), (kind, f, p))
        else:
            cx.ok("C09.inactive", kind)
    for (rule, qual, r), (txt, f, p) in bad.items():
        cx.bad(rule, f"{qual} {r.split(' is ')[0] if ' is ' in r else r}", f"{txt}: {r}", f.loc, p)


def start_rule(t, p, told):
    ms = movers(p, "_start_mover")
    if not completes(p):
        return "the activation fails"
    if not told:
        return "tells a manager of a start" if ms else None
    if len(ms) != 1:
        return "does not tell the manager of the start exactly once"
    e = ms[0]
    if e.arg(0, "mover") != INST or e.arg(1, "speed") != SPEED:
        return "tells the manager of another mover or speed"
    w = e.arg(2, "waypoints")
    its = e.items(w) if w is not None else None
    flat = []
    for x in its or ():
        if x[0] == "star":
            flat.extend(e.items(x[1]) or t.heap.get(("items", x[1])) or [None])
        else:
            flat.append(x)
    if flat != [("loc", j) for j in range(t.n + 1)]:
        return "tells the manager of another path"
    return None


def itinerary(cx):
    """The time and the distance planned for an itinerary."""
    from .. import value as V
    prog = cx.prog
    cx.rule("C09.itinerary", "the distance of an itinerary is the sum of the distances of its legs, in order from the start, and its time that distance at the speed", 5)
    f = prog.func("utils:waypoint_time_and_dist")
    K = prog.cls("CartesianLocation")
    for n in range(5):
        for stay in (False, True):
            def th(it):
                points = [V.Obj(K, {}, f"p{i}") for i in range(n + 1)]
                if stay and n > 1:
                    points[2] = points[0]
                at = {id(o): i for i, o in enumerate(points)}

                def sub(it, a, k):
                    i, j = sorted((at[id(a[0])], at[id(a[1])]))
                    return 0 if i == j else 2 ** (6 * i + j)
                for c in K.mro:
                    for m in ("__sub__", "straight_line_distance"):
                        if m in getattr(c, "methods", {}):
                            it.intercept[c.methods[m].qual] = sub
                want = sum(sub(it, p, {}) for p in zip(points, points[1:]))
                got = it.items(it.call_func(f, [points[0], points[1:], 8], {}))
                return [x for x in got] == [V.Fraction(want, 8), want]
            rs = V.explore(prog, th, max_iter=8)
            why = next((repr(r) for r in rs if r.outcome != "return" or r.value is not True), None)
            cx.check(not why, "C09.itinerary", f"{n} waypoints{', back to the start' if stay else ''}", "the time and distance are not those of the legs", f.loc)


@prop("C09")
def c09(cx: Ctx):
    moving(cx)
    itinerary(cx)
