"""C39: what can be put in place of something else is asked the same way and answers the same way.

Signatures of the siblings are compared with what the package asks of them and with the protocol; the results of each
operation are evaluated (value.py, other operations of the sibling by what they are checked to give) and their shapes
compared.
"""
from __future__ import annotations

import ast

from ..api import Ctx, prop
from ..value import Obj, T, Unknown, explore, num
from . import geo_rules as G
from . import location_rules as L
from . import motion_rules as M


class Sig:
    """What a function of a class can be called with."""

    def __init__(self, f, bound=None):
        a = f.node.args
        names = [x.arg for x in (*a.posonlyargs, *a.args)]
        defaults = dict(zip(reversed(names), reversed([ast.dump(d) for d in a.defaults])))
        if bound if bound is not None else (f.cls is not None and not f.is_static):
            names = names[1:]
        self.names = names
        self.only = len([x for x in a.posonlyargs])
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.defaults = {**{n: d for n, d in defaults.items() if n in names},
                         **{x.arg: ast.dump(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}}
        self.varargs, self.varkw = a.vararg is not None, a.kwarg is not None

    def bind(self, n, kw):
        """Why a call with n positional arguments and these keywords does not fit, else None."""
        if n > len(self.names) and not self.varargs:
            return f"takes {len(self.names)} arguments, not {n}"
        got = set(self.names[:n])
        for k in kw:
            if k in got:
                return f"takes {k} by its place"
            if k not in self.names and k not in self.kwonly and not self.varkw:
                return f"has no parameter {k}"
            got.add(k)
        for x in (*self.names, *self.kwonly):
            if x not in got and x not in self.defaults:
                return f"needs {x}"
        return None


def shape(v):
    """The structure of a result."""
    if isinstance(v, tuple):
        return ("tuple", *map(shape, v))
    if isinstance(v, list):
        return ("list", *map(shape, v))
    if isinstance(v, bool):
        return "bool"
    if num(v) or isinstance(v, float):
        return "number"
    if isinstance(v, str):
        return "text"
    if v is None:
        return "None"
    if isinstance(v, Obj):
        return v.cls if isinstance(v.cls, str) else v.cls.name
    if isinstance(v, T):
        return "text" if v.kind == "str" else "number"
    return type(v).__name__


def text(s):
    if isinstance(s, str):
        return s
    if s[0] == "list" and len(s) > 3 and len(set(s[1:])) == 1:
        return f"list of {len(s) - 1} times {text(s[1])}"
    return f"{s[0]}({', '.join(map(text, s[1:]))})"


sym = G.sym


def points(it, prog, kind, *names):
    out = []
    for n in names:
        la, lo = sym(f"{n}.lat"), sym(f"{n}.lon")
        out.append((la, lo) if kind == "pairs" else it.construct(prog.cls("GeodeticLocation"), [la, lo], {"in_radians": kind == "locations in radians"}))
    return out


U = T(("sym", "U"), "str")
OPS = {       # operation: arguments after the points, and which of them are points
    "distance": (2, {"units": U}), "bearing": (2, {}), "distance_and_bearing": (2, {"units": U}),
    "point_from_bearing_dist": (1, {"bearing": sym("course"), "distance": sym("d"), "distance_units": U}),
    "geo_linspace": (2, {"num_segments": 3}), "geo_circle": (1, {"radius": sym("radius"), "radius_units": U, "num_points": 3}),
    "ecef_and_geo_linspace": (2, {"start_alt": sym("alt1"), "finish_alt": sym("alt2"), "segments": 3}),
    "lla2ecef": (0, {"locs": [tuple(map(sym, ("lat1", "lon1", "alt1"))), tuple(map(sym, ("lat2", "lon2", "alt2")))]}),
    "ecef2lla": (0, {"locs": [tuple(map(sym, "XYZ"))]}),
}
ONE = ("tuple", "number", "number")
WANT = {
    "distance": "number", "bearing": "number", "distance_and_bearing": ONE, "point_from_bearing_dist": ONE,
    "geo_linspace": ("list", ONE, ONE, ONE, ONE), "geo_circle": ("list", ONE, ONE, ONE, ONE),
    "ecef_and_geo_linspace": ("tuple", *(("list", *[("tuple", "number", "number", "number")] * 4) for _ in "ab")),
    "lla2ecef": ("list", *[("tuple", "number", "number", "number")] * 2), "ecef2lla": ("list", ("tuple", "number", "number", "number")),
}


def summaries(prog, C, op):
    """The other operations of a model, by what they are checked to give."""
    out = {}
    for n, s in WANT.items():
        f = C.find(n)
        if n != op and f is not None and n in ("distance", "bearing", "distance_and_bearing", "point_from_bearing_dist"):
            i = [0]

            def give(it, a, k, s=s, n=n, i=i):
                i[0] += 1
                return sym(f"{n}{i[0]}") if s == "number" else (sym(f"{n}{i[0]}.a"), sym(f"{n}{i[0]}.b"))
            out[f.qual] = give
    return out


@prop("C39")
def siblings(ctx: Ctx):
    prog = ctx.prog
    R = ctx.rule
    R("C39.earth", "each operation of the earth protocol, and each that the package asks of an earth model, is in both models and takes the same arguments", 18)
    R("C39.shape", "each operation gives results of the same shape in both models, for pairs and for locations", 30)
    R("C39.meaning", "both models take and give degrees, latitude first, and lengths in the units asked for", 60)
    R("C39.manager", "both motion managers take the same notices from actors and the same sensors", 10)
    R("C39.model", "the intersection models take the same arguments and give places, times, kinds and the time of the leg", 20)
    E = prog.cls("EarthProtocol")
    models = [prog.cls("Spherical"), prog.cls("WGS84")]
    earth(ctx, prog, E, models)
    shapes(ctx, prog, models)
    meaning(ctx, prog)
    managers(ctx, prog)
    intersections(ctx, prog)


def earth(ctx, prog, E, models):
    ops = {n: Sig(f, True) for n, f in E.methods.items() if not n.startswith("__")}
    sigs = {}
    for n, want in ops.items():
        for C in models:
            f, c = C.find(n), f"{C.name}.{n}"
            if f is None:
                ctx.bad("C39.earth", c, "is not there, but an operation of the earth protocol", f"{C.module.rel}:{C.node.lineno}")
                continue
            s = sigs[C.name, n] = Sig(f)
            req = [x for x in want.names if x not in want.defaults]
            why = s.names[:len(want.names)] != want.names and f"takes {', '.join(s.names)}, the protocol {', '.join(want.names)}" \
                or s.bind(len(want.names), ()) or s.bind(0, want.names) or s.bind(len(req), ()) or s.bind(0, req) or None
            ctx.check(not why, "C39.earth", c, why or "", f.loc)
    # the same value where one leaves something out
    for n in {n for _, n in sigs}:
        have = [sigs[C.name, n] for C in models if (C.name, n) in sigs]
        if len(have) == 2:
            for x in have[0].names:
                if x in have[1].names:
                    ctx.check(have[0].defaults.get(x) == have[1].defaults.get(x), "C39.earth", f"{n}({x})", "the models differ in its default", models[0].find(n).loc)
    # what the package asks of a model
    for m in prog.modules.values():
        for call in ast.walk(m.tree):
            if isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and asked(call.func.value) \
                    and not any(isinstance(x, ast.Starred) for x in call.args) and all(k.arg for k in call.keywords):
                for C in models:
                    f = C.find(call.func.attr)
                    c = f"{C.name}.{call.func.attr} as asked in {m.rel}"
                    why = "is not there" if f is None else Sig(f).bind(len(call.args), [k.arg for k in call.keywords])
                    ctx.check(not why, "C39.earth", c, why or "", f"{m.rel}:{call.lineno}")


def asked(e):
    """An expression that is the stage's earth model."""
    return isinstance(e, ast.Attribute) and e.attr == "stage_model" or isinstance(e, ast.Name) and e.id in ("earth", "stage_model")


def shapes(ctx, prog, models):
    for n, (k, rest) in OPS.items():
        for C in models:
            f = C.find(n)
            if f is None:
                ctx.bad("C39.shape", f"{C.name}.{n}", "is not there", f"{C.module.rel}:{C.node.lineno}")
                continue
            kinds = ("pairs", "locations", "locations in radians") if k else ("lists",)
            for kind in kinds:
                for by_name in (False, True) if k != 0 else (False,):
                    c = f"{C.name}.{n}({kind}{', by name' if by_name else ''})"
                    names = Sig(f).names
                    extra = {x: v for x, v in {"max_iter": 1}.items() if x in names}

                    def th(it):
                        ps = points(it, prog, kind, *(("lat1", "lat2")[:k])) if k else []
                        call = it.getattr(C, n)
                        if by_name:
                            return it.call(call, ps, {**rest, **extra})
                        return it.call(call, [*ps, *rest.values()], extra)
                    try:
                        rs = explore(prog, th, intercept={**G.BASE, **summaries(prog, C, n)}, max_iter=2, name_over=20)
                    except Unknown as e:
                        ctx.bad("C39.shape", c, f"cannot be decided: {e}", f.loc)
                        continue
                    ctx.paths_n += len(rs)
                    got = set()
                    for r in rs:
                        ctx.functions |= r.it.used
                        if r.outcome == "return":
                            got.add(shape(r.value))
                        elif r.value.cls != "ValueError":
                            got.add(f"{r.value!r} raised")
                    ctx.check(got == {WANT[n]}, "C39.shape", c, f"gives {' or '.join(sorted(map(text, got))) or 'nothing'}, not {text(WANT[n])}", f.loc)


def meaning(ctx, prog):
    """The obligations of C33 on these operations."""
    sub = Ctx("C33", prog, ctx.tier)
    G.geography(sub)
    ctx.functions |= sub.functions
    ctx.paths_n += sub.paths_n
    names = {f"{C}.{n}" for C in ("Spherical", "WGS84") for n in OPS}

    def mine(rule, construct):
        return construct.split("(")[0] in names and rule in ("C33.degrees", "C33.order", "C33.length", "C33.points", "C33.objects", "C33.formula")
    for o in sub.obligations:
        if o["ok"] and mine(o["rule"], o["construct"]):
            ctx.ok("C39.meaning", o["construct"])
    for f in sub.findings:
        if mine(f["rule"], f["construct"]):
            ctx.bad("C39.meaning", f["construct"], f["message"], f["location"])


HOOKS = {"_start_mover": (3, ()), "_stop_mover": (1, ()), "_mover_not_detectable": (1, ()), "_mover_became_detectable": (1, ())}


def managers(ctx, prog):
    ms = [prog.cls("SensorMotionManager"), prog.cls("SteppedMotionManager")]
    want = [(n, k, kw, "the hooks of the states") for n, (k, kw) in HOOKS.items()]
    want += [("add_sensor", 1, ("location_attr_name", "radius_attr_name"), "by name"), ("add_sensor", 1, (), "with its usual attributes")]
    for m in prog.modules.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            local = {t.id for s in ast.walk(fn) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Attribute) and s.value.attr == "motion_manager" for t in s.targets if isinstance(t, ast.Name)}
            for call in ast.walk(fn):
                if isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and not any(isinstance(x, ast.Starred) for x in call.args) and all(k.arg for k in call.keywords):
                    r = call.func.value
                    if isinstance(r, ast.Attribute) and r.attr == "motion_manager" or isinstance(r, ast.Name) and r.id in local:
                        want.append((call.func.attr, len(call.args), tuple(k.arg for k in call.keywords), f"{m.rel} {fn.name}"))
    for n, k, kw, who in want:
        for C in ms:
            f = C.find(n)
            why = "is not there" if f is None else Sig(f).bind(k, kw)
            ctx.check(not why, "C39.manager", f"{C.name}.{n} ({who})", why or "", f.loc if f else f"{C.module.rel}:{C.node.lineno}")
    a, b = (C.find("add_sensor") for C in ms)
    if a and b:
        x, y = Sig(a), Sig(b)
        ctx.check(x.names == y.names[:len(x.names)], "C39.manager", "add_sensor by place", f"one manager takes {', '.join(x.names)}, the other {', '.join(y.names)}", a.loc)
        for n in x.names:
            if n in y.names:
                ctx.check(x.defaults.get(n) == y.defaults.get(n), "C39.manager", f"add_sensor({n})", "the managers differ in its default", a.loc)
    # a sensor is told the same way: one mover, by place
    run = M.runner(ctx, prog)
    order = M.Order({"now": 100, "speed": 3, "step": 1, "close": 3, "far": 9, "s.reach": 5, "m1.path0": 20, "m1.s.in0": 3, "m1.s.out0": 7, "after2": 2, "after6": 6, "after10": 10, "after15": 15})
    for C in ms:
        for script in (((2, "start"), (15, "stop")), ((2, "start"), (6, "hide"), (15, "stop")), ((2, "start"), (6, "hide"), (10, "show"), (15, "stop"))):
            c = f"{C.name}: {', '.join(a for _, a in script)}"
            box = {}

            def scene(it, w):
                box["w"] = w
                box["places"] = places = M.Places(order, {("s", "m"): ((4, 8),)})
                book = M.Book()
                mo = book.motion("m1", s=("E-X",))
                who = M.cast(w, prog, ("s",), ("m",))
                mgr = it.construct(C, [book] if C is ms[0] else [sym("step")], {})
                d = M.Driver(it, w, mgr)
                who["s"].attrs["place"] = T(("sym", "s.place"))
                d.do("add_sensor", who["s"], **{"location_attr_name": "place", "radius_attr_name": "reach"})
                heard = []
                for n in ("entity_entered_range", "entity_exited_range"):
                    who["s"].attrs[n] = lambda it, a, k, n=n: heard.append((n, list(a), dict(k)))
                for t, act in script:
                    w.at(M.total(sym("now"), sym(f"after{t}")), lambda act=act: getattr(d, act)(*([who["m"], mo] if act == "start" else [who["m"]])))
                w.run_all()
                return heard, who["m"]

            def place(it, o):
                if C is ms[1] and isinstance(o, Obj) and o.attrs.get("place") is not None:
                    return box["places"].place(box["w"], o.label)
                return None
            rs = run(scene, order, {("attr", "place"): place, "actor:Actor._get_matching_state": lambda it, a, k: M.matching(a, k)})
            if len(rs) != 1 or rs[0].outcome != "return":
                M.undecided(ctx, "C39.manager", c, f"{C.module.rel}:{C.node.lineno}", rs)
                continue
            heard, m = rs[0].value
            want = ["entity_entered_range", "entity_exited_range"]
            ctx.check([n for n, _, _ in heard] == want and all(len(a) == 1 and a[0] is m and not k for _, a, k in heard), "C39.manager", c,
                      f"the sensor hears {', '.join(n for n, _, _ in heard) or 'nothing'}, not {' and '.join(want)} of the mover", f"{C.module.rel}:{C.node.lineno}")


def intersections(ctx, prog):
    fs = {"cartesian_linear_intersection": "motion.cartesian_model", "subdivide_intersection": "motion.geodetic_model", "analytical_intersection": "motion.geodetic_model"}
    names = None
    for n, m in fs.items():
        f = prog.func(f"{m}:{n}")
        s = Sig(f, False)
        names = names or s.names
        why = s.bind(5, ()) or s.bind(0, names)
        ctx.check(not why, "C39.model", n, why or "", f.loc)
        ctx.check(s.names[:5] == names[:5], "C39.model", f"{n} by name", f"takes {', '.join(s.names)}, not {', '.join(names)}", f.loc)
    # what the obligations of C30 on their answers are
    sub = Ctx("C30", prog, ctx.tier)
    for r in ("C30.cartesian", "C30.analytic", "C30.numeric"):
        sub.rule(r, r)
    run = M.runner(sub, prog)
    M.cartesian(sub, prog, run)
    M.analytic(sub, prog, run)
    M.sampled_times(sub, prog, run)
    ctx.functions |= sub.functions
    ctx.paths_n += sub.paths_n
    for o in sub.obligations:
        if o["ok"]:
            ctx.ok("C39.model", o["construct"])
    for x in sub.findings:
        ctx.bad("C39.model", x["construct"], x["message"], x["location"])
