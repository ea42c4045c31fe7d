"""C35: the data tables.

The tables are evaluated (value.py) for actors whose states and histories are given in shape and unknown in times and
values, and compared with the rows that the shapes demand.
"""
from __future__ import annotations

import ast

from ..api import Ctx, prop
from ..model import Class, Module
from ..value import Obj, T, Unknown, explore, show

NOT = "not there"


def sym(n):
    return T(("sym", n), "num")


def user_class(prog, name, base=None, fields=None):
    """A class of the user's: an actor, or a dataclass."""
    src = f"class {name}:\n    pass\n" if fields is None else f"@dataclass\nclass {name}:\n" + "".join(f"    {f}: float\n" for f in fields)
    tree = ast.parse(src)
    m = Module("user", "user", "user", tree, src)
    c = Class(f"user:{name}", name, tree.body[0], m)
    c.bases = [base] if base else []
    c.mro = [c, *(base.mro if base else [])]
    if fields is not None:
        c.annots = {f: ast.Name("float") for f in fields}
    return c


class Kind:
    """A state (or what it recorded): how it is built, and the rows it gives."""

    def __init__(self, name, build, rows=(), static=(), location=False, places=(), monitored=0):
        self.name, self.build = name, build
        self.location = location


class Scene:
    """What is known of a simulation."""

    def __init__(self, it, prog, user):
        self.it, self.prog, self.user = it, prog, user
        self.actors, self.monitored = [], []
        self.now = {}                       # (actor, state name) -> value read now
        self.rows, self.static, self.loc_rows, self.places = [], [], [], []

    def actor(self, name, kind):
        A = self.user[kind]
        o = Obj(A, {"name": name, "_state_defs": {}, "_state_histories": {}, "_mimic_states": {}}, name)
        self.actors.append(o)
        return o

    def state(self, a, n, cls, value=NOT, hist=None, now=None, **kw):
        s = self.it.construct(self.prog.cls(cls), [], kw)
        s.attrs["name"] = n
        a.attrs["_state_defs"][n] = s
        if value is not NOT:
            a.attrs[n] = value
        if hist is not None:
            a.attrs["_state_histories"][n] = hist
        self.now[id(a), n] = value if now is None else now
        return s

    def status(self, which):
        return self.it.class_attr(self.prog.cls("ActiveStatus"), which)

    def location(self, kind, tag):
        C = self.prog.cls(kind)
        at = ("lat", "lon", "alt") if kind == "GeodeticLocation" else ("x", "y", "z")
        return Obj(C, {x: sym(f"{tag}.{x}") for x in at}, f"{kind} {tag}")

    def store(self, tag, n, monitors=True, name=None):
        o = Obj(self.user["SelfMonitoringStore" if monitors else "Store"], {"name": name}, tag)
        if monitors:
            o.attrs["_quantities"] = [(sym(f"{tag}.t{i}"), sym(f"{tag}.q{i}")) for i in range(n)]
            self.monitored.append(o)
        return o


def marks(sc, letters, value, tag):
    """A history by its letters (v value, + activated, - deactivated) and the notes on each value."""
    hist, notes, on, i = [], [], False, 0
    for x in letters:
        if x == "v":
            hist.append((sym(f"{tag}.t{i}"), value(i)))
            notes.append("active" if on else "inactive")
            i += 1
        else:
            on = x == "+"
            hist.append((hist[-1][0], sc.status("activating" if on else "deactivating")))
            notes[-1] = "activating" if on else "deactivating"
    return hist, notes


ATTR = {"GeodeticLocation": ("lat", "lon", "alt"), "CartesianLocation": ("x", "y", "z")}


def expect(sc, a, label, hist, notes=None, location=False, table=True, loc=False):
    """The rows of one history."""
    who = (a.attrs["name"], a.cls.name)
    i = -1
    for t, v in hist:
        if isinstance(v, Obj) and v.cls.name == "ActiveStatus":
            continue
        i += 1
        note = notes[i] if notes else None
        if table:
            if isinstance(v, dict):
                rows = [(*who, f"{label}.{k}", t, x, note) for k, x in v.items()]
            elif isinstance(v, Obj) and v.cls.module.name == "user" and v.cls.annots:
                rows = [(*who, f"{label}.{k}", t, v.attrs[k], note) for k in v.cls.annots]
            else:
                rows = [(*who, label, t, v, note)]
            (sc.places if location else sc.rows).extend(rows)
        if loc and isinstance(v, Obj) and v.cls.name in ATTR:
            sc.loc_rows.append((*who, label, t, *(v.attrs[x] for x in ATTR[v.cls.name]), note, v.cls.name))


def seen(sc, a, label, v, location=False):
    (sc.static_places if location else sc.static).append((a.attrs["name"], a.cls.name, label, 0, v, "Last Seen"))


KINDS = {}


def kind(name):
    def deco(f):
        KINDS[name] = f
        return f
    return deco


def plain(n):
    def build(sc, a, s):
        tag = f"{a.label}.{s}"
        h = [(sym(f"{tag}.t{i}"), sym(f"{tag}.v{i}")) for i in range(n)]
        sc.state(a, s, "State", h[-1][1], h, recording=True, default=sym("default"))
        expect(sc, a, s, h)
    return build


for _n in (1, 3):
    KINDS[f"recorded {_n} times"] = plain(_n)


@kind("recorded, also nothing")
def _(sc, a, s):
    tag = f"{a.label}.{s}"
    h = [(sym(f"{tag}.t0"), None), (sym(f"{tag}.t1"), "a text"), (sym(f"{tag}.t1"), True), (sym(f"{tag}.t1"), None)]
    sc.state(a, s, "State", None, h, recording=True, allow_none_default=True)
    expect(sc, a, s, h)


@kind("recorded dictionaries")
def _(sc, a, s):
    tag = f"{a.label}.{s}"
    h = [(sym(f"{tag}.t{i}"), {k: sym(f"{tag}.{k}{i}") for k in ks}) for i, ks in enumerate(("p", "", "qp", "q"))]
    sc.state(a, s, "State", h[-1][1], h, recording=True, default=sym("default"))
    expect(sc, a, s, h)


@kind("recorded dataclasses")
def _(sc, a, s):
    tag = f"{a.label}.{s}"
    h = [(sym(f"{tag}.t{i}"), Obj(sc.user["Info"], {k: sym(f"{tag}.{k}{i}") for k in ("one", "two")}, f"info{i}")) for i in range(2)]
    sc.state(a, s, "State", h[-1][1], h, recording=True, default=sym("default"))
    expect(sc, a, s, h)


def active(cls, letters, value, location=False, **kw):
    def build(sc, a, s):
        tag = f"{a.label}.{s}"
        h, notes = marks(sc, letters, lambda i: value(sc, f"{tag}.v{i}"), tag)
        sc.state(a, s, cls, h[0][1], h, recording=True, **kw)
        expect(sc, a, s, h, notes, location, loc=location)
    return build


for _w in ("v", "v+", "v+v", "vvv+vvv-vv", "v+v-v+v-", "v+vv-v"):
    KINDS[f"linear {_w}"] = active("LinearChangingState", _w, lambda sc, t: sym(t), default=0)
    for _c in ("Cartesian", "Geodetic"):
        KINDS[f"{_c} {_w}"] = active(f"{_c}LocationChangingState", _w, lambda sc, t, _c=_c: sc.location(f"{_c}Location", t), True)
KINDS["active dictionaries"] = active("ActiveState", "v+v-v", lambda sc, t: {k: sym(f"{t}.{k}") for k in "pq"}, default=0)
KINDS["active dataclasses"] = active("ActiveState", "v+v-v", lambda sc, t: Obj(sc.user["Info"], {k: sym(f"{t}.{k}") for k in ("one", "two")}, t), default=0)


def places(cls, pattern):
    def build(sc, a, s):
        tag = f"{a.label}.{s}"
        h = [(sym(f"{tag}.t{i}"), sc.location(cls, f"{tag}.v{i}") if x == "v" else None) for i, x in enumerate(pattern)]
        sc.state(a, s, "State", h[-1][1], h, recording=True, default=sym("default"))
        expect(sc, a, s, h, None, "." not in pattern, loc=True)
    return build


for _c in ("CartesianLocation", "GeodeticLocation"):
    KINDS[f"{_c} set"] = places(_c, "vvv")
KINDS["location, or none"] = places("CartesianLocation", "v.v")


def entries(cls, keys, deep=False, rec=True, loc=False):
    def build(sc, a, s):
        tag = f"{a.label}.{s}"
        if cls == "DictionaryState":
            v = {k: sym(f"{tag}.{k}") for k in keys}
        else:
            v = Obj(sc.user["Info"], {k: sym(f"{tag}.{k}") for k in ("one", "two")}, tag)
        st = sc.state(a, s, cls, v, None, recording=rec)
        sc.now[id(a), s] = sc.it.construct(sc.prog.cls("_DictionaryProxy" if cls == "DictionaryState" else "_DataclassProxy"), [st, a, v], {})
        for n, k in enumerate(keys):
            label = f"{s}.{k}"
            if rec:
                h = [(sym(f"{tag}.{k}.t{i}"), {"in": sym(f"{tag}.{k}.v{i}")} if deep else sc.location("CartesianLocation", f"{tag}.{k}.v{i}") if loc else sym(f"{tag}.{k}.v{i}")) for i in range(2 - n)]
                a.attrs["_state_histories"][label] = h
                expect(sc, a, label, h)
            else:
                seen(sc, a, label, v[k] if isinstance(v, dict) else v.attrs[k])
    return build


KINDS["dictionary state"] = entries("DictionaryState", ("p", "q"))
KINDS["dictionary state of dictionaries"] = entries("DictionaryState", ("p", "q"), True)
KINDS["dictionary state of locations"] = entries("DictionaryState", ("p",), loc=True)
KINDS["empty dictionary state"] = entries("DictionaryState", ())
KINDS["dictionary state, not recorded"] = entries("DictionaryState", ("p", "q"), rec=False)
KINDS["dataclass state"] = entries("DataclassState", ("one", "two"))
KINDS["dataclass state, not recorded"] = entries("DataclassState", ("one", "two"), rec=False)


def function(pattern, base=None):
    def build(sc, a, s):
        tag = f"{a.label}.{s}"
        h = [(sym(f"{tag}.t{i}"), sym(f"{tag}.v{i}")) for i in range(2)]
        n = pattern.format(s)
        sc.state(a, s, "State", h[-1][1], h, recording=True, default=sym("default"), recording_functions=[(Obj("function", {}), n)])
        g = [(t, sym(f"{tag}.f{i}")) for i, (t, _) in enumerate(h)]
        a.attrs["_state_histories"][n] = g
        expect(sc, a, s, h)
        expect(sc, a, n, g)
    return build


KINDS["recording function"] = function("mean of {}")
KINDS["recording function, named like an entry"] = function("{}.mean")


@kind("recording function, named like an entry of another state")
def _(sc, a, s):
    v = sym(f"{a.label}.{s}.now")
    sc.state(a, s, "State", v, default=sym("default"))
    seen(sc, a, s, v)
    function(s + ".mean")(sc, a, s + "2")


@kind("recording function of a dictionary state")
def _(sc, a, s):
    entries("DictionaryState", ("p", "q"))(sc, a, s)
    h = [(sym(f"{a.label}.{s}.ft"), sym(f"{a.label}.{s}.f"))]
    a.attrs["_state_histories"][s + ".total"] = h
    expect(sc, a, s + ".total", h)


def resource(cls, monitors, n=2):
    def build(sc, a, s):
        o = sc.store(f"{a.label}.{s}", n, monitors)
        sc.state(a, s, cls, o, **({"default": sc.user["Store"]} if cls == "ResourceState" and False else {}))
        if monitors:
            expect(sc, a, s, o.attrs["_quantities"])
        else:
            seen(sc, a, s, o)
    return build


KINDS["resource"] = resource("ResourceState", True)
KINDS["resource, not monitored"] = resource("ResourceState", False)
KINDS["resource in a plain state"] = resource("State", True, 3)


@kind("resource that two states hold")
def _(sc, a, s):
    o = sc.store(f"{a.label}.{s}", 2)
    for x in (s, s + "2"):
        sc.state(a, x, "State", o)
        expect(sc, a, x, o.attrs["_quantities"])


def stores(pattern):
    def build(sc, a, s):
        v = {f"k{i}": sc.store(f"{a.label}.{s}.k{i}", i + 1, m == "m") for i, m in enumerate(pattern)}
        st = sc.state(a, s, "MultiStoreState", v)
        sc.now[id(a), s] = sc.it.construct(sc.prog.cls("_DictionaryProxy"), [st, a, v], {})
        for k, o in v.items():
            if "_quantities" in o.attrs:
                expect(sc, a, f"{s}.{k}", o.attrs["_quantities"])
            else:
                seen(sc, a, f"{s}.{k}", o)
    return build


for _p in ("mm", "m.m", ".", ""):
    KINDS[f"stores {_p or '-'}"] = stores(_p)


def static(cls, value, location=False, now=None, **kw):
    def build(sc, a, s):
        tag = f"{a.label}.{s}"
        v = value(sc, tag)
        w = v if now is None else now(sc, tag + ".now")
        sc.state(a, s, cls, v, now=w, **kw)
        seen(sc, a, s, w, location)
    return build


KINDS["static"] = static("State", lambda sc, t: sym(t), default=0)
KINDS["static active"] = static("LinearChangingState", lambda sc, t: sym(t), now=lambda sc, t: sym(t), default=0)
KINDS["static dictionary"] = static("State", lambda sc, t: {"k": sym(t)}, default=0)
KINDS["static place"] = static("State", lambda sc, t: sc.location("GeodeticLocation", t), True, default=0)
KINDS["static moving"] = static("CartesianLocationChangingState", lambda sc, t: sc.location("CartesianLocation", t), True, now=lambda sc, t: sc.location("CartesianLocation", t))


@kind("not set")
def _(sc, a, s):
    sc.state(a, s, "State", recording=True, allow_none_default=True)


@kind("not set, and not recorded")
def _(sc, a, s):
    sc.state(a, s, "State", allow_none_default=True)


@kind("not set, but recorded what it mimics")
def _(sc, a, s):
    tag = f"{a.label}.{s}"
    h = [(sym(f"{tag}.t{i}"), sym(f"{tag}.v{i}")) for i in range(2)]
    sc.state(a, s, "State", NOT, h, now=sym(f"{tag}.now"), recording=True, allow_none_default=True)
    a.attrs["_mimic_states"][s] = (a, s)
    expect(sc, a, s, h)


@kind("not set, but mimics")
def _(sc, a, s):
    v = sym(f"{a.label}.{s}.now")
    sc.state(a, s, "State", NOT, None, now=v, allow_none_default=True)
    a.attrs["_mimic_states"][s] = (a, s)
    seen(sc, a, s, v)


def read(sc):
    """The states as attributes of the actors."""
    def at(it, o, n):
        if isinstance(o, Obj) and n in o.attrs.get("_state_defs", ()):
            v = sc().now[id(o), n]
            if v is NOT:
                raise it.exc("SimulationError", "should have been set")
            return v
        return None
    return at


def same_row(it, a, b):
    return len(a) == len(b) and all(x is y or (not isinstance(x, Obj) and not isinstance(y, Obj) and type(x) is type(y) and x == y) or
                                    (isinstance(x, dict) and isinstance(y, dict) and list(x) == list(y) and all(x[k] is y[k] or x[k] == y[k] for k in x)) or
                                    (x == 0 and y == 0 and not isinstance(x, (T, Obj))) for x, y in zip(a, b))


def row(r):
    return "(" + ", ".join(show(x.t) if isinstance(x, T) else repr(x) for x in r) + ")"


def differ(it, got, want):
    """The first difference of two tables, rows of one label in order."""
    by = {}
    for i, rows in enumerate((got, want)):
        for r in rows:
            by.setdefault(tuple(map(str, r[:3])), ([], []))[i].append(r)
    for k, (g, w) in by.items():
        for x, y in zip(g, w):
            if not same_row(it, x, y):
                return f"the row {row(x)} is given instead of {row(y)}"
        if len(g) > len(w):
            return f"the row {row(g[len(w)])} is given, which nothing recorded"
        if len(w) > len(g):
            return f"the row {row(w[len(g)])} is not there"
    return None


HEAD = ["Entity Name", "Entity Type", "State Name", "Time"]
AXES = {"CartesianLocation": ["X", "Y", "Z"], "GeodeticLocation": ["Lat", "Lon", "Alt"]}


def scenes(tier):
    """What actors have, by kinds of states."""
    ks = list(KINDS)
    yield from ([[k]] for k in ks)
    yield [[]]
    yield []
    few = ks if tier == "thorough" else [k for k in ks if k in FEW]
    yield from ([[a, b]] for a in few for b in few)
    yield from ([[a], [b]] for a in few for b in few)
    yield [ks]
    yield [ks[::2], ks[1::2], []]
    yield [ks[::-1], ks]


FEW = ("recorded 3 times", "recorded dictionaries", "linear v+v-v+v-", "Cartesian v+v-v+v-", "Geodetic v+v-v+v-", "CartesianLocation set", "dictionary state",
       "dataclass state, not recorded", "recording function", "resource", "stores m.m", "static", "not set", "static moving", "resource in a plain state")


@prop("C35")
def tables(ctx: Ctx):
    prog = ctx.prog
    R = ctx.rule
    R("C35.table", "the data table has a row of each recorded value, and of each value of a monitoring resource, with its actor, state, time and activity, and no other", 300)
    R("C35.static", "with static values asked for, it also has the current value of each state that is set but records nothing, and with locations the states of locations", 150)
    R("C35.location", "the location table has a row of each recorded location with its coordinates and activity, and no other, under the names of the coordinates", 300)
    R("C35.status", "a change of activation is recorded after the value at its time, and no recording function gets it", 24)
    R("C35.custom", "what is recorded by hand is returned with its times, in order, a copy where one is asked for", 4)
    make, locs = prog.func("data_utils.data_utils:create_table"), prog.func("data_utils.data_utils:create_location_table")
    user = {"Ship": user_class(prog, "Ship", prog.cls("Actor")), "Tug": user_class(prog, "Tug", prog.cls("Actor")),
            "Info": user_class(prog, "Info", fields=("one", "two")), "SelfMonitoringStore": user_class(prog, "SelfMonitoringStore"), "Store": user_class(prog, "Store")}
    box = {}
    now = read(lambda: box["sc"])
    icpt = {"base:UpstageBase.get_actors": lambda it, a, k: list(box["sc"].actors), "base:UpstageBase.get_monitored": lambda it, a, k: list(box["sc"].monitored),
            "base:UpstageBase.__init__": lambda it, a, k: None, "hasattr": lambda it, v, n: False if v.kind else None}
    names = {f"s{i}{x}" for i in range(len(KINDS) + 1) for x in ("", "2")}
    for n in names:
        icpt["attr", n] = lambda it, o, n=n: now(it, o, n)
    free = 0
    for spec in scenes(ctx.tier):
        free += 1
        if len(ctx.findings) > 100:
            break
        title = "; ".join(", ".join(k) if len(k) <= 3 else f"{len(k)} states" for k in spec) or "no actors"
        for f, args in ((make, {}), (make, {"skip_locations": True, "save_static": True}), (make, {"skip_locations": False, "save_static": False}), (make, {"skip_locations": False, "save_static": True}), (locs, {})):
            rule = "C35.location" if f is locs else "C35.table" if not args.get("save_static") and args.get("skip_locations", True) else "C35.static"

            def th(it):
                sc = box["sc"] = Scene(it, prog, user)
                sc.static_places = []
                for i, ks in enumerate(spec):
                    a = sc.actor(f"actor{i}", ("Ship", "Tug")[i % 2])
                    for j, k in enumerate(ks):
                        KINDS[k](sc, a, f"s{j}")
                if free % 3 == 0 or len(spec) == 0:
                    for n in ("Store one", "Store two", None):
                        o = sc.store(f"free {n}", 2, True, n)
                        sc.monitored.insert(0, sc.monitored.pop())
                        sc.rows += [(str(n), "SelfMonitoringStore", "Resource", t, q, None) for t, q in o.attrs["_quantities"]]
                return it.call_func(f, [], dict(args))
            c = title + (" (" + ", ".join(k for k, v in (("with locations", not args.get("skip_locations", True)), ("with static values", args.get("save_static"))) if v) + ")" if rule == "C35.static" else "")
            try:
                rs = explore(prog, th, intercept=icpt, max_steps=400_000, max_paths=20)
            except Unknown as e:
                ctx.bad(rule, c, f"cannot be decided: {e}", f.loc)
                continue
            ctx.paths_n += len(rs)
            why = None
            for r in rs:
                ctx.functions |= r.it.used
                sc = box["sc"]
                if r.conds:
                    why = f"the table depends on {show(r.conds[0][0])}"
                elif r.outcome != "return":
                    why = f"{r.value!r} is raised"
                elif not (isinstance(r.value, tuple) and len(r.value) == 2):
                    why = "not a table and its columns"
                if why:
                    break
                got, cols = list(r.it.items(r.value[0])), list(r.it.items(r.value[1]))
                if f is locs:
                    used = {x[-1] for x in sc.loc_rows}
                    why = differ(r.it, [tuple(r.it.items(x)) for x in got], [x[:-1] for x in sc.loc_rows])
                    if not why and cols not in [HEAD + AXES[u] + ["Activation Status"] for u in used or AXES]:
                        why = f"the columns are {', '.join(map(str, cols))}"
                else:
                    want = list(sc.rows)
                    if args.get("save_static"):
                        want += sc.static
                    if not args.get("skip_locations", True):
                        want += sc.places + (sc.static_places if args.get("save_static") else [])
                    why = differ(r.it, [tuple(r.it.items(x)) for x in got], want)
                    if not why and cols != HEAD + ["Value", "Activation Status"]:
                        why = f"the columns are {', '.join(map(str, cols))}"
            ctx.check(not why, rule, c, why or "", f.loc)
    statuses(ctx, prog, user)
    custom(ctx, prog)


def statuses(ctx, prog, user):
    A = prog.cls("ActiveState")
    for K in sorted([A, *prog.subclasses(A, strict=True)], key=lambda c: c.name):
        for act in ("activate", "deactivate"):
            f = prog.method(K, act)
            for past in ("nothing", "a value before", "a value now", "a change now", "a change before", "not recorded"):
                c = f"{K.name}.{act} after {past}"
                box = {}

                def th(it):
                    st = it.construct(K, [], {"recording": past != "not recorded", **({"default": sym("d")} if "Location" not in K.name else {})})
                    st.attrs["name"] = "s"
                    given = []
                    st.attrs["_recording_functions"] = [(lambda it, a, k: given.append(a) or sym("f"), "func")]
                    on, off = (it.class_attr(prog.cls("ActiveStatus"), x) for x in ("activating", "deactivating"))
                    v, now, ago = sym("value"), 7, 4
                    h = {"a value before": [(ago, sym("old"))], "a value now": [(ago, sym("old")), (now, v)],
                         "a change now": [(now, v), (now, off if act == "activate" else on)],
                         "a change before": [(ago, sym("old")), (ago, off if act == "activate" else on)]}.get(past)
                    task = Obj("Task", {})
                    a = Obj(user["Ship"], {"s": v, "_active_states": {"s": {"started_at": now, "_last_time": now, "_rate_tasks": {task: sym("rate")}}}, "_state_histories": {} if h is None else {"s": list(h)}}, "ship")
                    box.update(h=h or [], a=a, v=v, given=given, want=on if act == "activate" else off)
                    return it.call(it.getattr(st, act), [a], {"task": task})
                rs = explore(prog, th, intercept={
                    "copy.deepcopy": lambda it, a, k: a[0], ("attr", "env"): lambda it, o: Obj("env", {"now": 7}), ("attr", "stage"): lambda it, o: Obj("stage", {})})
                ctx.paths_n += len(rs)
                why = None
                for r in rs:
                    ctx.functions |= r.it.used
                    if r.outcome != "return":
                        why = f"raises {r.value!r} {r.value.attrs.get('args', '')}"
                        break
                    h = box["a"].attrs["_state_histories"].get("s", [])
                    if past == "not recorded":
                        why = "a history is kept" if box["a"].attrs["_state_histories"] else None
                        continue
                    new = list(h[len(box["h"]):])
                    values = [(7, box["v"])] if past != "a value now" else []
                    if len(new) != len(values) + 1 or any(x[0] != y[0] or x[1] is not y[1] for x, y in zip(new, [*values, (7, box["want"])])):
                        why = f"records {', '.join(map(repr, new)) or 'nothing'}, not {', '.join(map(repr, [*values, (7, box['want'])]))}"
                    elif any(len(g) != 2 or g[1] is not box["v"] for g in box["given"]):
                        why = "a recording function gets the change of activation"
                ctx.check(not why, "C35.status", c, why or "", f.loc)


def custom(ctx, prog):
    f, g = prog.func("data_utils.data_recorder:record_data"), prog.func("data_utils.data_recorder:get_recorded_data")
    D = prog.cls("DataRecorder")
    for how in ("record_data", "DataRecorder"):
        for copies in ("", "y", "n", "yn", "ny", "yy"):
            c = f"{how} of {' then '.join({'y': 'a copy', 'n': 'a value'}[x] for x in copies) or 'nothing'}"
            box = {}

            def th(it):
                env = Obj("env", {"now": sym("now0")})
                box["data"] = []
                kept = Obj("SpecialContexts", {"data_recorded": []})
                box["env"] = env
                it.intercept[("attr", "env")] = lambda it, o: env
                it.intercept["contextvars.ContextVar"] = lambda it, a, k: Obj("ContextVar", {"get": lambda it, aa, kk: kept if "Special" in str(a[0]) else Obj("other")})
                rec = it.construct(D, [], {}) if how == "DataRecorder" else None
                for i, x in enumerate(copies):
                    env.attrs["now"] = sym(f"now{i}")
                    v = {"n": sym(f"n{i}")}
                    box["data"].append((sym(f"now{i}"), v, x == "y"))
                    kw = {"copy": True} if x == "y" else {}
                    if rec is None:
                        it.call_func(f, [v], kw)
                    else:
                        it.call(it.getattr(rec, "record_data"), [v], kw)
                return it.call_func(g, [], {})
            rs = explore(prog, th, intercept={"base:UpstageBase.__init__": lambda it, a, k: None})
            ctx.paths_n += len(rs)
            why = None
            for r in rs:
                ctx.functions |= r.it.used
                if r.conds or r.outcome != "return":
                    why = f"gives {r!r}"
                    break
                got = list(r.it.items(r.value))
                if len(got) != len(copies):
                    why = f"{len(got)} entries are returned for {len(copies)}"
                for x, (t, v, cp) in zip(got, box["data"]):
                    x = tuple(r.it.items(x))
                    if len(x) != 2 or x[0] != t or (x[1] is v) == cp or list(x[1]) != ["n"]:
                        why = f"{x!r} is returned for {v!r} recorded at {t!r}"
            ctx.check(not why, "C35.custom", c, why or "", f.loc)
