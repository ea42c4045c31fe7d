"""C30, C28, C29: intersections along a path and the notices of the motion managers.

The functions are evaluated over symbolic times, places and speeds (value.py); comparisons are decided by an order of
the quantities, one for each case, so a result is a term that must be the expected one for every value in that order.
"""
from __future__ import annotations

import ast
import bisect
import math
import random
import threading
from fractions import Fraction

from math import isqrt, sqrt

from ..api import Ctx, prop
from ..model import AnalysisBroken
from ..value import Class, Gen, Obj, Raised, T, Unknown, explore, num, show, term
from . import location_rules as L

F = Fraction


def sym(n):
    return T(("sym", n), "num")


TRIG = {f"math.{n}": getattr(math, n) for n in "sin cos tan asin acos atan atan2 radians degrees fabs hypot fmod".split()}


class Order:
    """Decides comparisons of quantities by a witness of their order."""

    def __init__(self, vals, more=None):
        self.vals = {("sym", k) if isinstance(k, str) else k: F(v) for k, v in vals.items()}
        self.more = more
        self.memo = {}

    def value(self, t):
        if id(t) in self.memo:
            return self.memo[id(t)][1]
        r = self._value(t)
        self.memo[id(t)] = t, r
        return r

    def _value(self, t):
        if t in self.vals:
            return self.vals[t]
        o = t[0]
        if t in (("ext", "math.pi"), ("ext", "math.tau")):
            return F(getattr(math, t[1][5:]))
        if o == "const":
            return F(t[1]) if isinstance(t[1], (int, float, Fraction)) and not isinstance(t[1], bool) else None
        if o in ("neg", "pos"):
            v = self.value(t[1])
            return None if v is None else -v if o == "neg" else v
        if o == "bin":
            a, b = self.value(t[2]), self.value(t[3])
            if a is None or b is None:
                return None
            op = t[1]
            if op == "/":
                return a / b if b else None
            if op == "**":
                if t[2][0] == "call" and t[2][1] == ("ext", "math.sqrt") and b.denominator == 1 and b % 2 == 0 and b > 0:
                    return self.value(t[2][2][0]) ** int(b / 2)
                if b == F(1, 2):
                    return self.root(a)
                return a ** int(b) if b.denominator == 1 and abs(b) < 9 and (a or b > 0) else None
            if op == "%":
                return a % b if b else None
            return {"+": a + b, "-": a - b, "*": a * b}.get(op)
        if o == "call":
            xs = [self.value(x) for x in t[2]]
            if any(x is None for x in xs):
                return None
            if t[1] == ("ext", "math.sqrt"):
                return self.root(xs[0])
            if t[1][0] == "ext" and t[1][1] in TRIG:
                try:
                    return F(TRIG[t[1][1]](*map(float, xs)))
                except ValueError:
                    return None
            if t[1] in (("builtin", "abs"), ("builtin", "float"), ("builtin", "min"), ("builtin", "max")):
                return {"abs": lambda x: abs(x), "float": lambda x: x, "min": min, "max": max}[t[1][1]](*xs)
        return None

    @staticmethod
    def root(a):
        if a < 0:
            return None
        r, s = isqrt(a.numerator), isqrt(a.denominator)
        return F(r, s) if r * r == a.numerator and s * s == a.denominator else F(sqrt(a))

    def __call__(self, key, it):
        if self.more is not None:
            r = self.more(key, it)
            if r is not None:
                return r
        if key[0] == "isnone" and key[1][0] in ("sym", "bin", "attr"):
            return False
        if key[0] in ("lt", "eq"):
            a, b = self.value(key[1]), self.value(key[2])
            if a is not None and b is not None:
                return a < b if key[0] == "lt" else a == b
        return None


class Field:
    """Identity of terms (sums, products, quotients and roots): evaluated in a finite field, where they are equal for
    random values of their atoms only when they are the same function (Schwartz-Zippel)."""

    P = 2**61 - 1

    def __init__(self, order=None, seed=7):
        self.order, self.rng = order, random.Random(seed)
        self.points = []

    class NoRoot(Exception):
        pass

    def ev(self, t, env, memo):
        if id(t) in memo:
            return memo[id(t)][1]
        r = self._ev(t, env, memo)
        memo[id(t)] = t, r
        return r

    def _ev(self, t, env, memo):
        P, o = self.P, t[0]
        if o == "const" and num(t[1]) or o == "const" and isinstance(t[1], float):
            x = F(t[1])
            return x.numerator * pow(x.denominator, -1, P) % P
        if o in ("neg", "pos"):
            v = self.ev(t[1], env, memo)
            return -v % P if o == "neg" else v
        if o == "bin" and t[1] in ("+", "-", "*", "/"):
            a, b = self.ev(t[2], env, memo), self.ev(t[3], env, memo)
            if t[1] == "/":
                if b == 0:
                    raise ZeroDivisionError
                return a * pow(b, -1, P) % P
            return {"+": a + b, "-": a - b, "*": a * b}[t[1]] % P
        if o == "bin" and t[1] == "**" and t[3][0] == "const":
            e = F(t[3][1])
            if e.denominator == 1:
                return pow(self.ev(t[2], env, memo), int(e), P)
            if e.denominator == 2:
                return pow(self.root(self.ev(t[2], env, memo)), int(e * 2), P)
        if o == "call" and len(t[2]) == 1 and not t[3]:
            if t[1] == ("ext", "math.sqrt"):
                return self.root(self.ev(t[2][0], env, memo))
            if t[1] == ("builtin", "float"):
                return self.ev(t[2][0], env, memo)
            if t[1] in (("builtin", "abs"), ("ext", "math.fabs")) and self.order is not None:
                v = self.order.value(t[2][0])
                if v is not None:
                    x = self.ev(t[2][0], env, memo)
                    return x if v >= 0 else -x % P
        if t not in env:
            env[t] = self.rng.randrange(1, P)
        return env[t]

    def root(self, x):
        r = pow(x, (self.P + 1) // 4, self.P)
        if r * r % self.P != x % self.P:
            raise self.NoRoot
        return min(r, self.P - r)

    def holds(self, *pairs, times=2):
        """Each pair of terms is equal (for either sign of a root, so squares of what should be positive are given)."""
        good = 0
        for _ in range(400):
            env, memo = {}, {}
            try:
                if any(self.ev(a, env, memo) != self.ev(b, env, memo) for a, b in pairs):
                    return False
            except self.NoRoot:
                self.n = getattr(self, "n", 0) + 1
                continue
            except ZeroDivisionError:
                return False
            good += 1
            if good == times:
                return True

        return False


class Ended(BaseException):
    """Ends a process that is left over."""


class Endless(Exception):
    """The processes go on without end."""


class Steps:
    """A process in steps: it runs until it waits, and goes on when it is resumed."""

    def __init__(self, body):
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.sent = self.got = self.error = None
        self.over = False
        self.body = body
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()

    def main(self):
        self.go.acquire()
        try:
            if not isinstance(self.sent, Ended):
                self.body(self.wait)
        except Ended:
            pass
        except BaseException as e:
            self.error = e
        self.over = True
        self.back.release()

    def wait(self, v):
        self.got = v
        self.back.release()
        self.go.acquire()
        if isinstance(self.sent, BaseException):
            raise self.sent
        return self.sent

    def resume(self, v=None):
        self.sent = v
        self.go.release()
        self.back.acquire()
        if self.error is not None:
            e, self.error = self.error, None
            raise e
        return not self.over


class World:
    """Stand-ins for the simulation: its clock, its processes and what sensors are told."""

    def __init__(self, it, prog, order):
        self.it, self.prog, self.order = it, prog, order
        self.log, self.procs, self.queue = [], [], []
        self.env = Obj("Environment", {"now": sym("now"), "process": self.h_process, "timeout": self.h_timeout, "_queue": self.queue, "active_process": None}, "env")
        self.seq = self.events = 0
        self.interrupts = []                  # (process, was it waiting)
        self.waits = []                       # (process, until when)

    # the clock
    def when(self, t):
        v = self.order.value(term(t))
        if v is None:
            raise AnalysisBroken(f"the order of the quantities does not decide the time {show(term(t))[:200]}")
        return v

    def put(self, t, action, late=1):
        self.seq += 1
        bisect.insort(self.queue, (self.when(t), late, self.seq, t, action))

    def at(self, t, action):
        """Does something at a time."""
        self.put(t, action)

    def run_all(self):
        """Runs until nothing is left to do."""
        while self.queue:
            self.events += 1
            if self.events > 400:
                raise Endless("goes on without end")
            _, _, _, t, action = self.queue.pop(0)
            self.env.attrs["now"] = t
            action()

    def close(self):
        for p in self.procs:
            if not p.steps.over:
                p.steps.resume(Ended())

    # the environment
    def h_timeout(self, it, a, k):
        d = a[0] if a else k["delay"]
        if self.when(d) < 0:
            raise it.exc("ValueError", "negative delay")
        then = it.bin(ast.Add(), self.env.attrs["now"], d)
        t = Obj("Timeout", {"delay": d}, "timeout")
        t.then, t.waiting = then, []
        self.put(then, lambda: [p for p in t.waiting if not p.done and p.target is t and self.step(p) is None])
        return t

    def h_process(self, it, a, k):
        g = a[0] if a else k["generator"]
        if not isinstance(g, Gen):
            raise AnalysisBroken("a process is not a generator of the package")
        p = Obj("Process", {"is_alive": True, "name": "process"}, f"process{len(self.procs)}")
        p.done, p.target = False, None
        p.steps = Steps(lambda wait: self.it.run_gen(g, lambda it, v: wait(v)))

        def interrupt(it, a, k):
            if p.done:
                raise it.exc("RuntimeError", "a finished process cannot be interrupted")
            if self.env.attrs["active_process"] is p:
                raise it.exc("RuntimeError", "a process is not allowed to interrupt itself")
            self.interrupts.append(p)
            self.put(self.env.attrs["now"], lambda: None if p.done else self.step(p, Raised(Obj("Interrupt", {"args": (), "cause": None}))), 0)

        p.attrs["interrupt"] = interrupt
        self.procs.append(p)
        self.put(self.env.attrs["now"], lambda: self.step(p), 0)
        return p

    def step(self, p, sent=None):
        was, self.env.attrs["active_process"] = self.env.attrs["active_process"], p
        try:
            if not p.steps.resume(sent):
                p.done, p.attrs["is_alive"] = True, False
                self.put(self.env.attrs["now"], lambda: None)
                return
        finally:
            self.env.attrs["active_process"] = was
        v = p.steps.got
        if not (isinstance(v, Obj) and v.cls == "Timeout"):
            raise AnalysisBroken(f"a process waits for {v!r}")
        p.target = v
        v.waiting.append(p)
        self.waits.append((p, v.then))

    # the parties
    def told(self, kind, sensor):
        def f(it, a, k):
            m = a[0] if a else next(iter(k.values()))
            self.log.append((kind, sensor, m, self.env.attrs["now"]))
            if kind in sensor.on:
                sensor.on[kind](m)
        return f

    def as_sensor(self, s, name):
        s.on = {}
        s.attrs |= {"place": T(("sym", name + ".place")), "reach": sym(name + ".reach")}
        s.attrs.setdefault("entity_entered_range", self.told("enter", s))
        s.attrs.setdefault("entity_exited_range", self.told("exit", s))
        return s

    def sensor(self, name, **more):
        return self.as_sensor(Obj("Sensor", {"name": name, **more}, name), name)

    def mover(self, name, state="seen", **more):
        m = Obj(self.prog.cls("Actor"), {"name": name, **more}, name)
        m.attrs["detection"] = state
        m.attrs["_active_states"] = {}
        m.attrs.setdefault("_state_defs", {})
        if state:
            m.attrs.setdefault(state, True)
        return m


class Undecided:
    """Comparisons that the order of the quantities does not decide."""

    outcome, value, conds = "undecided", "what it compares", [(("sym", "comparisons of other quantities"), True)]


class Never:
    """A run that does not end."""

    def __init__(self, why):
        self.outcome, self.value, self.conds = "raise", why, []


def base(box):
    return {**L.BASE, ("attr", "env"): lambda it, o: box["w"].env, "generators": True, "process": lambda it, g: box["w"].h_process(it, [g], {}), "forkminmax": True, "diff_limit": 60, "warnings.warn": lambda it, a, k: None,
            "actor:Actor._get_detection_state": lambda it, a, k: a[0].attrs["detection"],
            "base:UpstageBase.__init__": lambda it, a, k: None}


def runner(ctx, prog):
    def run(scene, order, extra=None):
        box = {}

        def th(it):
            box["w"] = w = World(it, prog, order)
            try:
                return scene(it, w)
            finally:
                w.close()
        try:
            rs = explore(prog, th, intercept={**base(box), **(extra or {})}, oracle=order, max_paths=60)
        except Endless as e:
            return [Never(str(e))]
        except Unknown as e:
            if str(e) == "recursion":
                return [Never("calls itself without end")]
            if "paths" not in str(e):
                raise
            return [Undecided(), Undecided()]
        ctx.paths_n += len(rs)
        for r in rs:
            ctx.functions |= r.it.used
        return rs
    return run


def equal(a, b):
    """The same number for all values."""
    return Field().holds(*[(a if isinstance(a, tuple) else term(a), b if isinstance(b, tuple) else term(b))])


def total(*xs):
    t = ("const", 0)
    for x in xs:
        t = ("bin", "+", t, term(x))
    return T(t, "num")


def mistakes(log, want, same=None):
    """What is wrong with a list of notices (kind, sensor, mover, time)."""
    def line(n):
        k, s, m, t = n
        return f"{'entry' if k == 'enter' else 'exit'} of {m} to {s} at {show(term(t))}"
    if len(log) != len(want):
        got = "; ".join(map(line, log)) or "nothing"
        return f"tells {got}, not " + ("; ".join(map(line, want)) or "nothing")
    for g, w in zip(log, want):
        if g[:3] != w[:3] or not (same or equal)(g[3], w[3]):
            return f"tells {line(g)}, not {line(w)}"
    return None


# -- legs -----------------------------------------------------------------------------------------
OUTSIDE = ("none", "E-E", "E-X")
INSIDE = ("S-E", "S-X")
LEAVES_IN = {"none": False, "E-E": True, "E-X": False, "S-E": True, "S-X": False}
FULL = {"E": "ENTER", "S": "START_INSIDE", "X": "EXIT"}


def journeys(n):
    out = []

    def go(seq, inside):
        if len(seq) == n:
            out.append(tuple(seq))
            return
        for k in (INSIDE if inside else OUTSIDE) if seq else OUTSIDE + INSIDE:
            go([*seq, k], LEAVES_IN[k])
    go([], False)
    return out


class Model:
    """An intersection model that gives what it is told for each leg."""

    def __init__(self, w, legs, points, speed):
        self.w, self.legs, self.points, self.speed = w, legs, points, speed
        self.calls = []

    def __call__(self, it, a, k):
        a = [*a, *k.values()]
        i = next((i for i in range(len(self.legs)) if a[0] is self.points[i]), None)
        self.calls.append((i, a))
        if i is None or len(a) != 5 or a[1] is not self.points[i + 1]:
            return ([], [], [], 0)
        kind = self.legs[i]
        pt = sym(f"path{i}")
        if kind == "none":
            return ([], [], ["BAD", "BAD"], pt)
        first, second = kind.split("-")
        t1 = 0 if first == "S" else sym(f"in{i}")
        t2 = pt if second == "E" else sym(f"out{i}")
        types = [FULL[first], "END_INSIDE" if second == "E" else "EXIT"]
        return ([T(("sym", f"at{i}a")), T(("sym", f"at{i}b"))], [t1, t2], types, pt)


def expected(legs, sensor, mover, start):
    """Notices of a path."""
    out, elapsed, inside = [], [start], False
    for i, kind in enumerate(legs):
        pt = sym(f"path{i}")
        if kind != "none":
            first, second = kind.split("-")
            if not inside:
                out.append(("enter", sensor, mover, total(*elapsed, *([sym(f"in{i}")] if first == "E" else []))))
            inside = True
            if second == "X":
                out.append(("exit", sensor, mover, total(*elapsed, sym(f"out{i}"))))
                inside = False
        elapsed = [*elapsed, pt]
    return out


def leg_values(n, **more):
    v = {"now": 100, "speed": 3}
    for i in range(n):
        v |= {f"path{i}": 10 + i, f"in{i}": 3 + F(i, 7), f"out{i}": 6 + F(i, 5)}
    return {**v, **more}


def refer(prog, cls, names):
    """Where the methods are, for reports."""
    c = prog.cls(cls)
    for n in names:
        f = c.find(n)
        if f is None:
            raise AnalysisBroken(f"{cls}.{n} is not there")
    return c


@prop("C30")
def paths(ctx: Ctx):
    prog = ctx.prog
    R = ctx.rule
    R("C30.legs", "intersections of a leg are at the time of the start of the path, plus that of all earlier legs, plus that within the leg, in order", 30)
    R("C30.ask", "the intersection model is asked for each leg, with its ends in order, the speed, and the sensor's place and reach", 30)
    R("C30.cartesian", "crossings of a straight leg with a range: which they are, where and when", 60)
    R("C30.ray", "crossings of a ray with an ellipsoid are on both, ahead of the start, in order, with their times", 8)
    R("C30.analytic", "crossings of a great circle with a range: which they are, where and when", 30)
    R("C30.circle", "great circle distances, courses and points are those of the sphere", 8)
    R("C30.numeric", "crossings found by sampling: which they are, where and when", 30)
    run = runner(ctx, prog)
    legs(ctx, prog, run)
    cartesian(ctx, prog, run)
    ray(ctx, prog, run)
    circle(ctx, prog, run)
    analytic(ctx, prog, run)
    numeric(ctx, prog, run)


def legs(ctx, prog, run):
    M = refer(prog, "SensorMotionManager", ("_start_mover", "add_sensor"))
    loc = f"{M.module.rel}:{M.node.lineno}"
    uneven = {"path0": 11, "path1": 14, "path2": 8, "path3": 19}
    for n, times in ((1, {}), (2, {}), (3, {}), (2, {"path0": 15, "path1": 9}), (3, uneven), (4, uneven)):
        for legs in journeys(n):
            c = f"SensorMotionManager: legs {', '.join(legs)}{' of uneven length' if times else ''}"

            def scene(it, w):
                points = [T(("sym", f"point{i}")) for i in range(n + 1)]
                model = Model(w, legs, points, sym("speed"))
                mgr = it.construct(M, [model], {})
                s, m = w.sensor("sensor"), w.mover("mover")
                it.call(it.getattr(mgr, "add_sensor"), [s, "place", "reach"], {})
                it.call(it.getattr(mgr, "_start_mover"), [m, sym("speed"), points], {})
                w.run_all()
                return w, s, m, model
            for r in run(scene, Order(leg_values(n, **times))):
                if r.outcome != "return":
                    ctx.bad("C30.legs", c, f"raises {r.value!r}", loc)
                    continue
                w, s, m, model = r.value
                # within one sensor the pairs are processes: their order is that of their times
                bad = mistakes(w.log, expected(legs, s, m, sym("now")))
                ctx.check(bad is None, "C30.legs", c, bad or "", loc)
                fine = [i for i, _ in model.calls] == list(range(n)) and all(
                    len(a) == 5 and a[1] is model.points[i + 1] and equal(a[2], sym("speed")) and term(a[3]) == ("sym", "sensor.place") and equal(a[4], sym("sensor.reach"))
                    for i, a in model.calls if i is not None)
                ctx.check(fine, "C30.ask", c, "the intersection model is not asked for each leg with its ends, the speed, and the sensor's place and reach", loc)


# -- straight legs --------------------------------------------------------------------------------
K = ("sym", f"{show(L.ALT)}->{show(L.DIST)}")
K_BACK = ("sym", f"{show(L.DIST)}->{show(L.ALT)}")
V3 = [(F(20), F(30), F(60)), (F(30), F(-60), F(20))]     # at right angles, both of length 70
V2 = [(F(30), F(40)), (F(40), F(-30))]

# name: (centre along the leg, centre off the leg, radius) in lengths of the leg; kinds, places of the crossings
CASES = {
    "a range behind the start": ((F(-1), 0, F(1, 2)), None),
    "a range beyond the finish": ((F(2), 0, F(1, 2)), None),
    "a range to the side": ((F(1, 2), F(1), F(1, 2)), None),
    "a range to the side, behind": ((F(-2), F(3), F(1, 2)), None),
    "through the range": ((F(1, 2), F(1, 8), F(1, 4)), ("ENTER", "EXIT")),
    "through the middle of the range": ((F(2, 5), 0, F(1, 4)), ("ENTER", "EXIT")),
    "along the edge of the range": ((F(1, 2), F(1, 3), F(1, 3)), ("ENTER", "EXIT")),
    "into the range": ((F(1), F(1, 8), F(1, 3)), ("ENTER", "END_INSIDE")),
    "far into the range": ((F(3, 2), F(1, 8), F(1)), ("ENTER", "END_INSIDE")),
    "out of the range": ((F(0), F(1, 8), F(1, 3)), ("START_INSIDE", "EXIT")),
    "out of the range, its middle behind": ((F(-1, 5), F(1, 8), F(1, 3)), ("START_INSIDE", "EXIT")),
    "within the range": ((F(1, 2), F(1, 8), F(2)), ("START_INSIDE", "END_INSIDE")),
    "from the edge into the range": ((F(1), 0, F(1)), ("START_INSIDE", "END_INSIDE")),
    "from the edge through the range": ((F(1, 4), 0, F(1, 4)), ("START_INSIDE", "EXIT")),
    "from the edge away": ((F(-1, 4), 0, F(1, 4)), ("START_INSIDE", "EXIT")),
    "through the range to its edge": ((F(3, 4), 0, F(1, 4)), ("ENTER", "END_INSIDE")),
    "up to the edge of the range": ((F(5, 4), 0, F(1, 4)), ("ENTER", "END_INSIDE")),
    "from the middle to the edge": ((F(0), 0, F(1)), ("START_INSIDE", "END_INSIDE")),
}


def at(s, v, u, along, off):
    return [a + along * x + off * y for a, x, y in zip(s, v, u)]


def crossing(case):
    """Where the leg enters and leaves, in lengths of the leg."""
    along, off, rad = case
    h = F(rad) ** 2 - F(off) ** 2
    h = Order.root(h) if h >= 0 else None
    return (along - h, along + h) if h is not None else None


def minus(a, b):
    return ("bin", "-", a, b)


def sum_sq(xs):
    return L.add(*(L.sq(x) for x in xs))


def root_of(t):
    return ("call", ("ext", "math.sqrt"), (t,), ())


def same_size(order, t, square):
    """t is the (positive) root of a square."""
    v = order.value(t)
    return v is not None and v >= 0 and Field(order).holds((L.sq(t), square))


def near(a, b):
    return a is not None and abs(a - b) < F(1, 10**6)


def place_errors(order, loc, s, f, c, rad, tau, tag):
    """loc is on the line and on the ellipsoid, at the crossing that this order of the quantities has."""
    d = [minus(a, b) for a, b in zip(loc, s)]
    e = [minus(a, b) for a, b in zip(f, s)]
    for i in range(1, len(loc)):
        if not equal(("bin", "*", d[0], e[i]), ("bin", "*", d[i], e[0])):
            return f"the {tag} is not on the leg"
    on = L.add(*(L.sq(("bin", "/", minus(x, y), r)) for x, y, r in zip(loc, c, rad)))
    if not equal(on, ("const", 1)):
        return f"the {tag} is not at the edge of the range"
    for x, a, b in zip(loc, s, f):
        want = order.value(a) + tau * (order.value(b) - order.value(a))
        if not near(order.value(x), want):
            return f"the {tag} is another crossing than that on the leg"
    return None


def cartesian(ctx, prog, run):
    f = prog.func("motion.cartesian_model:cartesian_linear_intersection")
    C = prog.cls("CartesianLocation")

    def check(name, case, kinds, flags, zero=False):
        c = f"cartesian_linear_intersection: {name}" + ("" if not any(flags) else " (" + ", ".join(n for n, g in zip(("start", "finish", "sensor"), flags) if g) + " in altitude units)")
        v, u = V3
        s0 = [F(1), F(2), F(3)]
        pts = {"s": s0, "f": s0 if zero else at(s0, v, u, 1, 0), "c": at(s0, v, u, case[0], case[1])}
        k = F(1, 2)
        vals = {"now": 0, "speed": 5, "r": case[2] * 70, K: k, K_BACK: 1 / k}
        for (p, xyz), g in zip(pts.items(), flags):
            for n, x in zip("xyz", xyz):
                vals[f"{p}.{n}"] = x / k if g and n == "z" else x
        order = Order(vals)
        tau = crossing(case)

        def scene(it, w):
            ps = [it.construct(C, [sym(f"{p}.{n}") for n in "xyz"], {"use_altitude_units": g}) for p, g in zip("sfc", flags)]
            return ps, it.call_func(f, [ps[0], ps[1], sym("speed"), ps[2], sym("r")], {})

        def xyz(p, g):
            z = ("sym", f"{p}.z")
            return [("sym", f"{p}.x"), ("sym", f"{p}.y"), ("bin", "*", z, K) if g else z]
        s, e, m = (xyz(p, g) for p, g in zip("sfc", flags))
        length = sum_sq([minus(a, b) for a, b in zip(e, s)])
        rs = run(scene, order)
        if len(rs) != 1:
            undecided(ctx, "C30.cartesian", c, f.loc, rs)
            return
        r = rs[0]
        if r.outcome != "return":
            ctx.bad("C30.cartesian", c, f"raises {r.value!r}", f.loc)
            return
        _, out = r.value
        if not isinstance(out, tuple) or len(out) != 4:
            ctx.bad("C30.cartesian", c, "does not give places, times, kinds and the time of the leg", f.loc)
            return
        locs, times, types, path_time = out
        bad = None
        if not (same_size(order, term(path_time), ("bin", "/", length, L.sq(("sym", "speed")))) if not zero else near(order.value(term(path_time)), 0)):
            bad = f"the time of the leg is {show(term(path_time))}"
        elif kinds is None:
            bad = None if not list(locs) and not list(times) else f"gives {len(locs)} places and {len(times)} times for a leg without crossings"
        elif list(types) != list(kinds):
            bad = f"tells {', '.join(map(str, types))}, not {', '.join(kinds)}"
        elif (len(locs), len(times)) != (2, 2):
            bad = f"gives {len(locs)} places and {len(times)} times"
        else:
            for i, (kind, l, t) in enumerate(zip(kinds, locs, times)):
                if not (isinstance(l, Obj) and l.cls is C):
                    bad = f"the {kind} is not at a location"
                    break
                p = [term(l.attrs.get(n)) for n in "xyz"]
                if l.attrs.get("use_altitude_units") is True:
                    p[2] = ("bin", "*", p[2], K)
                end = kind in ("START_INSIDE", "END_INSIDE")
                if end:
                    q = s if i == 0 else e
                    if not all(equal(x, y) for x, y in zip(p, q)):
                        bad = f"the {kind} is not at the {'start' if i == 0 else 'finish'}"
                else:
                    at_end = tau[i] in (0, 1)
                    if not (at_end and all(near(order.value(x), order.value(y)) for x, y in zip(p, s if tau[i] == 0 else e))):
                        bad = place_errors(order, p, s, e, m, [("sym", "r")] * 3, tau[i], kind)
                if bad:
                    break
                want = ("const", 0) if end and i == 0 else ("bin", "/", length, L.sq(("sym", "speed"))) if end else ("bin", "/", sum_sq([minus(a, b) for a, b in zip(p, s)]), L.sq(("sym", "speed")))
                if want == ("const", 0):
                    good = equal(term(t), want)
                elif zero:
                    good = near(order.value(term(t)), 0)
                else:
                    good = same_size(order, term(t), want)
                if not good:
                    bad = f"the time of the {kind} is {show(term(t))[:200]}"
                    break
        ctx.check(bad is None, "C30.cartesian", c, bad or "", f.loc)

    none = (False, False, False)
    for name, (case, kinds) in CASES.items():
        check(name, case, kinds, none)
    for flags in [(a, b, d) for a in (False, True) for b in (False, True) for d in (False, True)][1:]:
        for name in ("through the range", "into the range", "out of the range", "within the range", "a range to the side", "a range beyond the finish"):
            check(name, *CASES[name], flags)
    check("a leg without length within the range", (F(0), F(1, 8), F(1, 2)), ("START_INSIDE", "END_INSIDE"), none, zero=True)
    check("a leg without length out of the range", (F(0), F(1), F(1, 2)), None, none, zero=True)
    check("a leg without length in altitude units out of the range", (F(0), F(1), F(1, 2)), None, (True, True, False), zero=True)


def ray(ctx, prog, run):
    f = prog.func("motion.cartesian_model:ray_intersection")
    for dim in (2, 3):
        axes = "xyz"[:dim]
        v, u = (V2 if dim == 2 else V3)
        size = 50 if dim == 2 else 70
        for shape in ("one radius", "a radius for each axis", "one radius in a tuple"):
            for name, ((along, off, rad), _) in CASES.items():
                c = f"ray_intersection: {name}, {dim} dimensions, {shape}"
                scale = [F(1), F(2), F(1, 3)][:dim] if shape == "a radius for each axis" else [F(1)] * dim
                s0 = [F(1), F(2), F(3)][:dim]
                pts = {"s": s0, "f": at(s0, v, u, 1, 0), "c": at(s0, v, u, along, off)}
                vals = {"speed": 5}
                for p, xs in pts.items():
                    vals |= {f"{p}.{n}": x * k for n, x, k in zip(axes, xs, scale)}
                if shape == "a radius for each axis":
                    vals |= {f"r.{n}": rad * size * k for n, k in zip(axes, scale)}
                    radii = [("sym", f"r.{n}") for n in axes]
                    given = tuple(sym(f"r.{n}") for n in axes)
                else:
                    vals["r"] = rad * size
                    radii = [("sym", "r")] * dim
                    given = sym("r") if shape == "one radius" else (sym("r"),)
                order = Order(vals)
                tau = crossing((along, off, rad))
                want = [t for t in (tau or ()) if t >= 0]
                s, e, m = ([("sym", f"{p}.{n}") for n in axes] for p in "sfc")

                def scene(it, w):
                    return it.call_func(f, [*(tuple(T(x, "num") for x in p) for p in (s, e, m)), given, sym("speed")], {})
                rs = run(scene, order)
                if len(rs) != 1 or rs[0].outcome != "return":
                    undecided(ctx, "C30.ray", c, f.loc, rs)
                    continue
                out = rs[0].value
                bad = None
                if not (isinstance(out, (tuple, list)) and len(out) == 2 and len(out[0]) == len(out[1])):
                    bad = "does not give as many times as places"
                elif len(out[0]) != len(want):
                    bad = f"gives {len(out[0])} crossings, not {len(want)}"
                else:
                    for l, t, x in zip(out[0], out[1], want):
                        l = [term(y) for y in l]
                        bad = place_errors(order, l, s, e, m, radii, x, "crossing") if len(l) == dim else "a crossing has other dimensions than the start"
                        if bad is None and not (same_size(order, term(t), ("bin", "/", sum_sq([minus(a, b) for a, b in zip(l, s)]), L.sq(("sym", "speed"))))):
                            bad = f"the time of a crossing is {show(term(t))[:200]}"
                        if bad:
                            break
                ctx.check(bad is None, "C30.ray", c, bad or "", f.loc)
        for bad_one in (1, 2):
            def scene(it, w):
                args = [tuple(sym(f"{p}.{n}") for n in axes) for p in "sfc"]
                args[bad_one] = args[bad_one][:-1]
                return it.call_func(f, [*args, sym("r"), sym("speed")], {})
            rs = run(scene, Order({}))
            ctx.check(all(r.outcome == "raise" for r in rs), "C30.ray", f"ray_intersection: {dim} and {dim - 1} dimensions", "does not raise for points of other dimensions", f.loc)


# -- great circles --------------------------------------------------------------------------------
def unit_vector(lat, lon):
    return (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat))


def angle_between(a, b):
    cr = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return math.atan2(math.sqrt(sum(x * x for x in cr)), sum(x * y for x, y in zip(a, b)))


def along_circle(a, b, d):
    """The point at the angle d from a towards b."""
    w = angle_between(a, b)
    if math.sin(w) < 1e-12:
        return a
    e = [(y - x * math.cos(w)) / math.sin(w) for x, y in zip(a, b)]
    return tuple(x * math.cos(d) + y * math.sin(d) for x, y in zip(a, e))


def circle_points(rng, n):
    """Points A, B, D and a distance, of all kinds."""
    out = []
    for i in range(n):
        p = [(rng.uniform(-1.5, 1.5), rng.uniform(-3.1, 3.1)) for _ in range(3)]
        kind = i % 8
        if kind in (1, 2):            # near points
            p[1] = (max(-1.5, min(1.5, p[0][0] + rng.uniform(-.1, .1))), p[0][1] + rng.uniform(-.1, .1))
            p[2] = (max(-1.5, min(1.5, p[0][0] + rng.uniform(-.1, .1))), p[0][1] + rng.uniform(-.1, .1))
        elif kind == 3:               # due north or south
            p[1] = (rng.uniform(-1.5, 1.5), p[0][1])
        elif kind == 4:               # D on the way
            v = along_circle(unit_vector(*p[0]), unit_vector(*p[1]), rng.uniform(0, angle_between(unit_vector(*p[0]), unit_vector(*p[1]))))
            p[2] = (math.asin(max(-1, min(1, v[2]))), math.atan2(v[1], v[0]))
        elif kind == 6:               # no way, or at the start
            p[1 if i % 16 == 6 else 2] = p[0]
        elif kind == 5:               # over the date line
            p[0], p[1] = (p[0][0], rng.uniform(3, 3.14)), (p[1][0], rng.uniform(-3.14, -3))
        d = rng.choice([rng.uniform(.001, .1), rng.uniform(.1, 1), rng.uniform(.01, 3)])
        if kind == 2:
            d = rng.uniform(.001, .1)
        out.append((*p, d))
    return out


def circle(ctx, prog, run):
    G = prog.cls("GeodeticLocation")
    pool = circle_points(random.Random(3), 240)
    want = {}
    fs = {n: prog.func(f"motion.great_circle_calcs:{n}") for n in ("get_dist_rad", "get_course_rad", "get_pos_from_points_and_distance", "get_great_circle_points")}

    def paths(name, mk, flag):
        def th(it):
            def point(p):
                return it.construct(G, [sym(p + ".lat"), sym(p + ".lon"), 0], {"in_radians": flag})
            return it.call_func(fs[name], mk(point), {})
        rs = explore(prog, th, intercept=L.BASE, max_paths=1500)
        ctx.paths_n += len(rs)
        for r in rs:
            ctx.functions |= r.it.used
        return rs

    def witness(p, flag):
        v = {"dist": p[3]}
        for n, (la, lo) in zip("abd", p):
            v |= {f"{n}.lat": la if flag else math.degrees(la), f"{n}.lon": lo if flag else math.degrees(lo)}
        return Order(v)

    def taken(rs, o):
        """The path of a witness."""
        for r in rs:
            if all(o(k, None) is not None and o(k, None) == v or (k[0] == "truthy" and (o.value(k[1]) != 0) == v) or (k[0] == "isnone" and not v) for k, v in r.conds):
                return r
        return None

    def close(a, b, tol=1e-6):
        return a is not None and abs(float(a) - b) < tol

    def vec(o, pt):
        la, lo = (o.value(term(x)) for x in pt)
        return None if la is None or lo is None else unit_vector(float(la), float(lo))

    def judge(name, p, o, v):
        a, b, d = (unit_vector(*x) for x in p[:3])
        if name == "get_dist_rad":
            return None if close(o.value(term(v)), angle_between(a, b)) else "the distance is not that on the sphere"
        if name == "get_course_rad":
            x = o.value(term(v))
            if x is None:
                return "the course has no value"
            la, lb, dl = p[0][0], p[1][0], p[1][1] - p[0][1]
            brg = math.atan2(math.sin(dl) * math.cos(lb), math.cos(la) * math.sin(lb) - math.sin(la) * math.cos(lb) * math.cos(dl))
            return None if angle_between(a, b) == 0 or abs(math.cos(float(x)) - math.cos(brg)) < 1e-5 and abs(math.sin(float(x)) + math.sin(brg)) < 1e-3 else "the course is not that of the great circle"
        if name == "get_pos_from_points_and_distance":
            q = vec(o, v) if isinstance(v, tuple) and len(v) == 2 else None
            if q is None or angle_between(a, b) and angle_between(q, along_circle(a, b, p[3])) > 1e-5:
                return "the point is not at the distance on the way to the other point"
            return None if -math.pi - 1e-9 <= float(o.value(term(v[1]))) <= math.pi + 1e-9 else "the longitude is not between -180 and 180 degrees"
        whole = angle_between(a, b)
        # the points of the circle at the distance from D
        n = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
        size = math.sqrt(sum(x * x for x in n))
        if size < 1e-9:
            return None if v is None or all(o.value(term(x)) is not None for pt in v[0] for x in pt) else "a point has no value"
        e = along_circle(a, b, math.pi / 2)
        x, y = sum(s * t for s, t in zip(a, d)), sum(s * t for s, t in zip(e, d))
        r, mid = math.hypot(x, y), math.atan2(y, x)
        if abs(abs(math.cos(p[3])) - r) < 1e-6:
            return None
        if abs(math.cos(p[3])) > r:
            return None if v is None else "gives points where there is none"
        half = math.acos(math.cos(p[3]) / r)
        d1, d2 = mid - half, mid + half
        if min(abs(d1 - whole), abs(d2)) < 1e-6:
            return None
        if d1 > whole or d2 < 0:
            return None if v is None else "gives points that are not on the way"
        if v is None:
            return "gives no points where there are two"
        if not (isinstance(v, tuple) and len(v) == 2 and len(v[0]) == len(v[1]) == 2):
            return "does not give two points and their distances"
        for pt, x, ref in zip(v[0], v[1], (d1, d2)):
            q = vec(o, pt)
            if not close(o.value(term(x)), ref, 1e-4):
                return "the distances are not those of the crossings, the first before the second"
            if q is None or abs(angle_between(q, d) - p[3]) > 1e-4 or angle_between(q, along_circle(a, b, ref)) > 1e-4:
                return "a point is not on the circle at the distance from the third"
        return None

    made = {"get_dist_rad": lambda pt: [pt("a"), pt("b")], "get_course_rad": lambda pt: [pt("a"), pt("b")],
            "get_pos_from_points_and_distance": lambda pt: [pt("a"), pt("b"), sym("dist")],
            "get_great_circle_points": lambda pt: [pt("a"), pt("b"), pt("d"), sym("dist")]}
    for name, mk in made.items():
        for flag in (True, False):
            c = f"{name}({'radians' if flag else 'degrees'})"
            rs = paths(name, mk, flag)
            errors, seen, lost = {}, set(), 0
            for p in pool:
                o = witness(p, flag)
                r = taken(rs, o)
                if r is None:
                    lost += 1
                    continue
                seen.add(id(r))
                if r.outcome != "return":
                    errors.setdefault(f"raises {r.value!r}", p)
                    continue
                bad = judge(name, p, o, r.value)
                if bad:
                    errors.setdefault(bad, p)
            for bad, p in errors.items():
                ctx.bad("C30.circle", c, bad + " for " + ", ".join(f"{x:.3f} {y:.3f}" for x, y in p[:3]) + f", {p[3]:.3f}", fs[name].loc)
            ctx.check(lost == 0, "C30.circle", f"{c}: all places", f"{lost} of {len(pool)} places lead to no result", fs[name].loc)
            if not errors:
                ctx.ok("C30.circle", c)


# name: (distance of the start, of the finish from the sensor, crossings, heights of the ends) in radians and height units
LEGS = {
    "through the range": (F(9, 100), F(8, 100), (F(1, 100), F(3, 100)), (2, 4), ("ENTER", "EXIT")),
    "into the range": (F(9, 100), F(1, 100), (F(2, 100), F(9, 100)), (3, 1), ("ENTER", "END_INSIDE")),
    "out of the range": (F(1, 100), F(9, 100), (F(-1, 100), F(2, 100)), (1, 5), ("START_INSIDE", "EXIT")),
    "within the range": (F(1, 100), F(2, 100), (F(-3, 100), F(8, 100)), (1, 2), ("START_INSIDE", "END_INSIDE")),
    "level through the range": (F(9, 100), F(8, 100), (F(1, 100), F(3, 100)), (2, 2), ("ENTER", "EXIT")),
    "below zero through the range": (F(9, 100), F(8, 100), (F(1, 100), F(3, 100)), (-2, -4), ("ENTER", "EXIT")),
    "a range to the side": (F(9, 100), F(8, 100), None, (2, 4), None),
    "above the range": (F(1, 100), F(2, 100), (F(-3, 100), F(8, 100)), (10**6, 10**6), None),
    "below the range": (F(1, 100), F(2, 100), (F(-3, 100), F(8, 100)), (-10**6, -10**6), None),
    "no length, within the range": (F(1, 100), F(1, 100), None, (1, 2), ("START_INSIDE", "END_INSIDE")),
    "no length, out of the range": (F(9, 100), F(9, 100), None, (1, 2), None),
}


def analytic(ctx, prog, run):
    f = prog.func("motion.geodetic_model:analytical_intersection")
    G = prog.cls("GeodeticLocation")
    dist_q = prog.func("motion.great_circle_calcs:get_dist_rad").qual
    cross_q = prog.func("motion.great_circle_calcs:get_great_circle_points").qual
    km, ka, kback = (("sym", f"{show(a)}->{show(b)}") for a, b in ((L.METRE, L.DIST), (L.ALT, L.DIST), (L.DIST, L.METRE)))
    speed, R = ("sym", "speed"), ("sym", "r")

    def bin_(op, a, b):
        return ("bin", op, a, b)

    for name, (ds, df, cross, alts, kinds) in LEGS.items():
        for flags in ((False, False, False), (True, False, True), (True, True, True)):
            c = f"analytical_intersection: {name}" + (" (radians)" if all(flags) else " (some in radians)" if any(flags) else "")
            still = name.startswith("no length")
            vals = {"speed": 5, "r": 300, km: F(1, 1000), kback: 1000, ka: F(1, 3), "D.sf": 0 if still else F(5, 100), "D.cs": ds, "D.cf": df,
                    "s.alt": alts[0], "f.alt": alts[1], "p1.lat": F(1, 3), "p1.lon": F(1, 4), "p2.lat": F(1, 5), "p2.lon": F(1, 6)}
            if cross:
                vals |= {"d1": cross[0], "d2": cross[1]}
            for p in "sfc":
                vals |= {f"{p}.lat": F(1, 2), f"{p}.lon": F(1, 3)}
            vals["c.alt"] = F(0)
            order = Order(vals)
            seen = []

            def which(it, o):
                """The end or the sensor that a location is, in whichever angle unit."""
                if not (isinstance(o, Obj) and isinstance(o.cls, Class)):
                    return None
                rad = o.attrs.get("in_radians")
                for p, g in zip("sfc", flags):
                    t = ("sym", p + ".lat")
                    if rad is True and not g:
                        t = ("call", ("ext", "math.radians"), (t,), ())
                    if rad is False and g:
                        t = ("call", ("ext", "math.degrees"), (t,), ())
                    if term(o.attrs.get("lat")) == t:
                        return p
                return None

            def h_dist(it, a, k):
                a = [*a, *k.values()]
                n = "".join(sorted(which(it, x) or "?" for x in a))
                n = {"fs": "sf"}.get(n, n)
                if n in ("ss", "ff", "cc"):
                    return 0
                return sym("D." + n)

            def h_cross(it, a, k):
                names = [x.arg for x in prog.func("motion.great_circle_calcs:get_great_circle_points").node.args.args]
                d = dict(zip(names, a)) | k
                a = [d[n] for n in names]
                seen.append((tuple(which(it, x) for x in a[:3]), a[3]))
                if cross is None:
                    return None
                return [(sym("p1.lat"), sym("p1.lon")), (sym("p2.lat"), sym("p2.lon"))], [sym("d1"), sym("d2")]

            def scene(it, w):
                seen.clear()
                ps = [it.construct(G, [sym(f"{p}.{n}") for n in ("lat", "lon", "alt")], {"in_radians": g}) for p, g in zip("sfc", flags)]
                return it.getattr(prog.cls("Spherical"), "EARTH_RADIUS"), ps, it.call_func(f, [ps[0], ps[1], sym("speed"), ps[2], sym("r")], {})
            rs = run(scene, order, {dist_q: h_dist, cross_q: h_cross})
            if len(rs) != 1 or rs[0].outcome != "return":
                undecided(ctx, "C30.analytic", c, f.loc, rs)
                continue
            earth, ps, out = rs[0].value
            if not isinstance(out, tuple) or len(out) != 4:
                ctx.bad("C30.analytic", c, "does not give places, times, kinds and the time of the leg", f.loc)
                continue
            E = bin_("*", term(earth), km)
            D = ("sym", "D.sf")
            s_alt, f_alt = ("sym", "s.alt"), ("sym", "f.alt")
            locs, times, types, path_time = out
            bad = None
            # the range at the height of the leg
            h = bin_("*", bin_("/", bin_("+", s_alt, f_alt), ("const", 2)), ka)
            rad_sq = bin_("/", minus(L.sq(R), L.sq(h)), L.sq(E))
            for who, rad in seen:
                if who != ("s", "f", "c"):
                    bad = "the crossings are not those of the leg from the start to the finish with the range of the sensor"
                elif not same_size(order, term(rad), rad_sq):
                    bad = f"the range at the height of the leg is {show(term(rad))[:200]}"
            if not equal(term(path_time), bin_("/", bin_("*", D, E), speed)):
                bad = bad or f"the time of the leg is {show(term(path_time))[:200]}"
            if bad is None and kinds is None:
                bad = None if not list(locs) and not list(times) else f"gives {len(locs)} places and {len(times)} times for a leg without crossings"
            elif bad is None:
                if not seen and not still:
                    bad = "the crossings are not asked for"
                elif list(types) != list(kinds):
                    bad = f"tells {', '.join(map(str, types))}, not {', '.join(kinds)}"
                elif (len(locs), len(times)) != (2, 2):
                    bad = f"gives {len(locs)} places and {len(times)} times"
            if bad is None and kinds is not None:
                for i, (kind, l, t) in enumerate(zip(kinds, locs, times)):
                    if not (isinstance(l, Obj) and l.cls is G):
                        bad = f"the {kind} is not at a location"
                        break
                    if kind in ("START_INSIDE", "END_INSIDE"):
                        p = "sf"[i]
                        if which(None, l) != p or not equal(term(l.attrs["alt"]), ("sym", p + ".alt")):
                            bad = f"the {kind} is not at the {'start' if i == 0 else 'finish'}"
                        want = ("const", 0) if i == 0 else bin_("/", bin_("*", D, E), speed)
                    else:
                        d = ("sym", f"d{i + 1}")
                        la, lo = (term(l.attrs.get(n)) for n in ("lat", "lon"))
                        if l.attrs.get("in_radians") is False:
                            ok = (la, lo) == tuple(("call", ("ext", "math.degrees"), (("sym", f"p{i + 1}.{n}"),), ()) for n in ("lat", "lon"))
                        else:
                            ok = (la, lo) == tuple(("sym", f"p{i + 1}.{n}") for n in ("lat", "lon"))
                        alt = bin_("+", s_alt, bin_("/", bin_("*", d, minus(f_alt, s_alt)), D))
                        if not ok:
                            bad = f"the {kind} is not at crossing {i + 1}"
                        elif not equal(term(l.attrs["alt"]), alt):
                            bad = f"the height of the {kind} is {show(term(l.attrs['alt']))[:200]}, not in proportion to the distance"
                        mean = bin_("*", bin_("/", bin_("+", s_alt, alt), ("const", 2)), ka)
                        want = bin_("/", bin_("*", d, bin_("+", E, mean)), speed)
                    if bad is None and not equal(term(t), want):
                        bad = f"the time of the {kind} is {show(term(t))[:300]}"
                    if bad:
                        break
            ctx.check(bad is None, "C30.analytic", c, bad or "", f.loc)


# -- sampled legs ---------------------------------------------------------------------------------
def fraction_of(t, out):
    """The places along the leg that a term is about."""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] in ("along", "ecef"):
            out.add(t[1])
        else:
            for x in t:
                fraction_of(x, out)
    return out


class Sampled(Order):
    """The distance from the sensor along a leg: within the range from one fraction of the leg to another."""

    def __init__(self, inside, radius):
        a, b = inside
        self.mid, self.half, self.radius = (a + b) / 2, (b - a) / 2, radius
        super().__init__({"r": radius / 7, ("sym", "'U'->'m'"): 7, ("sym", "U->'m'"): 7, ("sym", "U->m"): 7, ("ecef", "c", "x"): 0, ("ecef", "c", "y"): 0, ("ecef", "c", "z"): 0})

    def _value(self, t):
        if t[0] == "ecef" and isinstance(t[1], Fraction):
            return (t[1] - self.mid) / self.half * self.radius if t[2] == "x" else F(0)
        return super()._value(t)


def numeric(ctx, prog, run):
    f = prog.func("geography.intersections:get_intersection_locations")
    U = ("sym", "U")

    def along(fr):
        return tuple(T(("along", fr, n), "num") for n in ("lat", "lon", "alt"))

    def frac(p, names):
        p = tuple(term(x) for x in p)
        fr = {x[1] for x in p if x[0] == "along"}
        return fr.pop() if len(fr) == 1 and all(x[0] == "along" for x in p) and tuple(x[2] for x in p) == names else None

    ROUGH = F(9260)
    for name, inside in {
        "through the range": (F(31, 100), F(77, 100)), "through a short range": (F(31, 100), F(59, 100)), "into the range": (F(61, 100), F(3)), "into the range at the end": (F(97, 100), F(3)),
        "out of the range": (F(-3), F(37, 100)), "out of the range at the start": (F(-3), F(1, 100)), "within the range": (F(-3), F(4)), "before the range": (F(2), F(3)), "past the range": (F(-3), F(-2)),
        "from the edge through the range": (F(0), F(37, 100)), "into the range to its edge": (F(61, 100), F(1)),
    }.items():
        for length in (F(46300), F(120000), F(15000)):
            for opts in ({}, {"subdivide_levels": [10, 20]}, {"dist_between": 9260, "subdivide_levels": [20, 10]}):
                c = f"get_intersection_locations: {name}, {int(length / 1000)} km" + (", " + ", ".join(f"{k} {v}" for k, v in opts.items()) if opts else "")
                order = Sampled(inside, F(5000))
                wrong = []

                def h_distance(it, a, k):
                    d = dict(zip(("loc1", "loc2", "units"), a)) | k
                    x, y = (frac(it.items(d[n]), ("lat", "lon")) for n in ("loc1", "loc2"))
                    if x is None or y is None:
                        wrong.append("the distance is not asked for two places in latitude and longitude")
                        return length
                    if term(d.get("units", "nmi")) != ("const", "m"):
                        wrong.append("the distance is not asked for in metres")
                    return abs(y - x) * length

                def h_ecef(it, a, k):
                    pts = list(it.items(a[0] if a else next(iter(k.values()))))
                    out = []
                    for p in pts:
                        p = tuple(it.items(p))
                        if [term(x) for x in p] == [("sym", f"c.{n}") for n in ("lat", "lon", "alt")]:
                            out.append(tuple(T(("ecef", "c", n), "num") for n in "xyz"))
                        else:
                            fr = frac(p, ("lat", "lon", "alt"))
                            out.append(tuple(T(("ecef", fr, n), "num") for n in "xyz"))
                    return out

                def h_line(it, a, k):
                    fn = prog.method(prog.cls("Spherical"), "ecef_and_geo_linspace")
                    names = [x.arg for x in fn.node.args.args if x.arg not in ("cls", "self")]
                    d = dict(zip(names, a)) | k
                    v = [d[n] for n in names]
                    x, y = frac((*it.items(v[0]), v[2]), ("lat", "lon", "alt")), frac((*it.items(v[1]), v[3]), ("lat", "lon", "alt"))
                    n = v[4]
                    if x is None or y is None or not num(n) or n < 1:
                        wrong.append("the leg is not sampled from its start to its finish, each with its height")
                        x, y, n = F(0), F(1), 3
                    if n > 400:
                        wrong.append("the leg is sampled without end")
                        n = 3
                    fr = [x + (y - x) * i / int(n) for i in range(int(n) + 1)]
                    return [tuple(T(("ecef", q, m), "num") for m in "xyz") for q in fr], [along(q) for q in fr]

                def scene(it, w):
                    wrong.clear()
                    earth = Obj("Earth", {"distance": h_distance, "lla2ecef": h_ecef, "ecef_and_geo_linspace": h_line}, "earth")
                    centre = tuple(sym(f"c.{n}") for n in ("lat", "lon", "alt"))
                    return it.call_func(f, [along(F(0)), along(F(1)), centre, sym("r"), T(U, "str"), earth], dict(opts))
                rs = run(scene, order)
                if len(rs) != 1 or rs[0].outcome != "return":
                    undecided(ctx, "C30.numeric", c, f.loc, rs)
                    continue
                e, x = inside
                want = []
                step = min(ROUGH, length / 2) / length / 50
                if e <= 0 <= x:
                    want.append(("START_INSIDE", F(0), F(0)))
                elif 0 < e <= 1:
                    want.append(("ENTER", e, e + step))
                if want and x < 1:
                    want.append(("EXIT", x - step, x))
                elif want:
                    want.append(("END_INSIDE", F(1), F(1)))
                got = []
                for o in rs[0].value:
                    b = o.attrs.get("begin") if isinstance(o, Obj) else None
                    got.append((o.attrs.get("kind"), frac(b, ("lat", "lon", "alt")) if isinstance(b, (tuple, list)) else None))
                bad = wrong[0] if wrong else None
                if bad is None and [k for k, _ in got] != [k for k, _, _ in want]:
                    bad = f"finds {', '.join(str(k) for k, _ in got) or 'nothing'}, not {', '.join(k for k, _, _ in want) or 'nothing'}"
                for (k, v), (_, lo, hi) in zip(got, want):
                    if bad is None and (v is None or not lo <= v <= hi):
                        bad = f"the {k} is at {float(v) if v is not None else 'an unknown place'}, not within {float(lo):.4f} to {float(hi):.4f} of the leg"
                ctx.check(bad is None, "C30.numeric", c, bad or "", f.loc)
    sampled_times(ctx, prog, run)


def sampled_times(ctx, prog, run):
    f = prog.func("motion.geodetic_model:subdivide_intersection")
    G, CC = prog.cls("GeodeticLocation"), prog.cls("CrossingCondition")
    deg = lambda t: ("call", ("ext", "math.degrees"), (t,), ())
    for kinds in ((), ("ENTER", "EXIT"), ("START_INSIDE", "EXIT"), ("ENTER", "END_INSIDE"), ("START_INSIDE", "END_INSIDE"), ("ENTER", "EXIT", "ENTER", "END_INSIDE")):
        for flags in ((False, False, False), (True, False, True), (False, True, True)):
            c = f"subdivide_intersection: {', '.join(kinds) or 'no crossing'}" + (" (some in radians)" if any(flags) else "")
            seen, box = [], {}

            def h_model(it, a, k):
                seen.append((list(a), dict(k)))
                return [it.construct(CC, [k_], {"begin": tuple(sym(f"at{i}.{n}") for n in ("lat", "lon", "alt"))}) for i, k_ in enumerate(kinds)]

            def scene(it, w):
                seen.clear()
                stage = Obj("Stage", {"altitude_units": T(L.ALT, "str"), "distance_units": T(L.DIST, "str"), "intersection_model": h_model,
                                      "stage_model": T(("attr", ("sym", "stage"), "stage_model"))}, "stage")
                box["stage"] = stage
                ps = [it.construct(G, [sym(f"{p}.{n}") for n in ("lat", "lon", "alt")], {"in_radians": g}) for p, g in zip("sfc", flags)]
                out = it.call_func(f, [ps[0], ps[1], sym("speed"), ps[2], sym("r")], {})
                back = ("sym", f"{show(L.METRE)}->{show(L.ALT)}")
                locs = [it.construct(G, [sym(f"at{i}.lat"), sym(f"at{i}.lon"), T(("bin", "*", ("sym", f"at{i}.alt"), back), "num")], {}) for i in range(len(kinds))]
                dists = [it.bin(ast.Sub(), l, ps[0]) for l in locs]
                return out, locs, dists, it.bin(ast.Sub(), ps[1], ps[0])
            rs = run(scene, Order({"speed": 5}), {("attr", "stage"): lambda it, o: box["stage"]})
            if len(rs) != 1 or rs[0].outcome != "return":
                undecided(ctx, "C30.numeric", c, f.loc, rs)
                continue
            out, locs, dists, whole = rs[0].value
            bad = None
            if not isinstance(out, tuple) or len(out) != 4:
                ctx.bad("C30.numeric", c, "does not give places, times, kinds and the time of the leg", f.loc)
                continue
            got, times, types, path_time = out
            km = ("sym", f"{show(L.ALT)}->{show(L.METRE)}")
            if len(seen) != 1:
                bad = f"asks for the crossings {len(seen)} times"
            else:
                a, k = seen[0]
                a = [*a, *k.values()]
                for i, (p, g) in enumerate(zip("sfc", flags)):
                    t = [term(x) for x in a[i]] if isinstance(a[i], (tuple, list)) else []
                    w = [deg(("sym", f"{p}.{n}")) if g else ("sym", f"{p}.{n}") for n in ("lat", "lon")]
                    if t[:2] != w or len(t) != 3 or not equal(t[2], ("bin", "*", ("sym", f"{p}.alt"), km)):
                        bad = f"the crossings are not asked for with the {('start', 'finish', 'sensor')[i]} in degrees and metres"
                if bad is None and (term(a[3]) != ("sym", "r") or term(a[4]) != L.DIST or term(a[5]) != ("attr", ("sym", "stage"), "stage_model")):
                    bad = "the crossings are not asked for with the range in the stage's distance units and the stage's model"
            if bad is None and not equal(term(path_time), ("bin", "/", term(whole), ("sym", "speed"))):
                bad = f"the time of the leg is {show(term(path_time))[:200]}"
            if bad is None and kinds and list(types) != list(kinds):
                bad = f"tells {', '.join(map(str, types))}, not {', '.join(kinds)}"
            if bad is None and (len(got), len(times)) != (len(kinds), len(kinds)):
                bad = f"gives {len(got)} places and {len(times)} times for {len(kinds)} crossings"
            if bad is None:
                for kind, l, w, t, d in zip(kinds, got, locs, times, dists):
                    if not isinstance(l, Obj) or l.cls is not G or l.attrs.get("in_radians") is not False or any(not equal(term(l.attrs[n]), term(w.attrs[n])) for n in ("lat", "lon", "alt")):
                        bad = f"the {kind} is not at the place found, its height in the stage's units"
                    elif not equal(term(t), ("bin", "/", term(d), ("sym", "speed"))):
                        bad = f"the time of the {kind} is {show(term(t))[:200]}"
            ctx.check(bad is None, "C30.numeric", c, bad or "", f.loc)


def undecided(ctx, rule, c, loc, rs):
    raised = [r for r in rs if r.outcome == "raise"]
    if raised:
        ctx.bad(rule, c, f"raises {raised[0].value!r} {getattr(raised[0].value, 'attrs', {})}", loc)
        return
    keys = {show(k)[:200] for r in rs for k, _ in r.conds}
    ctx.bad(rule, c, f"depends on {'; '.join(sorted(keys))}", loc)

# -- notices of the motion managers ---------------------------------------------------------------
class Book:
    """An intersection model that gives, for each motion, what it is told for each sensor and leg."""

    def __init__(self):
        self.plans, self.asked = [], []

    def motion(self, name, **legs):
        """A motion, with the kinds of its legs for each sensor."""
        n = len(next(iter(legs.values())))
        m = Obj("Motion", {}, name)
        m.legs, m.n = legs, n
        m.points = [T(("sym", f"{name}.point{i}")) for i in range(n + 1)]
        self.plans.append(m)
        return m

    def __call__(self, it, a, k):
        a = [*a, *k.values()]
        for m in self.plans:
            for i in range(m.n):
                if a[0] is m.points[i]:
                    s = term(a[3])[1].split(".")[0]
                    self.asked.append((m, s))
                    kind = m.legs.get(s, ("none",) * m.n)[i]
                    pt = sym(f"{m.label}.path{i}")
                    if kind == "none":
                        return ([], [], [], pt)
                    first, second = kind.split("-")
                    t1 = 0 if first == "S" else sym(f"{m.label}.{s}.in{i}")
                    t2 = pt if second == "E" else sym(f"{m.label}.{s}.out{i}")
                    return ([None, None], [t1, t2], [FULL[first], "END_INSIDE" if second == "E" else "EXIT"], pt)
        raise AnalysisBroken("the intersection model is asked about another place than those of the motion")


def windows(m, s):
    """When a motion is within the range of a sensor: (entering or starting inside, from, until, leaves)."""
    out, elapsed = [], []
    for i, kind in enumerate(m.legs.get(s, ())):
        pt = sym(f"{m.label}.path{i}")
        if kind != "none":
            first, second = kind.split("-")
            end = [*elapsed, pt] if second == "E" else [*elapsed, sym(f"{m.label}.{s}.out{i}")]
            if first == "S" and out and out[-1][3] is False and i:
                out[-1] = (*out[-1][:2], end, second == "X")
            else:
                out.append((first, elapsed if first == "S" else [*elapsed, sym(f"{m.label}.{s}.in{i}")], end, second == "X"))
        elapsed = [*elapsed, pt]
    return out


class Notices:
    """What the sensors should be told: the reference for a script of starts, stops and changes of visibility."""

    def __init__(self, order, now):
        self.order, self.now, self.queue, self.seq, self.log = order, now, [], 0, []
        self.sensors, self.motion, self.seen, self.hidden, self.on = [], {}, {}, set(), {}

    def put(self, t, f, late=1):
        self.seq += 1
        bisect.insort(self.queue, (self.order.value(term(t)), late, self.seq, t, f))

    def run(self):
        while self.queue:
            _, _, _, self.now, f = self.queue.pop(0)
            f()
        return self.log

    def tell(self, kind, s, m):
        self.log.append((kind, s, m, self.now))
        act = self.on.get((kind, s))
        if act:
            act(m)

    def plan(self, s, m):
        mo, start = self.motion[m]
        if s is m:
            return
        v = self.order.value
        for first, a, b, leaves in windows(mo, s.label):
            ta, tb = total(start, *a), total(start, *b)
            if v(term(ta)) <= v(term(self.now)) and v(term(tb)) < v(term(self.now)):
                continue
            mine = self.motion[m]
            here = v(term(ta)) <= v(term(self.now))

            def leave(mine=mine):
                if self.motion.get(m) is mine:
                    self.seen[m].remove(s)
                    self.tell("exit", s, m)

            def come(mine=mine, here=here, tb=tb, leaves=leaves, leave=leave):
                if self.motion.get(m) is not mine:
                    return
                was = s in self.seen.setdefault(m, [])
                if not was:
                    self.seen[m].append(s)
                if not (was and here):
                    self.tell("enter", s, m)
                if leaves and self.motion.get(m) is mine:
                    self.put(tb, leave)
            self.put(self.now if here else ta, come, 0 if here else 1)

    # the script
    def start(self, m, mo):
        if m in self.hidden:
            return
        self.motion[m] = (mo, self.now)
        for s in self.sensors:
            self.plan(s, m)

    def stop(self, m):
        self.motion.pop(m, None)

    def hide(self, m):
        self.hidden.add(m)
        self.motion.pop(m, None)
        for s in self.seen.pop(m, []):
            self.tell("exit", s, m)

    def show(self, m):
        self.hidden.discard(m)

    def add(self, s):
        self.sensors.append(s)
        for m in list(self.motion):
            self.plan(s, m)


class Driver:
    """The same script for a motion manager."""

    def __init__(self, it, w, mgr):
        self.it, self.w, self.mgr = it, w, mgr

    def do(self, name, *a, **k):
        return self.it.call(self.it.getattr(self.mgr, name), list(a), k)

    def start(self, m, mo):
        m.attrs["_active_states"]["place"] = {}
        self.do("_start_mover", m, sym("speed"), mo.points)

    def stop(self, m):
        m.attrs["_active_states"].clear()
        self.do("_stop_mover", m)

    def hide(self, m):
        m.attrs["seen"] = False
        self.do("_mover_not_detectable", m)

    def show(self, m):
        m.attrs["seen"] = True
        self.do("_mover_became_detectable", m)

    def add(self, s):
        self.do("add_sensor", s, "place", "reach")


def ordered(order, log):
    """By time; a sensor's notices of a mover at one time stay in order."""
    return sorted(log, key=lambda n: (order.value(term(n[3])), n[1].label, n[2].label))


class Scene:
    """A script: `at` a time (a number of the order, one name for each) something is done."""

    def __init__(self, name, legs, values, steps, sensors=("s",), movers=("m",), late=(), on=None, selfs=(), plain=(), quiet=None, hidden=()):
        self.name, self.legs, self.values, self.steps = name, legs, values, steps
        self.sensors, self.movers, self.late, self.on, self.selfs, self.plain, self.hidden = sensors, movers, late, on or {}, selfs, plain, hidden


ONE = {"m1.path0": 20, "m1.s.in0": 4, "m1.s.out0": 12}
TWO = {"m1.path0": 20, "m1.path1": 20, "m1.s.in0": 4, "m1.s.out0": 12, "m1.s.in1": 5, "m1.s.out1": 13}
BACK = {"m2.path0": 30, "m2.s.in0": 6, "m2.s.out0": 15}


def scenes():
    out = []
    kinds = {"no crossing": ("none",), "a way through": ("E-X",), "a way in": ("E-E",), "a way out": ("S-X",), "a way within": ("S-E",)}
    # what a mover does, undisturbed, and is hidden afterwards
    for n, k in kinds.items():
        out.append(Scene(f"{n}, stopped, then hidden twice", {"m1": {"s": k}}, ONE, [(0, "start", "m", "m1"), (20, "stop", "m"), (30, "hide", "m"), (31, "hide", "m")]))
        for when in (2, 8, 16):
            out.append(Scene(f"{n}, stopped {when} after the start, hidden later", {"m1": {"s": k}}, ONE, [(0, "start", "m", "m1"), (when, "stop", "m"), (40, "hide", "m")]))
            out.append(Scene(f"{n}, hidden {when} after the start, then stopped", {"m1": {"s": k}}, ONE, [(0, "start", "m", "m1"), (when, "hide", "m"), (18, "stop", "m")]))
        for act in ("hide", "stop"):
            out.append(Scene(f"{n}, {'hidden' if act == 'hide' else 'stopped'} in the instant it starts", {"m1": {"s": k}}, ONE, [(0, ("start", "m", "m1"), (act, "m")), (40, "hide", "m")]))
            out.append(Scene(f"{n}, {'hidden' if act == 'hide' else 'stopped'} as the first event after it starts", {"m1": {"s": k}}, ONE, [(0, ("start", "m", "m1")), (0, (act, "m")), (40, "hide", "m")]))
        out.append(Scene(f"{n}, hidden and shown again in the instant it starts", {"m1": {"s": k}}, ONE, [(0, ("start", "m", "m1"), ("hide", "m"), ("show", "m")), (18, "stop", "m")]))
        for when in (2, 8, 16, 25):
            out.append(Scene(f"{n}, the sensor added {when} after the start", {"m1": {"s": k}}, ONE, [(0, "start", "m", "m1"), (when, "add", "s"), (30, "stop", "m"), (31, "hide", "m")], late=("s",)))
        out.append(Scene(f"{n}, the sensor added later and the mover stopped at once", {"m1": {"s": k}}, ONE, [(0, "start", "m", "m1"), (8, ("add", "s"), ("stop", "m"))], late=("s",)))
        out.append(Scene(f"{n}, hidden and shown again on the way", {"m1": {"s": k}}, ONE, [(0, "start", "m", "m1"), (8, "hide", "m"), (10, "show", "m"), (18, "stop", "m")]))
        out.append(Scene(f"{n}, hidden at the start and shown on the way", {"m1": {"s": k}}, ONE, [(0, "start", "m", "m1"), (8, "show", "m"), (18, "stop", "m")], hidden=("m",)))
        out.append(Scene(f"{n}, hidden at the start, then stopped, shown and started again", {"m1": {"s": k}, "m2": {"s": k}}, {**ONE, **BACK},
                         [(0, "start", "m", "m1"), (18, "stop", "m"), (19, "show", "m"), (20, "start", "m", "m2"), (51, "stop", "m")], hidden=("m",)))
        out.append(Scene(f"{n}, hidden on the way, shown and started again", {"m1": {"s": k}, "m2": {"s": k}}, {**ONE, **BACK},
                         [(0, "start", "m", "m1"), (8, "hide", "m"), (18, "stop", "m"), (19, "show", "m"), (20, "start", "m", "m2"), (51, "stop", "m")]))
        out.append(Scene(f"{n}, the mover is the sensor", {"m1": {"m": k, "s": k}}, ONE | {"m1.m.in0": 3, "m1.m.out0": 9}, [(0, "start", "m", "m1"), (20, "stop", "m"), (30, "hide", "m")], sensors=("m", "s"), selfs=("m",)))
        out.append(Scene(f"{n}, without a detectability state", {"m1": {"s": k}}, ONE, [(0, "start", "m", "m1"), (8, "stop", "m")], plain=("m",)))
        for kind in ("enter", "exit"):
            for act in ("hide", "stop", "show"):
                if act == "show":
                    out.append(Scene(f"{n}, hidden within the range and shown by the sensor when told", {"m1": {"s": k}}, ONE, [(0, "start", "m", "m1"), (8, "hide", "m"), (18, "stop", "m")], on={("exit", "s"): "show"}))
                    continue
                out.append(Scene(f"{n}, the sensor {act}s the mover when told of its {'entry' if kind == 'enter' else 'exit'}", {"m1": {"s": k}}, ONE,
                                 [(0, "start", "m", "m1"), (30, "hide", "m")], on={(kind, "s"): act}))
                out.append(Scene(f"{n}, the first of two sensors {act}s the mover when told of its {'entry' if kind == 'enter' else 'exit'}", {"m1": {"s": k, "t": k}}, ONE | {"m1.t.in0": 5, "m1.t.out0": 14},
                                 [(0, "start", "m", "m1"), (30, "hide", "m")], sensors=("s", "t"), on={(kind, "s"): act}))
    for n, k in kinds.items():
        out.append(Scene(f"{n}, hidden at the start, the sensor added later, then shown", {"m1": {"s": k}}, ONE, [(0, "start", "m", "m1"), (2, "add", "s"), (9, "show", "m"), (18, "stop", "m")], late=("s",), hidden=("m",)))
        out.append(Scene(f"{n}, another sensor added on the way", {"m1": {"s": k, "t": k}}, ONE | {"m1.t.in0": 5, "m1.t.out0": 14}, [(0, "start", "m", "m1"), (9, "add", "t"), (18, "stop", "m"), (19, "hide", "m")], late=("t",)))
        out.append(Scene(f"{n}, another mover started on the way", {"m1": {"s": k}, "m2": {"s": k}}, ONE | {**BACK, "m2.path0": 19}, [(0, "start", "m", "m1"), (8, "start", "n", "m2"), (22, "stop", "m"), (23, "hide", "m"), (36, "stop", "n"), (37, "hide", "n")], movers=("m", "n")))
        for k2 in kinds.values():
            out.append(Scene(f"{n}, stopped and started again ({k2[0]}) in the instant it starts", {"m1": {"s": k}, "m2": {"s": k2}}, {**ONE, **BACK}, [(0, ("start", "m", "m1"), ("stop", "m"), ("start", "m", "m2")), (40, "stop", "m"), (41, "hide", "m")]))
    # starting again within the range
    for k2 in ("S-X", "S-E"):
        out.append(Scene(f"stopped within the range and started again: {k2}", {"m1": {"s": ("E-E",)}, "m2": {"s": (k2,)}}, {**ONE, **BACK},
                         [(0, "start", "m", "m1"), (20, "stop", "m"), (25, "start", "m", "m2"), (60, "stop", "m"), (61, "hide", "m")]))
        out.append(Scene(f"stopped on the way through and started again: {k2}", {"m1": {"s": ("E-X",)}, "m2": {"s": (k2,)}}, {**ONE, **BACK},
                         [(0, "start", "m", "m1"), (8, "stop", "m"), (9, "start", "m", "m2"), (60, "stop", "m"), (61, "hide", "m")]))
        out.append(Scene(f"stopped within the range and started again at once: {k2}", {"m1": {"s": ("E-X",)}, "m2": {"s": (k2,)}}, {**ONE, **BACK},
                         [(0, "start", "m", "m1"), (8, "stop", "m"), (8, "start", "m", "m2"), (60, "stop", "m"), (61, "hide", "m")]))
    out.append(Scene("stopped beyond the range and started into it again", {"m1": {"s": ("E-X",)}, "m2": {"s": ("E-X",)}}, {**ONE, **BACK},
                     [(0, "start", "m", "m1"), (16, "stop", "m"), (25, "start", "m", "m2"), (60, "stop", "m"), (61, "hide", "m")]))
    # several crossings
    for legs in (("E-X", "E-X"), ("S-X", "E-X"), ("E-E", "S-X"), ("S-X", "E-E"), ("E-X", "none")):
        for when in (2, 8, 16, 21, 28, 36):
            for act in ("stop", "hide"):
                out.append(Scene(f"{', '.join(legs)}, {'stopped' if act == 'stop' else 'hidden'} {when} after the start", {"m1": {"s": legs}}, TWO, [(0, "start", "m", "m1"), (when, act, "m"), (50, "hide", "m")]))
        out.append(Scene(f"{', '.join(legs)}, the sensor added 16 after the start", {"m1": {"s": legs}}, TWO, [(0, "start", "m", "m1"), (16, "add", "s"), (41, "stop", "m")], late=("s",)))
        out.append(Scene(f"{', '.join(legs)}, the sensor added 28 after the start", {"m1": {"s": legs}}, TWO, [(0, "start", "m", "m1"), (28, "add", "s"), (41, "stop", "m"), (50, "hide", "m")], late=("s",)))
    # others are not disturbed
    both = {"m1.path0": 20, "m2.path0": 22, "m1.s.in0": 4, "m1.s.out0": 12, "m1.t.in0": 6, "m1.t.out0": 15, "m2.s.in0": 5, "m2.s.out0": 13, "m2.t.in0": 7, "m2.t.out0": 16}
    for act in ("hide", "stop"):
        for when in (3, 8, 14):
            for k in ("E-X", "S-X", "E-E"):
                out.append(Scene(f"two movers and two sensors, {k}, one {'hidden' if act == 'hide' else 'stopped'} {when} after the start", {"m1": {"s": (k,), "t": ("E-X",)}, "m2": {"s": ("E-X",), "t": (k,)}}, both,
                                 [(0, "start", "m", "m1"), (0, "start", "n", "m2"), (when, act, "m"), (30, "hide", "m"), (31, "hide", "n")], sensors=("s", "t"), movers=("m", "n")))
    # touching the range
    out.append(Scene("touching the range", {"m1": {"s": ("E-X",)}}, {"m1.path0": 20, "m1.s.in0": 4, "m1.s.out0": 4}, [(0, "start", "m", "m1"), (20, "stop", "m"), (30, "hide", "m")]))
    return out


@prop("C28")
def notices(ctx: Ctx):
    prog = ctx.prog
    R = ctx.rule
    R("C28.told", "each sensor is told once of each entry and each exit of each mover that it can see, when it happens, and of nothing else", 150)
    R("C28.refused", "a motion that starts twice, or stops without having started, and a sensor without its methods or places are refused", 6)
    R("C28.hook", "making an actor undetectable (detectable) tells the motion manager once, but not at its first value nor while rehearsing", 12)
    run = runner(ctx, prog)
    M = refer(prog, "SensorMotionManager", ("_start_mover", "_stop_mover", "_mover_not_detectable", "_mover_became_detectable", "add_sensor"))
    loc = f"{M.module.rel}:{M.node.lineno}"
    for sc in scenes():
        for debug in (False, True):
            if debug and not sc.name.startswith("a way"):
                continue
            play(ctx, run, M, sc, debug, loc)
    refusals(ctx, run, M, loc)
    hooks(ctx, run)


def play(ctx, run, M, sc, debug, loc):
    c = f"SensorMotionManager: {sc.name}" + (" (debug)" if debug else "")
    at = sorted({t for t, *_ in sc.steps})
    order = Order({"now": 100, "speed": 3, **{f"after{t}": t for t in at}, **sc.values})
    prog = ctx.prog

    def scene(it, w):
        book = Book()
        motions = {n: book.motion(n, **legs) for n, legs in sc.legs.items()}
        who = {n: w.mover(n, None if n in sc.plain else "seen", _state_defs={"place": Obj(prog.cls("CartesianLocationChangingState"), {}, "state")}) for n in sc.movers}
        for n in sc.hidden:
            who[n].attrs["seen"] = False
        for n in sc.selfs:
            w.as_sensor(who[n], n)
        for n in (*sc.sensors, *sc.late):
            who.setdefault(n, None) or who.__setitem__(n, w.sensor(n))
        mgr = it.construct(M, [book], {"debug": True} if debug else {})
        real, ref = Driver(it, w, mgr), Notices(order, sym("now"))
        ref.hidden = {who[n] for n in sc.hidden}
        for (kind, s), act in sc.on.items():
            def react(m, act=act):
                getattr(real, act)(m)
            who[s].on[kind] = react
            ref.on[kind, who[s]] = lambda m, act=act: getattr(ref, act)(m)
        for n in sc.sensors:
            if n not in sc.late:
                real.add(who[n])
                ref.add(who[n])
        for t, *acts in sc.steps:
            then = total(sym("now"), *([sym(f"after{t}")] if t else []))
            acts = acts if isinstance(acts[0], tuple) else [tuple(acts)]

            def do(one, skip=(), acts=acts):
                for act, *names in acts:
                    if not (act == "start" and names[0] in skip):
                        getattr(one, act)(*[motions.get(n) or who[n] for n in names])
            w.at(then, lambda do=do: do(real))
            ref.put(then, lambda do=do: do(ref, sc.plain))
        w.run_all()
        return w, ref.run(), book

    rs = run(scene, order)
    if len(rs) != 1 or rs[0].outcome != "return":
        undecided(ctx, "C28.told", c, loc, rs)
        return
    w, want, book = rs[0].value
    # what happens at one time has one value in this order, whatever it is called
    tie = "touching" in sc.name
    bad = mistakes(ordered(order, w.log), ordered(order, want), (lambda a, b: order.value(term(a)) == order.value(term(b))) if tie else None)
    if bad is None and any(s in sc.selfs for _, s in book.asked):
        bad = "asks for the crossings of a mover with itself"
    ctx.check(bad is None, "C28.told", c, bad or "", loc)


def refusals(ctx, run, M, loc):
    prog = ctx.prog

    def attempt(name, first, then, check=None):
        c = f"SensorMotionManager: {name}"

        def scene(it, w):
            book = Book()
            mo, again = book.motion("m1", s=("E-X",)), book.motion("m2", s=("E-X",))
            mgr = it.construct(M, [book], {})
            d = Driver(it, w, mgr)
            env = {"d": d, "w": w, "mo": mo, "again": again, "m": w.mover("m"), "s": w.sensor("s"), "it": it}
            first(env)
            try:
                then(env)
            except Raised as e:
                if check:
                    check(env)
                w.run_all()
                return it, e.exc, w
            return it, None, w
        for r in run(scene, Order({"now": 100, "speed": 3, **ONE, **BACK})):
            if r.outcome != "return":
                ctx.bad("C28.refused", c, f"raises {r.value!r} afterwards", loc)
                continue
            it, exc, w = r.value
            if exc is None:
                ctx.bad("C28.refused", c, "is not refused", loc)
            else:
                ctx.check(not w.log or name.startswith("a motion"), "C28.refused", c, "a refused sensor is told of movers", loc)

    def pre(e):
        e["d"].add(e["s"])
        e["d"].start(e["m"], e["mo"])
    attempt("a motion that starts twice", pre, lambda e: e["d"].start(e["m"], e["again"]))
    attempt("a motion that stops without having started", lambda e: e["d"].add(e["s"]), lambda e: e["d"].stop(e["m"]))
    attempt("a motion that stops twice", lambda e: (pre(e), e["d"].stop(e["m"])), lambda e: e["d"].stop(e["m"]))
    for miss in ("entity_entered_range", "entity_exited_range", "place", "reach"):
        def without(e, miss=miss):
            del e["s"].attrs[miss]
            e["d"].start(e["m"], e["mo"])
        attempt(f"a sensor without {miss}", without, lambda e: e["d"].add(e["s"]), lambda e: e["d"].start(e["w"].mover("n"), e["again"]))


def hooks(ctx, run):
    prog = ctx.prog
    D = prog.cls("DetectabilityState")
    f = prog.method(D, "__set__")
    for was in (None, True, False):
        for value in (True, False):
            for rehearsing in (False, True):
                for manager in (True, False):
                    c = f"DetectabilityState.__set__: {was} to {value}" + (", rehearsing" if rehearsing else "") + ("" if manager else ", without a motion manager")

                    def scene(it, w):
                        calls = []

                        def tell(name):
                            return lambda it, a, k: calls.append((name, a[0] if a else next(iter(k.values())), w.actor.attrs.get("seen")))
                        mgr = Obj("Manager", {n: tell(n) for n in ("_mover_not_detectable", "_mover_became_detectable")}, "manager")
                        w.actor = Obj(prog.cls("Actor"), {"name": "actor", "_is_rehearsing": rehearsing}, "actor")
                        if was is not None:
                            w.actor.attrs["seen"] = was
                        w.stage = Obj("Stage", {"motion_manager": mgr} if manager else {}, "stage")
                        box["stage"] = w.stage
                        st = Obj(D, {"name": "seen"}, "state")
                        it.call_func(f, [w.actor, value], {}, me=st)
                        return w, calls
                    box = {}

                    def store(it, a, k):
                        a[1].attrs["seen"] = a[2]

                    for r in run(scene, Order({}), {("attr", "stage"): lambda it, o: box["stage"], "states:State.__set__": store}):
                        if r.outcome != "return":
                            ctx.bad("C28.hook", c, f"raises {r.value!r}", f.loc)
                            continue
                        w, calls = r.value
                        want = [("_mover_became_detectable" if value else "_mover_not_detectable", w.actor, value)] if was is not None and not rehearsing and manager else []
                        ctx.check(calls == want and w.actor.attrs.get("seen") is value, "C28.hook", c, f"tells the manager {[n for n, *_ in calls]}, not {[n for n, *_ in want]} after the value is stored", f.loc)

# -- the stepped manager --------------------------------------------------------------------------
class Places:
    """Where things are: who is within the range of whom, as a function of time."""

    def __init__(self, order, near):
        self.order, self.near = order, near
        self.asked, self.stale = [], []

    def within(self, s, m, now):
        t = self.order.value(term(now)) - 100
        return any(a <= t < b for a, b in self.near.get((s, m), ()))

    def place(self, w, name):
        now = w.env.attrs["now"]
        p = Obj("Place", {}, name)
        p.owner, p.now = name, now

        def distance(it, a, k):
            q = a[0] if a else next(iter(k.values()))
            here = w.env.attrs["now"]
            v = self.order.value
            if any(v(term(x.now)) != v(term(here)) for x in (p, q)):
                self.stale.append((p.owner, q.owner))
            self.asked.append((p.owner, q.owner, here))
            return sym("edge" if self.edge else "close") if self.within(p.owner, q.owner, here) or self.within(q.owner, p.owner, here) else sym("far")
        p.attrs["straight_line_distance"] = distance
        return p

    edge = False


class Seen:
    """The reference of the stepped manager."""

    def __init__(self, order, places, empties, checkers):
        self.order, self.places, self.empties, self.checkers = order, places, empties, checkers
        self.queue, self.seq, self.log, self.now = [], 0, [], sym("now")
        self.sensors, self.things, self.hidden, self.view, self.on = [], [], set(), [], {}
        self.running, self.steps = False, []

    put = Notices.put
    tell = Notices.tell

    def run_all(self):
        while self.queue:
            _, _, _, self.now, f = self.queue.pop(0)
            f()
        return self.log

    def run(self):
        if not self.running:
            self.running = True
            self.empty = 0
            self.put(total(self.now, sym("step")), self.step)

    def step(self):
        self.steps.append(self.now)
        self.test(list(self.things))
        self.empty = 0 if self.queue else self.empty + 1
        if self.empty >= self.empties:
            self.running = False
        else:
            self.put(total(self.now, sym("step")), self.step)

    def test(self, things):
        things = [x for x in things if x in self.things and x not in self.hidden]
        for s in list(self.sensors):
            for x in things:
                if x is s or x not in self.things or x in self.hidden:
                    continue
                near = self.places.within(s.label, x.label, self.now) or s.label not in self.checkers and self.places.within(x.label, s.label, self.now)
                if s.label in self.checkers:
                    near = not near
                if near and (s, x) not in self.view:
                    self.view.append((s, x))
                    self.tell("enter", s, x)
                elif not near and (s, x) in self.view:
                    self.view.remove((s, x))
                    self.tell("exit", s, x)

    def add(self, s):
        self.sensors.append(s)

    def detect(self, x):
        if x not in self.things:
            self.things.append(x)

    def hide(self, x):
        self.hidden.add(x)
        for s, y in list(self.view):
            if y is x and (s, x) in self.view:
                self.view.remove((s, x))
                self.tell("exit", s, x)

    def show(self, x):
        self.hidden.discard(x)
        self.test([x])

    def start(self, x):
        self.run()
        self.detect(x)

    def stop(self, x):
        if x in self.things:
            self.things.remove(x)

    def wait(self, x=None):
        self.put(total(self.now, sym("pause")), lambda: None)


class Stepper:
    """The same script for a stepped manager."""

    def __init__(self, it, w, mgr):
        self.it, self.w, self.mgr = it, w, mgr

    def do(self, name, *a, **k):
        return self.it.call(self.it.getattr(self.mgr, name), list(a), k)

    def run(self):
        self.do("run")

    def add(self, s):
        self.do("add_sensor", s, radius_attr_name="reach", location_attr_name="place")

    def detect(self, x):
        self.do("add_detectable", x, location_attr_name="place")

    def start(self, x):
        self.do("_start_mover", x, sym("speed"), [])

    def stop(self, x):
        self.do("_stop_mover", x)

    def hide(self, x):
        x.attrs["seen"] = False
        self.do("_mover_not_detectable", x)

    def show(self, x):
        x.attrs["seen"] = True
        self.do("_mover_became_detectable", x)

    def wait(self, x=None):
        self.w.at(total(self.w.env.attrs["now"], sym("pause")), lambda: None)


def step_scenes():
    """name, who is in whose range when, script, more."""
    H = F(1, 2)
    end = (12 + H, "wait")
    go = [(0, "add", "s"), (0, "detect", "m"), (0, "run"), end]
    ways = {"never in range": (), "passing through": ((2 + H, 5 + H),), "there at first": ((-1, 4 + H),), "there in the end": ((6 + H, 99),), "there always": ((-1, 99),),
            "in and out": ((1 + H, 3 + H), (4 + H, 8 + H), (9 + H, 10 + H)), "between two steps": ((2 + F(1, 4), 2 + F(3, 4)),)}
    out = []

    def scene(name, near, steps, **k):
        out.append((name, near, sorted(steps, key=lambda x: x[0]), k))

    for n, w in ways.items():
        near = {("s", "m"): w}
        scene(f"{n}, standing", near, go)
        scene(f"{n}, at the edge", near, go, edge=True)
        scene(f"{n}, moving", near, [(0, "add", "s"), (0, "start", "m"), (0, "start", "m"), end, (14 + H, "stop", "m")])
        scene(f"{n}, run twice", near, [*go, (0, "run"), (3 + H, "run")])
        scene(f"{n}, the sensor checks by itself", near, go, checkers=("s",))
        scene(f"{n}, without a detectability state", near, go, plain=("m",))
        scene(f"{n}, not an actor", near, go, things=("m",))
        scene(f"{n}, a sensor that is detectable itself", {("s", "m"): w, ("m", "m"): ((-1, 99),)}, [(0, "add", "m"), *go, (0, "detect", "s")], selfs=("m",))
        scene(f"{n}, the sensor added later", near, [(0, "detect", "m"), (0, "run"), (3 + H, "add", "s"), end])
        scene(f"{n}, added later", near, [(0, "add", "s"), (0, "run"), (3 + H, "detect", "m"), end])
        scene(f"{n}, hidden at the start", near, go, hidden=("m",))
        scene(f"{n}, hidden at the start, shown later", near, [*go, (3 + F(1, 4), "show", "m")], hidden=("m",))
        for when in (1, 4, 7):
            t = when + F(1, 4)
            scene(f"{n}, hidden after {when} steps", near, [*go, (t, "hide", "m")])
            scene(f"{n}, hidden twice after {when} steps", near, [*go, (t, "hide", "m"), (t + H, "hide", "m")])
            scene(f"{n}, hidden and shown after {when} steps", near, [*go, (t, "hide", "m"), (t + F(3, 2), "show", "m")])
            scene(f"{n}, hidden and shown at once after {when} steps", near, [*go, (t, ("hide", "m"), ("show", "m"))])
            scene(f"{n}, shown after {when} steps", near, [*go, (t, "show", "m")])
            scene(f"{n}, stopped after {when} steps", near, [(0, "add", "s"), (0, "start", "m"), (t, "stop", "m"), (11 + H, "hide", "m"), end])
            scene(f"{n}, stopped after {when} steps and started again", near, [(0, "add", "s"), (0, "start", "m"), (t, "stop", "m"), (t + F(3, 2), "start", "m"), end])
            scene(f"{n}, stopped after {when} steps, shown", near, [(0, "add", "s"), (0, "start", "m"), (t, "stop", "m"), (t + F(3, 2), "show", "m"), end])
            scene(f"{n}, the other hidden after {when} steps", {("s", "m"): w, ("s", "n"): ways["passing through"], ("t", "m"): ways["there always"], ("t", "n"): w},
                  [(0, "add", "t"), *go, (0, "detect", "n"), (t, "hide", "n")], sensors=("s", "t"), movers=("m", "n"))
            scene(f"{n}, the other stopped after {when} steps", {("s", "m"): w, ("s", "n"): ways["passing through"], ("t", "m"): ways["there always"], ("t", "n"): w},
                  [(0, "add", "s"), (0, "add", "t"), (0, "start", "m"), (0, "start", "n"), (t, "stop", "n"), end], sensors=("s", "t"), movers=("m", "n"))
        scene(f"{n}, the sensor passes by the second", {("s", "n"): w, ("s", "m"): ways["in and out"]}, [*go, (0, "detect", "n")], movers=("m", "n"))
        for kind in ("enter", "exit"):
            for act in ("hide", "stop", "show", "wait"):
                for two in (False, True):
                    near2 = {("s", "m"): w, ("t", "m"): w, ("s", "n"): w}
                    scene(f"{n}, told of the {'entry' if kind == 'enter' else 'exit'} the sensor {act}s{' it' if act != 'wait' else ''}{', one of two' if two else ''}", near2,
                          [*([(0, "add", "s"), (0, "add", "t"), (0, "detect", "m"), (0, "detect", "n"), (0, "run")] if two else go[:-1]), (9 + H, "hide", "m"), (10 + H, "show", "m"), end],
                          sensors=("s", "t"), movers=("m", "n"), on={(kind, "s"): act})
    # when it ends
    for empties in (1, 2, 3, 5):
        scene(f"ends after {empties} empty steps", {("s", "m"): ways["passing through"]}, [(0, "add", "s"), (0, "detect", "m"), (0, "run")], empties=empties)
        scene(f"ends after {empties} empty steps, kept by others", {("s", "m"): ways["passing through"]}, [(0, "add", "s"), (0, "detect", "m"), (0, "run"), (4 + H, "wait")], empties=empties)
        scene(f"ends after {empties} empty steps and runs again", {("s", "m"): ways["passing through"]}, [(0, "add", "s"), (0, "start", "m"), (2 + H, "wait")], empties=empties, again=True)
        for kind in ("enter", "exit"):
            scene(f"ends after {empties} empty steps, kept by what the sensor does when told of the {kind}", {("s", "m"): ((1 + H, 2 + H),)}, [(0, "add", "s"), (0, "detect", "m"), (0, "run")], empties=empties, on={(kind, "s"): "wait"})
    return out


@prop("C29")
def stepped(ctx: Ctx):
    prog = ctx.prog
    R = ctx.rule
    R("C29.told", "each sensor is told once of each detectable that comes into its range and of each that leaves it, at the step when it does, and of nothing else", 200)
    R("C29.steps", "the distances are tested at every step, in the places of that step, until there were enough steps without other events", 200)
    R("C29.refused", "a sensor without its methods or places and a detectable without a place are refused", 5)
    run = runner(ctx, prog)
    M = refer(prog, "SteppedMotionManager", ("run", "_start_mover", "_stop_mover", "_mover_not_detectable", "_mover_became_detectable", "add_sensor", "add_detectable"))
    loc = f"{M.module.rel}:{M.node.lineno}"
    for sc in step_scenes():
        step_play(ctx, run, M, sc, loc)
    step_refusals(ctx, run, M, loc)
    particular(ctx, prog, M)


def particular(ctx, prog, M):
    """The tests of one detectable at its own rate."""
    from ..engine import show as text
    ctx.rule("C29.particular", "testing one detectable at a rate waits for the rate before each test, and each test asks all sensors about that detectable only", 1)
    f = prog.method(M, "run_particular")
    asked = 0
    for p in ctx.paths(f, M, opaque={"_run_detectable"}):
        due = False
        why = None
        for e in p.events:
            if e.kind == "call" and e.name == "timeout" and not e.raised:
                why = None if e.all_args() == (("param", "rate"),) or list(e.all_args()) == [("param", "rate")] else "waits for something else than the rate"
            elif e.kind == "yield":
                due = True
            elif e.kind == "call" and e.name == "_run_detectable":
                given = dict(zip(("sensor_req", "detectable_req"), e.args)) | e.kwargs
                who = given.get("detectable_req")
                if not due:
                    why = "tests before its time"
                elif given.get("sensor_req", ("const", None)) != ("const", None):
                    why = f"asks {text(given['sensor_req'])} only"
                elif who is None or e.items(who) != (("param", "detectable"),):
                    why = "asks about other detectables"
                due = False
                asked += 1
            if why:
                break
        if why:
            ctx.bad("C29.particular", "run_particular", why, f.loc, p)
            return
    ctx.check(asked > 0, "C29.particular", "run_particular", "never tests the detectable", f.loc)


def cast(w, prog, sensors, movers, selfs=(), plain=(), things=(), hidden=()):
    state = {"place": Obj(prog.cls("CartesianLocationChangingState"), {}, "state")}
    who = {}
    for n in movers:
        if n in things:
            who[n] = Obj("Thing", {"name": n}, n)
        else:
            who[n] = w.mover(n, None if n in plain else "seen", _state_defs=dict(state))
        if n in hidden:
            who[n].attrs["seen"] = False
        if n in selfs:
            w.as_sensor(who[n], n)
    for n in sensors:
        if n not in who:
            who[n] = w.sensor(n)
    for o in who.values():
        o.attrs["place"] = "a place"
    return who


def step_play(ctx, run, M, sc, loc):
    name, near, steps, opts = sc
    c = f"SteppedMotionManager: {name}"
    at = sorted({t for t, *_ in steps} | {F(60), F(61)})
    order = Order({"now": 100, "speed": 3, "step": 1, "pause": F(7, 2), "close": 3, "far": 9, "edge": 5, "s.reach": 5, "t.reach": 5, "m.reach": 5, "n.reach": 5, **{f"after{float(t)}": t for t in at}})
    prog = ctx.prog
    empties = opts.get("empties", 3)
    checkers = opts.get("checkers", ())
    box = {}

    def scene(it, w):
        box["w"] = w
        box["places"] = places = Places(order, near)
        places.edge = opts.get("edge", False)
        who = cast(w, prog, opts.get("sensors", ("s",)), opts.get("movers", ("m",)), opts.get("selfs", ()), opts.get("plain", ()), opts.get("things", ()), opts.get("hidden", ()))
        for n in checkers:
            who[n].attrs["detection_checker"] = lambda it, a, k, n=n: (places.asked.append((n, a[0].owner, w.env.attrs["now"])), not places.within(n, a[0].owner, w.env.attrs["now"]))[1]
        mgr = it.construct(M, [sym("step")], {} if empties == 3 else {"max_empty_events": empties})
        real, ref = Stepper(it, w, mgr), Seen(order, places, empties, checkers)
        ref.hidden = {who[n] for n in opts.get("hidden", ())}
        for (kind, s), act in opts.get("on", {}).items():
            def react(m, act=act):
                getattr(real, act)(m)
            who[s].on[kind] = react
            ref.on[kind, who[s]] = lambda m, act=act: getattr(ref, act)(m)

        def script(steps):
            for t, *acts in steps:
                then = total(sym("now"), *([sym(f"after{float(t)}")] if t else []))
                acts = acts if isinstance(acts[0], tuple) else [tuple(acts)]

                def do(one, acts=acts):
                    for act, *names in acts:
                        getattr(one, act)(*[who[n] for n in names])
                w.at(then, lambda do=do: do(real))
                ref.put(then, lambda do=do: do(ref))
        script(steps)
        w.run_all()
        ref.run_all()
        if opts.get("again"):
            script([(60, "start", "m"), (61, "wait")])
            w.run_all()
            ref.run_all()
        return w, ref, places

    def place(it, o):
        if isinstance(o, Obj) and o.attrs.get("place") is not None:
            return box["places"].place(box["w"], o.label)
        return None

    rs = run(scene, order, {("attr", "place"): place, "actor:Actor._get_matching_state": lambda it, a, k: matching(a, k)})
    if len(rs) != 1 or rs[0].outcome != "return":
        undecided(ctx, "C29.told", c, loc, rs)
        return
    w, ref, places = rs[0].value
    bad = mistakes(ordered(order, w.log), ordered(order, ref.log))
    ctx.check(bad is None, "C29.told", c, bad or "", loc)
    bad = None
    if places.stale:
        bad = f"uses a place of another time for {places.stale[0]}"
    if any(a == b for a, b, _ in places.asked):
        bad = "tests an object against its own sensor"
    steps = [v for v in sorted({order.value(term(t)) for *_, t in places.asked})]
    waits = sorted(order.value(term(t)) for _, t in w.waits)
    if bad is None and waits != sorted(order.value(term(t)) for t in ref.steps):
        bad = f"steps {len(waits)} times, not {len(ref.steps)}"
    ctx.check(bad is None, "C29.steps", c, bad or "", loc)


def matching(a, k):
    cls = a[1] if len(a) > 1 else k["state_class"]
    for n, s in a[0].attrs["_state_defs"].items():
        if cls in s.cls.mro:
            return n
    return None


def step_refusals(ctx, run, M, loc):
    prog = ctx.prog

    def attempt(name, then):
        c = f"SteppedMotionManager: {name}"

        def scene(it, w):
            who = cast(w, prog, ("s",), ("m",))
            d = Stepper(it, w, it.construct(M, [sym("step")], {}))
            try:
                then(d, who)
            except Raised:
                return True
            return False
        for r in run(scene, Order({"now": 100, "step": 1}), {"actor:Actor._get_matching_state": lambda it, a, k: matching(a, k)}):
            ctx.check(r.outcome == "return" and r.value is True, "C29.refused", c, "is not refused", loc)
    for miss in ("entity_entered_range", "entity_exited_range", "place", "reach"):
        def without(d, who, miss=miss):
            del who["s"].attrs[miss]
            d.add(who["s"])
        attempt(f"a sensor without {miss}", without)

    def placeless(d, who):
        del who["m"].attrs["place"]
        d.detect(who["m"])
    attempt("a detectable without a place", placeless)

    def stateless(d, who):
        who["m"].attrs["_state_defs"].clear()
        d.start(who["m"])
    attempt("a mover without a location state", stateless)
