"""Normal forms of trigonometric terms, and gradings of them.

A term is a Laurent polynomial over atoms with complex rational coefficients. Sines and cosines of
linear combinations of angle atoms are written with exponentials E(x) = exp(i x), so that identities
between products of them hold by cancellation. Angles in degrees carry the atom DEG (180/pi).
A grading gives every atom a weight; a polynomial is homogeneous of degree d when all its monomials
weigh d. How a value changes when its inputs are turned, scaled or given in other units can be read
off the degrees."""
from __future__ import annotations

import math
from fractions import Fraction

F = Fraction
ONE = (F(1), F(0))
DEG = ("deg",)
PI = F(math.pi)
LIMIT = 3000
WIDE = 600      # larger products are not multiplied out


class TooBig(Exception):
    pass


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


class P:
    """A Laurent polynomial: {monomial: (re, im)}; monomial: sorted tuple of (atom, exponent)."""

    __slots__ = ("d", "_k")

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v[0] or v[1]}
        self._k = None
        if len(self.d) > LIMIT:
            raise TooBig

    def key(self):
        if self._k is None:
            f = frozenset(self.d.items())
            i = _ids.get(f)
            if i is None:
                i = _ids[f] = len(_polys)
                _polys.append(self)
            self._k = ("P", i)
        return self._k

    def __eq__(self, o):
        return self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            w = d.get(k, (F(0), F(0)))
            d[k] = (w[0] + v[0], w[1] + v[1])
        return P(d)

    def scale(self, c):
        c = c if isinstance(c, tuple) else (F(c), F(0))
        return P({k: cmul(v, c) for k, v in self.d.items()})

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + -o

    def boxed(self):
        """As one atom."""
        return P({((("box", self.key()), F(1)),): ONE}) if len(self.d) > 1 else self

    def __mul__(self, o):
        if len(self.d) * len(o.d) > WIDE:
            a, b = (self, o) if len(self.d) >= len(o.d) else (o, self)
            a = a.boxed()
            return a * (b.boxed() if len(b.d) > WIDE // 8 else b)
        d = {}
        for k, v in self.d.items():
            for j, w in o.d.items():
                m = mono_mul(k, j)
                x = d.get(m, (F(0), F(0)))
                y = cmul(v, w)
                d[m] = (x[0] + y[0], x[1] + y[1])
        return reduce_powers(P(d))

    def const(self):
        """The number it is, or None."""
        if not self.d:
            return F(0)
        if len(self.d) == 1 and () in self.d and not self.d[()][1]:
            return self.d[()][0]
        return None

    def inverse(self):
        if not self.d:
            raise ZeroDivisionError
        if len(self.d) == 1:
            (k, v), = self.d.items()
            n = v[0] * v[0] + v[1] * v[1]
            return P({tuple((a, -e) for a, e in k): (v[0] / n, -v[1] / n)})
        # a common factor is taken out, so that a/(b*c) and (a/b)/c meet
        g = common(self)
        lead = min(self.d, key=repr)
        c = self.d[lead]
        n = c[0] * c[0] + c[1] * c[1]
        body = P({mono_mul(k, tuple((a, -e) for a, e in g)): cmul(v, (c[0] / n, -c[1] / n)) for k, v in self.d.items()})
        return P({mono_mul(tuple((a, -e) for a, e in g), ((("sum", body.key()), F(-1)),)): (c[0] / n, -c[1] / n)})


def mono_mul(k, j):
    if not k:
        return j
    if not j:
        return k
    m = dict(k)
    for a, e in j:
        m[a] = m.get(a, 0) + e
        if not m[a]:
            del m[a]
    return tuple(sorted(m.items(), key=akey))


_akey: dict = {}


def akey(item):
    a = item[0]
    k = _akey.get(a)
    if k is None:
        k = _akey[a] = repr(a)
    return k


def common(p):
    ks = [dict(k) for k in p.d]
    out = {}
    for a in set.intersection(*(set(k) for k in ks)):
        es = [k[a] for k in ks]
        if a[0] == "E":
            continue
        e = min(es) if min(es) > 0 else max(es) if max(es) < 0 else 0
        if e:
            out[a] = e
    return tuple(sorted(out.items(), key=akey))


_ids: dict = {}
_polys: list = []


def unkey(k):
    return _polys[k[1]]


def reduce_powers(p):
    """sqrt(x)**2 -> x, (1/sum)*sum stays (equality is compared crosswise)."""
    again = None
    for k, v in p.d.items():
        for a, e in k:
            if a[0] == "fn" and a[1] == "sqrt" and e >= 2:
                again = (k, v, a, e)
                break
            if a[0] == "fn" and a[1] == "abs" and e >= 2:
                again = (k, v, a, e)
                break
            if a[0] == "sum" and e >= 1 and e == int(e):
                again = (k, v, a, e)
                break
        if again:
            break
    if not again:
        return p
    k, v, a, e = again
    d = dict(p.d)
    del d[k]
    rest = dict(k)
    if a[0] == "sum":
        del rest[a]
        x, n = unkey(a[1]), int(e)
    else:
        n = int(e // 2)
        rest[a] = e - 2 * n
        if not rest[a]:
            del rest[a]
        x = unkey(a[2])
        if a[1] == "abs":
            n *= 2
    q = P({tuple(sorted(rest.items(), key=akey)): v})
    for _ in range(n):
        q = q * x
    return reduce_powers(P(d) + q)


def num(c):
    return P({(): (F(c), F(0))} if c else {})


def atom(a, e=1):
    return P({((a, F(e)),): ONE})


I = P({(): (F(0), F(1))})


def expi(p):
    """exp(i p) of a linear combination with rational coefficients -> P, or None."""
    m = {}
    for k, v in p.d.items():
        if v[1]:
            return None
        if k == ():
            a, c = ("E", ("one",)), v[0]
        elif len(k) == 1 and k[0][1] == 1 and k[0][0] != DEG:
            a, c = ("E", k[0][0]), v[0]
        else:     # a product: its exponential is an atom of its own
            a, c = ("E", ("mono", k)), v[0]
            if any(x == DEG for x, _ in k):
                return None
        m[a] = m.get(a, F(0)) + c
    return P({tuple(sorted(((a, c) for a, c in m.items() if c), key=akey)): ONE})


def conj(p):
    d = {}
    for k, v in p.d.items():
        d[tuple(sorted(((a, -e) if a[0] == "E" else (a, e) for a, e in k), key=akey))] = (v[0], -v[1])
    return P(d)


class Nf:
    """Terms of an interpreter run -> normal forms."""

    def __init__(self, defs=(), angles=(), opaque=lambda t: None):
        """angles: symbols in degrees, written DEG times an atom."""
        self.defs, self.angles, self.opaque = defs, set(angles), opaque
        self.memo, self.by_id = {}, {}

    def __call__(self, t):
        i = id(t)
        if i not in self.by_id:
            self.by_id[i] = (t, self.get(t))
        return self.by_id[i][1]

    def get(self, t):
        if t[0] == "def":
            k = t[1]
            if k not in self.memo:
                self.memo[k] = self(self.defs[k])
            return self.memo[k]
        return self.nf(t)

    def nf(self, t):
        r = self.opaque(t)
        if r is not None:
            return r
        o = t[0]
        if o == "const" and isinstance(t[1], (int, float, Fraction)) and not isinstance(t[1], bool):
            return num(t[1])
        if t == ("ext", "math.pi"):
            return num(PI)
        if t == ("ext", "math.tau"):
            return num(2 * PI)
        if o == "sym":
            if t[1] in self.angles:
                return atom(t) * atom(DEG)
            return atom(t)
        if o == "neg":
            return -self(t[1])
        if o == "bin":
            op = t[1]
            a, b = self(t[2]), self(t[3])
            if op in "+-":
                a, b = units(a, b)
                return a + b if op == "+" else a - b
            if op == "*":
                return a * b
            if op == "/":
                return a * b.inverse()
            if op == "**":
                return power(a, b)
            if op == "%":
                return modulo(a, b)
        if o == "call" and t[1][0] in ("ext", "builtin"):
            return fn(t[1][1].split(".")[-1], [self(x) for x in t[2]])
        return atom(("opaque", t))


def units(a, b):
    """A plain multiple of 90 added to degrees is in degrees."""
    for x, y, swap in ((a, b, False), (b, a, True)):
        c = y.const()
        if c and c % 45 == 0 and weight_of(x, lambda z: F(1) if z == DEG else F(0)) == 1:
            y = num(c / 180) * num(PI) * atom(DEG)
            return (y, x) if swap else (x, y)
    return a, b


def power(a, b):
    c = b.const()
    if c is None:
        return atom(("fn", "pow", a.key(), b.key()))
    if c == F(1, 2) or c == F(1, 2).limit_denominator(1000):
        return fn("sqrt", [a])
    if c == int(c) and abs(c) <= 8:
        out = num(1)
        for _ in range(int(abs(c))):
            out = out * a
        return out.inverse() if c < 0 else out
    return atom(("fn", f"pow{c.limit_denominator(1000)}", a.key()))


def modulo(a, b):
    return atom(("mod", a.key(), b.key()))


def unclamp(x, bounds):
    """x kept within the function's domain -> x: the two differ by rounding alone."""
    while len(x.d) == 1:
        (k, w), = x.d.items()
        if w != ONE or len(k) != 1 or k[0][1] != 1 or k[0][0][0] != "fn" or k[0][0][1] not in bounds or len(k[0][0]) != 4:
            return x
        b = bounds[k[0][0][1]]
        xs = [unkey(i) for i in k[0][0][2:]]
        rest = [y for y in xs if y.const() != b]
        if len(rest) != 1:
            return x
        x = rest[0]
    return x


DOMAIN = {"sqrt": {"max": 0}, "asin": {"max": -1, "min": 1}, "acos": {"max": -1, "min": 1}}


def fn(n, xs):
    x = xs[0] if xs else None
    if n in DOMAIN:
        x = unclamp(x, DOMAIN[n])
        xs = [x, *xs[1:]]
    if n == "radians":
        return x * atom(DEG, -1)
    if n == "degrees":
        return x * atom(DEG)
    if n in ("sin", "cos"):
        e = expi(x) if all(len(k) <= 1 and all(a[0] == "sym" for a, _ in k) for k in x.d) else None
        if e is not None:
            ec = conj(e)
            return (e + ec).scale(F(1, 2)) if n == "cos" else (e - ec).scale((F(0), F(-1, 2)))
    if n == "tan":
        return fn("sin", xs) * fn("cos", xs).inverse()
    if n == "float" or n == "cast":
        return xs[-1]
    if n == "sqrt":
        c = x.const()
        if c is not None and c >= 0:
            r = F(math.isqrt(c.numerator), math.isqrt(c.denominator))
            if r * r == c:
                return num(r)
        return atom(("fn", "sqrt", x.key()))
    if n in ("sin", "cos", "abs", "asin", "atan", "sinh", "atan2"):
        q = -x
        if q.key() < x.key():
            r = atom(("fn", n, q.key(), *(z.key() for z in xs[1:])))
            return r if n in ("cos", "abs") else -r
    if n == "pow" and len(xs) == 2:
        return power(*xs)
    if n in ("round",):
        return atom(("fn", "round", *(z.key() for z in xs)))
    return atom(("fn", n, *(z.key() for z in xs)))


# -- gradings -------------------------------------------------------------------------------------
class Bad(Exception):
    """A term is not homogeneous where it has to be."""


def weight_of(p, weigh):
    """The common weight of the monomials, None when they differ; 0 polynomials weigh anything (None too)."""
    ws = {sum((e * weigh(a) for a, e in k), F(0)) for k in p.d}
    return ws.pop() if len(ws) == 1 else None


class Grade:
    """base(atom) -> weight of a plain atom, for E(x) the weight x contributes per unit exponent."""

    name = ""

    def base(self, a):
        return F(0)

    def __init__(self):
        self.memo = {}

    def atom(self, a):
        if a not in self.memo:
            self.memo[a] = self._atom(a)
        return self.memo[a]

    def _atom(self, a):
        o = a[0]
        if o == "fn":
            return self.fn(a[1], [unkey(k) for k in a[2:]])
        if o in ("sum", "box"):
            return self.poly(unkey(a[1]))
        if o == "mod":
            return self.mod(unkey(a[1]), unkey(a[2]))
        if o == "E":
            return self.exp(a[1])
        return self.base(a)

    def poly(self, p):
        if not p.d:
            return F(0)
        ws = {}
        for k in p.d:
            w = F(0)
            for a, e in k:
                w += e * self.atom(a)
            ws.setdefault(w, k)
        if len(ws) > 1:
            raise Bad(f"it adds {' and '.join(f'{text_mono(k)} ({self.say(w)})' for w, k in list(ws.items())[:2])}")
        return next(iter(ws))

    def zero(self, p, where):
        w = self.poly(p)
        if w:
            raise Bad(f"{where} of {text(p)} ({self.say(w)})")

    def fn(self, n, xs):
        if n == "sqrt":
            return self.poly(xs[0]) / 2
        if n.startswith("pow") and "/" in n[3:]:
            return self.poly(xs[0]) * F(n[3:])
        if n == "atan2":
            a, b = (self.poly(x) for x in xs)
            if a != b and xs[0].d and xs[1].d:
                raise Bad(f"atan2 of {text(xs[0])} ({self.say(a)}) and {text(xs[1])} ({self.say(b)})")
            return F(0)
        if n in ("abs", "round", "fabs", "floor", "ceil", "trunc"):
            return self.poly(xs[0])
        if n in ("max", "min"):
            ws = {self.poly(x) for x in xs if x.const() is None}
            if len(ws) > 1:
                raise Bad(f"{n} of different kinds")
            return ws.pop() if ws else F(0)
        for x in xs:
            self.zero(x, n)
        return F(0)

    def mod(self, a, b):
        return self.poly(a)

    def exp(self, x):
        """weight of E(x)"""
        w = self.base(x) if x[0] not in ("fn", "mod", "sum", "box", "mono") else self.atom(x) if x[0] != "mono" else sum((e * self.atom(a) for a, e in x[1]), F(0))
        if w:
            raise Bad(f"a trigonometric function is applied to {text_atom(x)} ({self.say(w)})")
        return F(0)

    def say(self, w):
        return f"{self.name} {w}"


class Turn(Grade):
    """How a value changes when some angles are turned by c: weights of E atoms. Raw angles are handled by shift()."""

    name = "turned"

    def __init__(self, turned):
        super().__init__()
        self.turned = turned      # atom -> rational: how far it turns
        self.shifts = {}

    def exp(self, x):
        if x[0] == "one":
            return F(0)
        if x[0] == "mono":
            for a, e in x[1]:
                if self.is_turned(a):
                    raise Bad(f"{text_atom(a)} in a product within a trigonometric function")
            return F(0)
        return self.shift_atom(x)

    def base(self, a):
        if self.turned.get(a):
            raise Bad(f"{text_atom(a)} is used other than by differences and directions")
        return F(0)

    def is_turned(self, a):
        try:
            return bool(self.shift_atom(a))
        except Bad:
            return True

    def shift_atom(self, a):
        """By how much an atom is turned."""
        if a in self.turned:
            return self.turned[a]
        if a not in self.shifts:
            self.shifts[a] = self._shift_atom(a)
        return self.shifts[a]

    def _shift_atom(self, a):
        if a[0] == "fn" and a[1] == "atan2":
            y, x = unkey(a[2]), unkey(a[3])
            w, v = x + I * y, x - I * y
            d, e = self.poly(w), self.poly(v)
            if w.d and v.d and d != -e:
                raise Bad(f"atan2({text(y)}, {text(x)}) does not turn as a direction")
            return d if w.d else -e
        if a[0] == "mod":
            return self.shift(unkey(a[1]))
        self.zero_atom(a)
        return F(0)

    def zero_atom(self, a):
        w = self.atom(a)
        if w:
            raise Bad(f"{text_atom(a)} is turned")

    def shift(self, p, unit=None):
        """By how much the value turns; its other parts must not change. unit: atom every term must carry (DEG)."""
        total, rest = F(0), {}
        for k, v in p.d.items():
            m = tuple((a, e) for a, e in k if a != DEG)
            if len(m) == 1 and m[0][1] == 1 and not v[1]:
                a = m[0][0]
                s = self.shift_atom(a) if a[0] in ("fn", "mod") or a in self.turned else F(0)
                if s:
                    total += v[0] * s
                    continue
            rest[k] = v
        self.zero(P(rest), "a part")
        return total

    def fn(self, n, xs):
        if n == "atan2":
            y, x = xs
            w, v = self.poly(x + I * y), self.poly(x - I * y)
            if w or v:
                raise Bad("a turned direction is used as a number")
            return F(0)
        if n in ("sqrt", "abs", "round"):
            return super().fn(n, xs)
        for x in xs:
            if self.shift(x):
                raise Bad(f"{n} of {text(x)}, which turns")
        return F(0)

    def mod(self, a, b):
        self.zero(a, "remainder")
        return F(0)

    def say(self, w):
        return f"turns {w} times" if w else "does not turn"


class Scale(Grade):
    """Weights of lengths."""

    def __init__(self, weights, name="length to the power"):
        super().__init__()
        self.w, self.name = weights, name

    def base(self, a):
        return F(self.w.get(a, 0))


class Degrees(Grade):
    """Weight one for an angle in degrees, 0 for anything in radians or no unit."""

    def base(self, a):
        return F(1) if a == DEG else F(0)

    def mod(self, a, b):
        w, c = self.poly(a), b.const()
        if c is None:
            w2 = self.poly(b)
            if w2 != w:
                raise Bad(f"the remainder of {text(a)} by {text(b)}")
            return w
        if c % 45 == 0 and w != 1:
            raise Bad(f"the remainder by {float(c):g} of an angle in radians")
        if abs(c / PI - round(c / PI)) < F(1, 10**9) and w != 0:
            raise Bad(f"the remainder by {float(c):.4g} of an angle in degrees")
        return w

    def say(self, w):
        return {0: "radians or a plain number", 1: "degrees"}.get(w, f"degrees to the power {w}")


# -- text -----------------------------------------------------------------------------------------
def text_atom(a):
    o = a[0]
    if o == "deg":
        return "deg"
    if o == "sym":
        return str(a[1])
    if o == "E":
        return f"e^i({text_atom(a[1])})"
    if o == "fn":
        return f"{a[1]}({', '.join(text(unkey(k)) for k in a[2:])})"
    if o == "mod":
        return f"({text(unkey(a[1]))} % {text(unkey(a[2]))})"
    if o in ("sum", "box"):
        return f"({text(unkey(a[1]))})"
    if o == "mono":
        return text_mono(a[1])
    if o == "one":
        return "1"
    from .value import show
    return show(a[1])[:60] if o == "opaque" else str(a)[:60]


def text_mono(k):
    return "*".join(text_atom(a) + (f"^{e}" if e != 1 else "") for a, e in k) or "1"


def text(p):
    ks = list(p.d)
    s = " + ".join(text_mono(k) for k in ks[:3]) or "0"
    s += " + ..." if len(ks) > 3 else ""
    return s if len(s) < 160 else s[:157] + "..."
