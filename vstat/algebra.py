"""Arithmetic terms as exact rational functions of their atoms."""
from __future__ import annotations

from fractions import Fraction


def _const(c):
    return {(): Fraction(c)} if c else {}


def _add(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
        if not out[k]:
            del out[k]
    return out


def _mul(a, b):
    out = {}
    for k, v in a.items():
        for j, w in b.items():
            m = dict(k)
            for x, n in j:
                m[x] = m.get(x, 0) + n
            key = tuple(sorted(m.items(), key=repr))
            out[key] = out.get(key, 0) + v * w
            if not out[key]:
                del out[key]
    return out


def _pow(a, n):
    out = _const(1)
    for _ in range(n):
        out = _mul(out, a)
    return out


def _even(n, d, atom):
    """Squares of roots and of absolute values are what they are taken of."""
    for part, sign in ((n, 1), (d, -1)):
        for mono in part:
            for a, k in mono:
                if k < 2 or a[0] != "call" or len(a[2]) != 1 or a[3] or a[1] not in (("builtin", "abs"), ("ext", "math.sqrt"), ("ext", "math.fabs")):
                    continue
                u, v = rat(a[2][0], atom)
                # every monomial with a power of it over one denominator
                top = max((dict(m).get(a, 0) // 2 for m in part), default=0)
                un, vn = (u, v) if a[1] == ("ext", "math.sqrt") else (_mul(u, u), _mul(v, v))
                out = {}
                for m, c in part.items():
                    e = dict(m)
                    j = e.get(a, 0) // 2
                    e[a] = e.get(a, 0) % 2
                    if not e[a]:
                        del e[a]
                    one = {tuple(sorted(e.items(), key=repr)): c}
                    out = _add(out, _mul(_mul(one, _pow(un, j)), _pow(vn, top - j)))
                lift = _pow(vn, top)
                return _even(out, _mul(d, lift), atom) if sign > 0 else _even(_mul(n, lift), out, atom)
    return n, d


def rat(t, atom=lambda x: x):
    """(numerator, denominator) of an arithmetic term; whatever is not arithmetic is an atom."""
    o = t[0]
    if o == "const" and isinstance(t[1], (int, float, Fraction)) and not isinstance(t[1], bool):
        return _const(Fraction(t[1])), _const(1)
    if o == "neg":
        n, d = rat(t[1], atom)
        return _mul(n, _const(-1)), d
    if o == "pos":
        return rat(t[1], atom)
    if o == "lin":
        n, d = {}, _const(1)
        for k, c in t[1]:
            if k == ():
                n2, d2 = _const(Fraction(c)), _const(1)
            else:
                n2, d2 = rat(k, atom)
                n2 = _mul(n2, _const(Fraction(c)))
            n, d = _add(_mul(n, d2), _mul(n2, d)), _mul(d, d2)
        return n, d
    if o == "bin" and atom(t) == t:
        op = t[1]
        if op in ("+", "-"):
            (a, b), (c, d) = rat(t[2], atom), rat(t[3], atom)
            if b == d:
                return _add(a, c, 1 if op == "+" else -1), b
            return _add(_mul(a, d), _mul(c, b), 1 if op == "+" else -1), _mul(b, d)
        if op == "*":
            (a, b), (c, d) = rat(t[2], atom), rat(t[3], atom)
            return _even(_mul(a, c), _mul(b, d), atom)
        if op == "/":
            (a, b), (c, d) = rat(t[2], atom), rat(t[3], atom)
            return _mul(a, d), _mul(b, c)
        if op == "**" and t[3][0] == "const" and isinstance(t[3][1], (int, float, Fraction)) and float(t[3][1]).is_integer() and 0 <= t[3][1] <= 8:
            a, b = rat(t[2], atom)
            return _even(_pow(a, int(t[3][1])), _pow(b, int(t[3][1])), atom)
    if o == "call" and t[1] == ("builtin", "float") and len(t[2]) == 1 and not t[3]:
        return rat(t[2][0], atom)
    if o == "call" and t[1] == ("ext", "math.pow") and len(t[2]) == 2 and not t[3]:
        return rat(("bin", "**", t[2][0], t[2][1]), atom) if t[2][1][0] == "const" else ({((atom(t), 1),): Fraction(1)}, _const(1))
    return {((atom(t), 1),): Fraction(1)}, _const(1)


def same(a, b, atom=lambda x: x):
    """The two terms are the same rational function of the same atoms."""
    (n, d), (m, e) = rat(a, atom), rat(b, atom)
    return bool(d) and bool(e) and _mul(n, e) == _mul(m, d)


def value(t, atoms):
    """Value of a term for given values of atoms (a function, None when unknown)."""
    v = atoms(t)
    if v is not None:
        return v
    o = t[0]
    if o == "const":
        return Fraction(t[1]) if isinstance(t[1], (int, float, Fraction)) and not isinstance(t[1], bool) else None
    if o == "neg":
        x = value(t[1], atoms)
        return None if x is None else -x
    if o == "lin":
        out = Fraction(0)
        for k, c in t[1]:
            x = Fraction(1) if k == () else value(k, atoms)
            if x is None:
                return None
            out += Fraction(c) * x
        return out
    if o == "bin":
        a, b = value(t[2], atoms), value(t[3], atoms)
        if a is None or b is None:
            return None
        if t[1] == "/":
            return None if b == 0 else Fraction(a) / Fraction(b)
        f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "**": lambda: a ** b if b == int(b) and abs(b) < 9 else None}.get(t[1])
        return None if f is None else f()
    if o == "call" and t[1] == ("builtin", "float") and len(t[2]) == 1:
        return value(t[2][0], atoms)
    if o == "call" and t[1] == ("builtin", "abs") and len(t[2]) == 1:
        x = value(t[2][0], atoms)
        return None if x is None else abs(x)
    return None


def decide(key, atoms):
    """Truth of a condition for given values of atoms, None when unknown."""
    o = key[0]
    if o == "lt0":
        v = value(("lin", key[1]), atoms)
        return None if v is None else v < 0
    if o in ("eq", "is"):
        a, b = value(key[1], atoms), value(key[2], atoms)
        return None if a is None or b is None else a == b
    if o == "truthy":
        v = value(key[1], atoms)
        return None if v is None else v != 0
    if o == "isnone":
        return False if value(key[1], atoms) is not None else None
    return None
