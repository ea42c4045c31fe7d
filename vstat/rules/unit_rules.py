"""C32: unit conversions."""
from __future__ import annotations

import ast
from fractions import Fraction

from ..api import Ctx, prop
from ..fold import Fold, Raised, Sym, Unknown
from ..model import AnalysisBroken

# names of the documentation, and what one of each is in metres or seconds
LENGTH = {"m": Fraction(1), "km": Fraction(1000), "mi": Fraction("1609.344"), "nmi": Fraction(1852), "ft": Fraction("0.3048")}
TIME = {"s": Fraction(1), "min": Fraction(60), "hr": Fraction(3600), "day": Fraction(86400), "week": Fraction(604800)}
OTHER = {"second": "s", "seconds": "s", "minute": "min", "minutes": "min", "hour": "hr", "hours": "hr", "days": "day", "weeks": "week"}
WRONG = ["parsec", "", "ticks", "furlong", "kilometers_", "kmm", "secs_", "months"]
CLOSE = Fraction(1, 20000)


@prop("C32")
def units(ctx: Ctx):
    prog = ctx.prog
    f = prog.func("units.convert:unit_convert")
    fold = Fold(prog, f.module).load()
    ctx.functions |= {f.qual, f"{f.module.name}:<module>"}
    kinds = {**{u: ("length", v) for u, v in LENGTH.items()}, **{u: ("time", v) for u, v in TIME.items()}}
    spell = {u: u for u in kinds} | OTHER
    spell |= {u.upper(): c for u, c in list(spell.items())} | {u.title(): c for u, c in list(spell.items())}
    extra = set()
    for v in fold.g.values():    # names the tables accept besides
        if isinstance(v, dict) and all(isinstance(k, str) for k in v):
            extra |= {k for k in v if k not in spell}
    ctx.rule("C32.closed", "every unit converts to every unit of its kind, whichever accepted spelling is used", 400)
    ctx.rule("C32.linear", "a conversion multiplies the value by a constant that does not depend on it", 400)
    ctx.rule("C32.size", "the factor is the ratio of the units' sizes", 400)
    ctx.rule("C32.self", "a unit converts to itself unchanged", 10)
    ctx.rule("C32.back", "converting forth and back returns the value", 45)
    ctx.rule("C32.wrong", "unknown units, and units of different kinds, raise ValueError", 100)
    ctx.rule("C32.calls", "the package names only convertible units", 10)
    x = Sym("value")

    def conv(a, b):
        """-> Sym | exception name"""
        try:
            return fold.call(f, [x, a, b])
        except Raised as r:
            return r.name
        except Unknown as u:
            raise AnalysisBroken(f"{f.loc}: converting {a} to {b} is not a constant factor: {u}") from None

    fac = {}
    for a, ca in spell.items():
        for b, cb in spell.items():
            r = conv(a, b)
            (ka, va), (kb, vb) = kinds[ca], kinds[cb]
            c = f"{ca}->{cb}"
            if ka != kb:
                ctx.check(r == "ValueError", "C32.wrong", c, f"converting {a} to {b} gives {show(r)} instead of raising ValueError", f.loc)
                continue
            if isinstance(r, str):
                ctx.bad("C32.closed", c, f"converting {a} to {b} raises {r}", f.loc)
                continue
            ctx.ok("C32.closed", c)
            if not isinstance(r, Sym):
                ctx.bad("C32.linear", c, f"converting {a} to {b} gives {show(r)}", f.loc)
                continue
            ctx.ok("C32.linear", c)
            fac.setdefault((ca, cb), {})[(a, b)] = r.k
            want = va / vb
            ctx.check(abs(r.k / want - 1) <= CLOSE, "C32.size", c, f"converting {a} to {b} multiplies by {float(r.k):.9g}, not {float(want):.9g}", f.loc)
    for (a, b), ks in fac.items():
        if len(set(ks.values())) > 1:
            ctx.bad("C32.size", f"{a}->{b}", "the factor depends on how the units are spelled", f.loc)
        k = ks.get((a, b))
        if a == b:
            ctx.check(k == 1, "C32.self", a, f"one {a} becomes {show(k)} {a}", f.loc)
        back = fac.get((b, a), {}).get((b, a))
        if k is not None and back is not None:
            ctx.check(abs(k * back - 1) < Fraction(1, 10**9), "C32.back", f"{a}<->{b}", f"one {a} becomes {float(k * back):.12g} {a} by way of {b}", f.loc)
    for w in WRONG:
        for u in kinds:
            for a, b in ((w, u), (u, w)):
                r = conv(a, b)
                ctx.check(r == "ValueError", "C32.wrong", f"{w!r}/{u}", f"converting {a!r} to {b!r} gives {show(r)} instead of raising ValueError", f.loc)
        r = conv(w, w)
        ctx.check(r == "ValueError", "C32.wrong", f"{w!r}", f"converting {w!r} to itself gives {show(r)} instead of raising ValueError", f.loc)
    for e in sorted(extra):    # further names must be closed too
        got = {u: conv(e, u) for u in kinds}
        if all(isinstance(v, str) for v in got.values()):
            continue
        for u, v in got.items():
            if isinstance(v, Sym):
                r = conv(u, e)
                ctx.check(isinstance(r, Sym) and abs(r.k * v.k - 1) < Fraction(1, 10**9), "C32.back", f"{e}<->{u}",
                          f"{e} converts to {u} but back gives {show(r)}", f.loc)
    # names given by the package itself
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) == "unit_convert":
                for a in (*n.args[1:3], *(k.value for k in n.keywords)):
                    if isinstance(a, ast.Constant) and isinstance(a.value, str):
                        ctx.check(a.value.lower() in spell, "C32.calls", f"{m.name}:{n.lineno}", f"`{ast.unparse(n)}` names an unknown unit",
                                  f"{m.rel}:{n.lineno}")
                    else:
                        ctx.ok("C32.calls", m.name)


def show(r):
    return f"the value times {float(r.k):.9g}" if isinstance(r, Sym) else float(r) if isinstance(r, Fraction) else repr(r)
