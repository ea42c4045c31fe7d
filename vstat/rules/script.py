"""Protocol walks: a generator-driving function walked against every choice of its environment up to a depth.

The environment (what a driven generator hands over, how a yielded event ends, what a handler answers) is a
finite automaton; the walker forks on each of its choices instead of on anything concrete, and the resulting effect
sequence is compared with the one the protocol automaton of the property prescribes for the same choices.
"""
from __future__ import annotations

import ast

from ..engine import NONE, SELF, attr, is_attr, last_name


def env_term(tag, k):
    return ("env", tag, k)


def is_env(t, *tags):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "env" and (not tags or t[1] in tags)


class Env:
    """Oracle skeleton. Sub-classes define choices(kind, what, st) -> [(tag, outcome)] or None."""

    # tag -> class names the term is an instance of, its own class first
    KINDS: dict = {}

    def __init__(self, depth, prog):
        self.depth = depth
        self.prog = prog

    def __call__(self, kind, what, st):
        if kind == "cond":
            return self.cond(what, st)
        ch = self.choices(kind, what, st)
        if ch is None:
            return None
        n = st.heap.get(("scen", 0), 0)
        out = []
        if n >= self.depth:
            ch = [c for c in ch if c[2:]] or None
            if ch is None:
                return [(st.fork(), ("cut", None))]
        for c in ch:
            tag, (k, mk) = c[0], c[1]
            s = st.fork()
            s.heap[("scen", 0)] = n + 1
            t = mk(n, s) if callable(mk) else mk
            out.append((s, (k, t)))
        return out

    # -- decided conditions -----------------------------------------------------
    def cond(self, key, st):
        o = key[0]
        if o == "isinst":
            x, c = key[1], key[2]
            if is_env(x) and x[1] in self.KINDS:
                cs = c[1:] if c[0] == "tuple" else (c,)
                rs = [self.inst(x[1], last_name(y), y) for y in cs]
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
        if o == "isnone" and (is_env(key[1]) or self.member(key[1])):
            return False
        if o == "truthy" and self.member(key[1]):
            v = next((k.attrs[key[1][2]] for k in key[1][1][1].mro_classes if key[1][2] in k.attrs), None)
            if isinstance(v, ast.Constant):
                return bool(v.value)
        if o in ("eq", "is"):
            return self.equal(key[1], key[2])
        if o == "in":
            its = key[2][1:] if key[2][0] == "tuple" else st.heap.get(("items", key[2]))
            if its is not None:
                rs = [self.equal(key[1], x) for x in its]
                return None if None in rs else any(rs)
        return None

    def equal(self, a, b):
        if self.member(a) and self.member(b):
            return a[2] == b[2]
        for x, y in ((a, b), (b, a)):
            if self.member(x) and (y == NONE or is_env(y)):
                return False
        return None

    def inst(self, tag, cname, cterm):
        names = self.KINDS[tag]
        if cname in names:
            return True
        if cterm[0] == "class" and names:
            for k in self.prog.by_class.get(names[0], []):
                if cterm[1].is_sub(k):
                    return None  # a more special class
        return False

    @staticmethod
    def member(t):
        """Enumeration member: attribute of a class."""
        return isinstance(t, tuple) and len(t) == 3 and t[0] == "attr" and t[1][0] == "class"

    def choices(self, kind, what, st):
        raise NotImplementedError


def value(tag):
    return ("value", lambda k, s: env_term(tag, k))


def none():
    return ("value", NONE)


def exc(name, tag, **attrs):
    def mk(k, s):
        t = ("intr", name, tag, k)
        for a, v in attrs.items():
            s.heap[attr(t, a)] = v(k) if callable(v) else v
        return t
    return ("raise", mk)


def stop(tag):
    """A driven generator returns: StopIteration with the returned value."""
    if tag is None:
        return exc("StopIteration", "none", value=NONE)
    return exc("StopIteration", tag, value=lambda k: env_term(tag, k))


class Script:
    """The effects of one path, consumed in order by a reference automaton."""

    def __init__(self, p, keep):
        self.p = p
        self.evs = [e for e in p.events if keep(e)]
        self.i = 0

    def peek(self):
        return self.evs[self.i] if self.i < len(self.evs) else None

    def take(self):
        e = self.peek()
        self.i += 1
        return e

    def done(self):
        return self.i >= len(self.evs)
