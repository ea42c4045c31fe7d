"""C05 assignment, C06 recording, C37 resource states."""
from __future__ import annotations

from ..api import Ctx, prop
from ..engine import (FALSE, NONE, SELF, TRUE, attr, call_name, contains, has_attr, is_attr, last_name, same, show,
                      strip_iter, subterms)
from ..model import AnalysisBroken
from .h import *

KV = ("_KeyValueBase", "ResourceState")


def plain_states(prog):
    """State and its subclasses whose value is assigned as a whole."""
    S = prog.cls("State")
    out = [c for c in prog.subclasses(S) if not any(c.is_sub(k) for k in KV)]
    return sorted(out, key=lambda c: c.name)


def record_facts(p, upto=None):
    fx = facts(p, upto)
    return fx


def is_recording(p, attrname="_recording"):
    """Truth of self._recording on the path (None: never asked)."""
    fx = facts(p)
    for k, v in fx.items():
        if k[0] == "truthy" and (is_attr(k[1], attrname, SELF) or is_attr(k[1], "is_recording", SELF)):
            return v
    return None


def hist_of(owner, key):
    return sub(attr(owner, "_state_histories"), key)


def last_entry(t, owner, key):
    """t is the last entry of owner's history `key`."""
    h = hist_of(owner, key)
    return t == sub(h, C(-1)) or (t[0] == "sub" and same(t[1], h) and t[2] == C(-1)) or (
        t[0] == "sub" and t[1][0] == "call" and t[1][1][0] == "attr" and t[1][1][2] in ("setdefault", "get")
        and is_attr(t[1][1][1], "_state_histories", owner) and t[1][2][0] == key and t[2] == C(-1))


def equality_with_last(p, owner, key, entry, upto=None):
    """Outcome of the comparison of the new entry with the last one (None: not compared)."""
    for e in p.events:
        if e is upto:
            break
        if e.kind != "cond":
            continue
        t = e.term
        if t[0] == "eq":
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if a == entry and last_entry(b, owner, key):
                    return e.pol
        if t[0] == "truthy" and t[1][0] == "call" and len(t[1][2]) == 2:
            a, b = t[1][2]
            if (a == entry and last_entry(b, owner, key)) or (b == entry and last_entry(a, owner, key)):
                return e.pol
    return None


def empty_history(p, owner, key):
    fx = facts(p)
    for k, v in fx.items():
        if k[0] == "in" and k[1] == key and is_attr(k[2], "_state_histories", owner):
            return not v
        if k[0] in ("truthy", "isnone") and (same(k[1], hist_of(owner, key)) or (
                k[1][0] == "call" and k[1][1][0] == "attr" and k[1][1][2] in ("get", "setdefault")
                and is_attr(k[1][1][1], "_state_histories", owner) and k[1][2][0] == key)):
            return (not v) if k[0] == "truthy" else v
    return None


def entry_justified(p, owner, key, entry, dup=("_record_duplicates",), ev=None):
    """None when keeping (ev given) or dropping (ev None) the entry is what the record rule says, else text."""
    empty = empty_history(p, owner, key)
    fx = facts(p)
    dups = [v for k, v in fx.items() if k[0] == "truthy" and k[1][0] == "attr" and k[1][1] == SELF and k[1][2] in dup]
    eqv = equality_with_last(p, owner, key, entry)
    raised_cmp = any(e.kind == "call" and e.raised for e in p.events)
    if ev is not None:
        if empty is True or True in dups or eqv is False:
            return None
        if eqv is None and empty is None and not dups:
            return "an entry is added without asking whether it repeats the last one"
        if eqv is True:
            return "an entry equal to the last one is added although duplicates are not wanted"
        if raised_cmp or eqv is None and empty is False and not dups:
            return None if raised_cmp else "an entry is added without comparing it with the last one"
        return None if eqv is None and raised_cmp else "an entry is added without comparing it with the last one"
    if empty is True:
        return "the first entry of a history is dropped"
    if True in dups:
        return "an entry is dropped although duplicates are wanted"
    if eqv is not True:
        return "an entry is dropped although it is not equal to the last one"
    return None


def copied(t, value):
    """t is a deep copy of value."""
    return t[0] == "call" and last_name(t[1]) == "deepcopy" and t[2] and t[2][0] == value


def recorder_events(p, owner):
    """Calls of recording functions: (event, function term) in order."""
    out = []
    for e in p.events:
        if e.kind == "call" and e.fn is not None and contains(e.fn, lambda x: is_attr(x, "_recording_functions", SELF)) \
                and e.fn[0] in ("sub", "elem", "call") and not creates_recorder(p, e):
            out.append(e)
    return out


def creates_recorder(p, e):
    """A recording class is instantiated, or the actor's own recorders are looked up."""
    if e.fn[0] == "sub" and e.fn[2] == C(0) and not e.all_args():
        return facts(p).get(("isinst", e.fn, ("builtin", "type"))) is True
    return False


def recorder_key(fn):
    """The name under which the results of a recording function are kept."""
    found = [x for x in subterms(fn) if x[0] == "sub" and x[2] in (C(0), C(1)) and is_cb_iter(x[1], "_recording_functions")]
    return sub(found[0][1], C(1)) if found else None


def callback_events(p):
    out = []
    for e in p.events:
        if e.kind == "call" and not e.raised and e.fn is not None and e.fn[0] in ("sub", "elem") \
                and contains(e.fn, lambda x: is_attr(x, "_change_callbacks", SELF)):
            out.append(e)
    return out


def is_cb_iter(t, name="_change_callbacks"):
    return contains(t, lambda x: is_attr(x, name, SELF))


@prop("C05")
def c05(cx: Ctx):
    prog = cx.prog
    cx.rule("C05.guard", "a value is stored only when the state is not frozen (or holds nothing yet) and the value has an "
                         "accepted type", 4)
    cx.rule("C05.reject", "an assignment that raises has stored, recorded and announced nothing", 4)
    cx.rule("C05.store", "every accepted assignment stores exactly the given value, once, before anything is told of it", 4)
    cx.rule("C05.record", "every accepted assignment of a recording state records it, after storing and before announcing", 4)
    cx.rule("C05.callbacks", "every change callback is called exactly once with the actor and the stored value", 4)
    cx.rule("C05.nucleus", "the actor's nucleus, if any, is told exactly once the state's name and the stored value", 4)
    for K in plain_states(prog):
        f = prog.method(K, "__set__")
        inst, val = par(f, 0), par(f, 1)
        d = attr(inst, "__dict__")
        name = attr(SELF, "name")
        ps = cx.paths(f, K, opaque={"_mover_not_detectable", "_mover_became_detectable"})
        iters = {"0": False, "1": False}
        flags = {r: None for r in ("C05.guard", "C05.reject", "C05.store", "C05.record", "C05.callbacks", "C05.nucleus")}

        def bad(rule, msg, p, loc=f.loc):
            if flags[rule] is None:
                flags[rule] = (msg, p, loc)

        for p in ps:
            stores = value_store(p, inst)
            apps = history_appends(p)
            cbs = callback_events(p)
            sends = p.calls("send_change")
            if not completes(p):
                if p.outcome == "raise" and (stores or apps or cbs or sends):
                    # a failure after the store is only acceptable when it is a missing environment
                    env = any(k[0] == "isnone" and v and "env" in show(k[1]) for k, v in facts(p).items())
                    if not env:
                        bad("C05.reject", f"raises {exc_name(p.value)} after it already acted on the assignment", p)
                continue
            if len(stores) != 1 or stores[0][1] != val:
                bad("C05.store", f"the value is stored {len(stores)} times" if len(stores) != 1 else
                    f"{show(stores[0][1])} is stored instead of the given value", p)
                continue
            se = stores[0][0]
            fx = facts(p, se)
            frozen_ok = any(k[0] == "truthy" and is_attr(k[1], "_frozen", SELF) and not v for k, v in fx.items()) or any(
                (k[0] == "isnone" and v and contains(k[1], d)) or (k[0] == "in" and k[1] == name and k[2] == d and not v)
                for k, v in fx.items())
            if not frozen_ok:
                bad("C05.guard", "a frozen state that holds a value can be overwritten", p, se.loc)
            typed = any(k[0] == "truthy" and is_attr(k[1], "_types", SELF) and not v for k, v in fx.items()) or any(
                k[0] == "isinst" and k[1] == val and is_attr(k[2], "_types", SELF) and v for k, v in fx.items())
            if not typed:
                bad("C05.guard", "a value of a wrong type can be stored", p, se.loc)
            si = p.index(se)
            ann = [e for e in cbs + sends]
            rec = is_recording(p)
            mine = [(e, o, k, x) for e, o, k, x in apps if k == name]
            if rec is None:
                bad("C05.record", "whether the state records is never asked", p)
            if rec and len(mine) > 1:
                bad("C05.record", "one assignment is recorded more than once", p)
            if not rec and apps:
                bad("C05.record", "a state that does not record adds to a history", p)
            if rec and not mine and equality_any(p, inst, name) is not True:
                bad("C05.record", "an assignment of a recording state is not recorded", p)
            if any(p.index(e) < si for e, *_ in apps) or any(p.index(e) < si for e in ann):
                bad("C05.store", "the change is recorded or announced before the value is stored", p)
            if apps and ann and max(p.index(e) for e, *_ in apps) > min(p.index(e) for e in ann):
                bad("C05.record", "the change is announced before it is recorded", p)
            its = [e for e in p.events if e.kind == "iter" and is_cb_iter(e.term)]
            loops = [e for e in p.events if e.kind == "loop" and is_cb_iter(e.term) and p.index(e) > si]
            if not loops:
                bad("C05.callbacks", "change callbacks are not run", p)
            if len(cbs) != len(its) or not full_loops(p, is_cb_iter) or any(list(e.args) != [inst, val] for e in cbs):
                bad("C05.callbacks", "a change callback is skipped, repeated or called with something else", p)
            fxa = facts(p)
            lis = next((not v for k, v in fxa.items() if k[0] == "isnone" and is_attr(k[1], "_state_listener", inst)), None)
            if lis is None:
                lis = next((v for k, v in fxa.items() if k[0] == "truthy" and is_attr(k[1], "_state_listener", inst)), None)
            good = [e for e in sends if is_attr(e.recv, "_state_listener", inst) and list(e.all_args()) == [name, val]]
            if lis is None or len(sends) != (1 if lis else 0) or len(good) != len(sends):
                bad("C05.nucleus", "the nucleus is not told exactly once of the state and its new value", p)
        for r, b in flags.items():
            if b:
                cx.bad(r, K.name, b[0], b[2], b[1])
            else:
                cx.ok(r, K.name)
        # the type and freeze errors exist
        cx.check(any(raises(p) and not value_store(p, inst) for p in ps), "C05.reject", K.name,
                 "no assignment is ever refused", f.loc)
    # key/value states: items
    cx.rule("C05.items", "an item of a key/value state is stored only after its type check, then recorded once under its key; "
                         "refused items change nothing", 2)
    D = prog.cls("_DictionaryProxy")
    f = prog.method(D, "__setitem__")
    key, val = par(f, 0), par(f, 1)

    def dpred(p):
        st = [e for e in p.events if e.kind == "write" and e.target == sub(attr(SELF, "_wrapped"), key)]
        rec = p.calls("_record_state")
        if not completes(p):
            return "a refused item has been stored or recorded" if st or rec else None
        if len(st) != 1 or st[0].value != val:
            return "the item is not stored once under its key"
        chk = [e for e in p.calls("_type_check") if e.arg(0, "value") == val and p.index(e) < p.index(st[0])]
        ok = [c for c in chk if facts(p, st[0]).get(("truthy", c.value)) is True or
              (c.arg(1, "throw", TRUE) == TRUE)]
        if not ok:
            return "the item is stored without having passed the type check"
        if len(rec) != 1 or p.index(rec[0]) < p.index(st[0]) or rec[0].arg(0, "instance") != attr(SELF, "instance") \
                or rec[0].arg(1, "key") != key or rec[0].arg(2, "all", FALSE) != FALSE:
            return "the item is not recorded once, under its key, after being stored"
        return None

    cx.each_path("C05.items", "dictionary item", f, cx.paths(f, D), dpred, "setting an item")
    f = prog.method(D, "setdefault")
    key, val = par(f, 0), par(f, 1)

    def sdpred(p):
        w = attr(SELF, "_wrapped")
        has = facts(p).get(("in", key, w))
        st = [e for e in p.events if e.kind == "write" and e.target == sub(w, key)]
        rec = p.calls("_record_state")
        if not completes(p):
            return None if not st else "a refused item has been stored"
        if has is True:
            return "an existing item is overwritten" if st or rec or p.value != sub(w, key) else None
        if has is False:
            return None if len(st) == 1 and st[0].value == val and p.value in (val, sub(w, key)) and len(rec) == 1 else \
                "a missing item is not stored, recorded and returned"
        return "whether the item exists is not asked"

    cx.each_path("C05.items", "dictionary setdefault", f, cx.paths(f, D), sdpred, "setting a default")
    P_ = prog.cls("_DataclassProxy")
    f = prog.method(P_, "__setattr__")
    key, val = par(f, 0), par(f, 1)

    def aspred(p):
        w = attr(SELF, "_wrapped")
        st = [e for e in p.calls("setattr") if e.arg(0) == w]
        rec = p.calls("_record_state")
        sup = [e for e in p.calls("__setattr__")]
        if not completes(p):
            return "a refused value has been stored or recorded" if st or rec or sup else None
        if sup:
            return "internal attributes are recorded" if st or rec else None
        if not st:
            return "recorded without being stored" if rec else (
                None if any(k[0] == "truthy" and k[1][0] == "call" and last_name(k[1][1]) in ("hasattr", "is_dataclass")
                            and not v for k, v in facts(p).items()) else "the value is dropped")
        if len(st) != 1 or list(st[0].args) != [w, key, val]:
            return "the value is not stored once in its field"
        if not any(k[0] == "isinst" and k[1] == val and v for k, v in facts(p, st[0]).items()):
            return "the value is stored without a type check"
        if len(rec) != 1 or p.index(rec[0]) < p.index(st[0]) or rec[0].arg(0, "instance") != attr(SELF, "_inst") \
                or rec[0].arg(1, "key") != key or rec[0].arg(2, "all", FALSE) != FALSE:
            return "the field is not recorded once, under its name, after being stored"
        return None

    cx.each_path("C05.items", "dataclass field", f, cx.paths(f, P_), aspred, "setting a field")
    # whole key/value states
    cx.rule("C05.once", "a key/value state is assigned once: a second assignment raises and changes nothing, and every item "
                        "is type checked before the value is stored", 2)
    for K in sorted(prog.subclasses(prog.cls("_KeyValueBase"), strict=True), key=lambda c: c.name):
        f = prog.method(K, "__set__")
        inst, val = par(f, 0), par(f, 1)
        d = attr(inst, "__dict__")

        def kvpred(p):
            st = value_store(p, inst)
            fx = facts(p)
            was = next((v for k, v in fx.items() if k[0] == "in" and k[1] == attr(SELF, "name") and k[2] == d), None)
            if was is None:
                return "whether the state is already set is not asked"
            if not completes(p):
                if st and p.outcome == "raise" and not any(k[0] == "isnone" and v and "env" in show(k[1]) for k, v in fx.items()):
                    return f"raises {exc_name(p.value)} after the value was stored"
                if was and not raises(p):
                    return "a second assignment fails by accident"
                return None
            if was:
                return "a second assignment is accepted"
            if len(st) != 1:
                return f"the value is stored {len(st)} times"
            v = st[0][1]
            si = p.index(st[0][0])
            after = [e for e in p.events[si:] if e.kind == "write" and (e.target[0] == "sub" and (
                e.target[1] == v or e.target[1] == sub(d, attr(SELF, "name"))))]
            if after:
                return "items are added after the value was stored and may fail their check"
            if v == val:
                if not any(k[0] == "isinst" and k[1] == val and is_attr(k[2], "_types", SELF) and b for k, b in fx.items()) and \
                        not any(k[0] == "truthy" and is_attr(k[1], "_types", SELF) and not b for k, b in fx.items()):
                    return "the value is stored without a type check"
            rec = is_recording(p, "_record_indiv")
            if rec is None:
                return "the initial items are not recorded"
            apps = history_appends(p)
            if any(p.index(e) < si for e, *_ in apps):
                return "items are recorded before the value is stored"
            return None

        cx.each_path("C05.once", K.name, f, cx.paths(f, K, opaque={"_make_resource"}), kvpred, "assigning the state")


def equality_any(p, owner, key):
    """Outcome of any comparison against the last entry of the history."""
    for e in p.events:
        if e.kind == "cond" and e.term[0] in ("eq", "truthy") and contains(
                e.term, lambda x: x[0] == "sub" and x[2] == C(-1) and contains(x[1], key)):
            return e.pol
    return None


def check_recording(cx, rid, construct, func, paths, owner, main_key, main_value, rec_attr, dup, func_value=None,
                    copy_needed=True):
    """On every completing path: histories get exactly the entries the record rule allows."""

    def pred(p):
        if not completes(p):
            return None
        rec = is_recording(p, rec_attr)
        apps = history_appends(p)
        if rec is None:
            return "whether the state records is never asked"
        if not rec:
            return "a non-recording state adds to a history" if apps or recorder_events(p, owner) else None
        for e, o, k, x in apps:
            if o != owner:
                return f"the entry goes to {show(o)}", e.loc
            tv = tup(x, 2) if x is not None else None
            if tv is None:
                return "a history entry is not a (time, value) pair", e.loc
            if not is_now(tv[0], owner):
                return f"an entry is stamped {show(tv[0])} instead of the current time", e.loc
            r = entry_justified(p, owner, k, x, dup, e)
            if r:
                return r, e.loc
        return None

    return cx.each_path(rid, construct, func, paths, pred, "recording")


def recording_asked(cx):
    """Every kind of state keeps what its declaration asks to keep, from the declaration to the history."""
    from .. import value as V
    from .data_rules import user_class
    prog = cx.prog
    cx.rule("C06.asked", "a state keeps a history only if its declaration asks for one, and keeps repeats only if it asks for them", 20)
    S = prog.cls("State")
    need = {"modes": "voice", "kind": None}
    for m in prog.modules.values():
        for K in m.classes.values():
            if S not in K.mro or K.name.startswith("_"):
                continue
            names = {}
            for c in K.mro:
                g = getattr(c, "methods", {}).get("__init__")
                if g is not None:
                    a = g.node.args
                    names = {x.arg: True for x in (*a.args[1:], *a.kwonlyargs)}
                    at = g
                    miss = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
                    break
            if "recording" not in names:
                continue
            f = at
            for rec in (None, False, True):
                for dup in (None, False, True):
                    if rec is not None and "recording" not in names or dup is not None and "record_duplicates" not in names:
                        continue
                    kw = {k: need.get(k) for k in miss}
                    kw |= {} if rec is None else {"recording": rec}
                    kw |= {} if dup is None else {"record_duplicates": dup}

                    def th(it):
                        st = it.construct(K, [], dict(kw))
                        st.attrs["name"] = "s"
                        held = V.Obj(user_class(prog, "Data", fields=["k"]), {"k": 5}) if "Dataclass" in K.name else {"k": 5}
                        who = V.Obj(user_class(prog, "Mine", prog.cls("Actor")), {"_state_histories": {}, "s": held}, "who")
                        it.who = who
                        keyed = any("_record_state" in getattr(c, "methods", {}) for c in K.mro)
                        for _ in range(2):
                            if keyed:
                                it.call(it.getattr(st, "_record_state"), [who], {"key": "k"})
                            else:
                                it.call(it.getattr(st, "_do_record"), [who, 5], {})
                        return None
                    want = 0 if not rec else 2 if dup else 1
                    why = None
                    for r in V.explore(prog, th, oracle=lambda k, it: None, intercept={
                            ("attr", "__dict__"): lambda it, o: o.attrs, ("attr", "env"): lambda it, o: V.Obj("simpy.Environment", {"now": 3})}):
                        n = sum(len(h) for h in r.it.who.attrs["_state_histories"].values()) if r.outcome == "return" else repr(r.value)
                        if n != want:
                            why = f"declared with {kw or 'nothing'} and given one value twice at one time it keeps {n} entries, not {want}"
                    cx.check(not why, "C06.asked", f"{K.name} {kw}", why or "", f.loc)


@prop("C06")
def c06(cx: Ctx):
    prog = cx.prog
    cx.rule("C06.entry", "history entries are (current time, copy of the value), added once per recording unless equal to the "
                         "last entry of that history and duplicates are unwanted", 6)
    cx.rule("C06.value", "what is recorded under a state's name is a deep copy of the value set (or the marker given)", 6)
    cx.rule("C06.functions", "each recording function is called once per recording with the recorded time and value and its "
                             "result is kept under its own name by the same rule", 6)
    S = prog.cls("State")
    name = attr(SELF, "name")

    def functions_ok(p, owner, value_ok):
        its = [e for e in p.events if e.kind == "iter" and contains(e.term, lambda x: is_attr(x, "_recording_functions", SELF))]
        loops = [e for e in p.events if e.kind == "loop" and contains(e.term, lambda x: is_attr(x, "_recording_functions", SELF))]
        calls = recorder_events(p, owner)
        if not loops:
            return "recording functions are not run"
        if len(calls) != len(its) or not full_loops(p, lambda t: is_cb_iter(t, "_recording_functions")):
            return "a recording function is skipped or called twice"
        for c in calls:
            a = c.all_args()
            if len(a) != 2 or not is_now(a[0], owner) or not value_ok(a[1]):
                return f"a recording function is called with ({', '.join(map(show, a))})"
            key = recorder_key(c.fn)
            mine = [(e, k, x) for e, o, k, x in history_appends(p) if x is not None and contains(x, c.value)]
            if len(mine) > 1:
                return "a recording function's result is kept twice"
            for e, k, x in mine:
                if key is not None and k != key:
                    return f"a recording function's result is kept under {show(k)}"
                if tup(x, 2) is None or tup(x, 2)[1] != c.value:
                    return "something else than the recording function's result is kept"
            if not mine:
                e0 = ("tuple", a[0], c.value)
                eqs = [e for e in p.events if e.kind == "cond" and e.pol and e.term[0] in ("eq", "truthy") and contains(e.term, c.value)]
                r = None
                if key is not None:
                    r = entry_justified(p, owner, key, e0, ("_record_duplicates",), None)
                elif not eqs:
                    r = "a recording function's result is dropped"
                if r:
                    return "for a recording function " + r
        return None

    targets = []
    for K in plain_states(prog):
        f = prog.method(K, "__set__")
        targets.append((K, f, par(f, 0), par(f, 1), f"{K.name}.__set__"))
    for K, f, inst, val, label in targets:
        ps = cx.paths(f, K, opaque={"_mover_not_detectable", "_mover_became_detectable"})
        check_recording(cx, "C06.entry", label, f, ps, inst, name, val, "_recording", ("_record_duplicates",))

        def vpred(p):
            if not completes(p) or not is_recording(p):
                return None
            mine = [(e, x) for e, o, k, x in history_appends(p) if k == name]
            for e, x in mine:
                if x is None or tup(x, 2) is None or not copied(tup(x, 2)[1], val):
                    return f"{show(x) if x else '?'} is recorded instead of a deep copy of the value", e.loc
            if not mine:
                # dropped: must be equal to the last
                cands = [c.term for c in p.events if c.kind == "cond" and c.term[0] == "eq" and c.pol and
                         contains(c.term, lambda t: t[0] == "call" and copied(t, val))]
                ent = next((y for t in cands for y in t[1:3] if tup(y, 2)), None)
                if ent is None:
                    return "the assignment is not recorded"
                return entry_justified(p, inst, name, ent, ("_record_duplicates",), None)
            return None

        cx.each_path("C06.value", label, f, ps, vpred, "recording")
        cx.each_path("C06.functions", label, f, ps,
                     lambda p: functions_ok(p, inst, lambda v: copied(v, val)) if completes(p) and is_recording(p) else None,
                     "recording functions")
    # recording a single item of a key/value state
    cx.rule("C06.items", "each recorded item goes under <state>.<key> with the item's value, one entry per item", 2)
    B = prog.cls("_KeyValueBase")
    for K in sorted(prog.subclasses(B, strict=True), key=lambda c: c.name):
        f = prog.method(K, "_record_state")
        inst, keyp = par(f, 0), par(f, 1)
        ps = cx.paths(f, K)
        check_recording(cx, "C06.entry", f"{K.name}._record_state", f, ps, inst, name, None, "_record_indiv",
                        ("_record_duplicates", "_record_indiv_dupe"))

        def ipred(p):
            if not completes(p) or not is_recording(p, "_record_indiv"):
                return None
            raw = sub(attr(inst, "__dict__"), name)
            items = [(e, k, x) for e, o, k, x in history_appends(p) if k[0] == "fstr" or (k[0] == "bin" and k[1] == "+")]
            for e, k, x in items:
                if not (contains(k, name) and contains(k, lambda t: t == C(".") or (t[0] == "const" and t[1] == "."))):
                    return f"an item is recorded under {show(k)}", e.loc
                v = tup(x, 2)[1] if x and tup(x, 2) else None
                ks = [s for s in subterms(k) if s in (keyp,) or s[0] in ("elem", "sub", "attr") and s != name]
                kt = next((s for s in k[1:] if isinstance(s, tuple) and s and isinstance(s[0], str) and s != name and s[0] != "const"), None)
                src = v[2][0] if v is not None and v[0] == "call" and last_name(v[1]) in ("deepcopy",) and v[2] else None
                if src is None:
                    return "an item is recorded without being copied", e.loc
                good = src == sub(raw, kt) or (src[0] in ("getattr",) and src[1] == raw) or (
                    src[0] == "call" and last_name(src[1]) == "getattr" and src[2][0] == raw and src[2][1] == kt)
                if not good:
                    return f"{show(src)} is recorded for item {show(kt)}", e.loc
            al = facts(p).get(("truthy", par(f, 2)))
            its = [e for e in p.events if e.kind == "iter" and not contains(e.term, lambda x: is_attr(x, "_recording_functions", SELF))]
            n = 1 if not al or its else 0
            eqn = len([e for e in p.events if e.kind == "cond" and e.term[0] == "eq" and e.pol and contains(
                e.term, lambda t: t[0] == "fstr")])
            if len(items) + eqn != n:
                return f"{len(items)} entries for {n} recorded items"
            return None

        cx.each_path("C06.items", f"{K.name}._record_state", f, ps, ipred, "recording items")
        cx.each_path("C06.functions", f"{K.name}._record_state", f, ps,
                     lambda p: functions_ok(p, inst, lambda v: copied(v, sub(attr(inst, "__dict__"), name)))
                     if completes(p) and is_recording(p, "_record_indiv") else None, "recording functions")
    # wiring of the constructor options
    cx.rule("C06.options", "the recording options of the constructor are the ones the recording code consults", 3)

    def opt(K, ctor_param, attrs, allow_const=()):
        f = prog.method(K, "__init__")
        want = P(ctor_param)
        for p in cx.paths(f, K):
            if not completes(p):
                continue
            got = {}
            for e in p.events:
                if e.kind == "write" and e.target[0] == "attr" and e.target[1] == SELF and e.target[2] in attrs:
                    got[e.target[2]] = e.value
            if got.get(attrs[0]) != want:
                cx.bad("C06.options", f"{K.name}:{ctor_param}", f"{attrs[0]} is {show(got.get(attrs[0]))}, not the {ctor_param} "
                       "asked for", f.loc, p)
                return
        cx.ok("C06.options", f"{K.name}:{ctor_param}")

    opt(S, "recording", ["_recording"])
    opt(S, "record_duplicates", ["_record_duplicates"])
    opt(B, "recording", ["_record_indiv"])
    # whichever option the item recorder consults for duplicates must be the one asked for
    rs = prog.method(B, "_record_state")
    used = {k[1][2] for p in cx.paths(rs, prog.cls("DictionaryState")) for k, v in p.conds() if k[0] == "truthy" and is_attr(
        k[1], k[1][2] if len(k[1]) == 3 and isinstance(k[1][2], str) else "", SELF) and k[1][2] in ("_record_duplicates", "_record_indiv_dupe")}
    for u in sorted(used):
        opt(B, "record_duplicates", [u])
    for K in plain_states(prog):
        f = prog.cls(K.name).find("__init__")
        if f is not None and "recording" in params(f) and K is not S:
            opt(K, "recording", ["_recording"])
    # explicit recording
    f = prog.method("Actor", "record_state")
    sname = par(f, 0)

    def rpred(p):
        rec = p.calls("_do_record")
        known = next((v for k, v in facts(p).items() if k[0] == "in" and k[1] == sname), None)
        if known is False:
            return None if raises(p) and not rec else "an unknown state is accepted"
        if not completes(p):
            return None
        if len(rec) != 1:
            return "the state is not recorded once"
        e = rec[0]
        ok = e.recv == sub(attr(SELF, "_state_defs"), sname) and e.arg(0) == SELF and (
            e.arg(1)[0] == "call" and last_name(e.arg(1)[1]) == "getattr" and list(e.arg(1)[2][:2]) == [SELF, sname])
        return None if ok else "something else than the state's current value is recorded"

    cx.rule("C06.explicit", "recording a state on request records its current value, and unknown names raise", 1)
    cx.each_path("C06.explicit", "Actor.record_state", f, cx.paths(f, prog.cls("Actor")), rpred, "record_state")
    recording_asked(cx)


def asks_copy(p, val, upto):
    """The kind is looked up in a copy of the description made entry by entry, which leaves out other entries only."""
    copied = False
    for e in p.events:
        if e is upto:
            break
        if e.kind == "loop":
            t = strip_iter(e.term)
            copied = copied or t == val or t[0] == "call" and t[1] == attr(val, "items")
        elif e.kind == "cond" and contains(e.term, C("kind")) and any(x[0] in ("elem", "each") for x in subterms(e.term) if isinstance(x, tuple) and x):
            return False
        elif copied and e.kind == "call" and e.name == "get" and e.recv is not None and e.recv[0] == "new" and e.recv[2] == "dict" and e.args[:1] == (C("kind"),) and \
                len(e.args) == 2 and is_attr(e.args[1], "_default", SELF):
            return True
    return False


@prop("C37")
def c37(cx: Ctx):
    prog = cx.prog
    cx.rule("C37.once", "a second assignment of a resource state raises and keeps the first resource", 1)
    cx.rule("C37.kind", "a resource is built from the described kind, else the default, checked against the accepted kinds", 1)
    cx.rule("C37.kwargs", "it is built with the actor's clock and the default arguments overridden by the described ones, "
                          "without the kind", 1)
    cx.rule("C37.object", "a resource object is accepted only when it is of an accepted kind and is stored itself", 1)
    cx.rule("C37.input", "the given description and the default arguments are never modified", 1)
    cx.rule("C37.memory", "the arguments used are remembered for cloning", 1)
    for K in sorted([c for c in prog.subclasses(prog.cls("ResourceState"))], key=lambda c: c.name):
        f = prog.method(K, "__set__")
        inst, val = par(f, 0), par(f, 1)
        d = attr(inst, "__dict__")
        comm = K.is_sub("CommunicationStore")
        ps = cx.paths(f, K)
        flags = {}

        def bad(rule, msg, p, loc=None):
            flags.setdefault(rule, (msg, p, loc or f.loc))

        seen_kinds = set()
        for p in ps:
            fx = facts(p)
            was = next((v for k, v in fx.items() if k[0] == "in" and (
                (k[1] == inst and is_attr(k[2], "_been_set", SELF)) or (k[1] == attr(SELF, "name") and k[2] == d))), None)
            st = value_store(p, inst)
            for e in p.events:
                if e.kind in ("write", "del") and e.target[0] == "sub" and (e.target[1] == val or is_attr(e.target[1], "_default_kwargs", SELF)):
                    bad("C37.input", "the description is modified", p, e.loc)
                if e.kind == "call" and e.recv is not None and (e.recv == val or is_attr(e.recv, "_default_kwargs", SELF)) and \
                        e.name in ("pop", "update", "clear", "popitem", "setdefault", "__setitem__", "__delitem__"):
                    bad("C37.input", f"the description is modified by {e.name}", p, e.loc)
            if not completes(p):
                if st and raises(p):
                    bad("C37.once", "a refused assignment has already stored a resource", p)
                continue
            if was is not False:
                bad("C37.once", "a second assignment is accepted" if was else "whether the resource exists is not asked", p)
            if len(st) != 1:
                bad("C37.object", f"the resource is stored {len(st)} times", p)
                continue
            marked = any(e.kind == "call" and e.name == "add" and is_attr(e.recv, "_been_set", SELF) and e.arg(0) == inst
                         for e in p.events)
            asks_been = any(k[0] == "in" and is_attr(k[2], "_been_set", SELF) for k in fx)
            if asks_been and not marked:
                bad("C37.once", "the assignment is not remembered, a second one would be accepted", p)
            v = st[0][1]
            isdict = next((b for k, b in fx.items() if k[0] == "isinst" and k[1] == val and k[2] == ("builtin", "dict")), None)
            if v == val:
                seen_kinds.add("object")
                if isdict is not False:
                    bad("C37.object", "a description can be stored instead of a resource", p)
                if not any(k[0] == "isinst" and k[1] == val and is_attr(k[2], "_types", SELF) and b for k, b in fx.items()):
                    bad("C37.object", "an object of a wrong kind is accepted", p, st[0][0].loc)
                continue
            seen_kinds.add("built")
            ce = next((e for e in p.events if e.kind == "call" and not e.raised and e.value == v), None)
            if ce is None:
                bad("C37.kind", f"{show(v)} is stored", p)
                continue
            kind = ce.fn
            ok = kind[0] == "call" and kind[1][0] == "attr" and kind[1][2] == "get" and kind[2][0] == C("kind") and len(
                kind[2]) == 2 and is_attr(kind[2][1], "_default", SELF) and derived(p, val)(kind[1][1])
            ok = ok or is_attr(kind, "_default", SELF) or (kind[0] == "sub" and kind[2] == C("kind"))
            if not ok:
                bad("C37.kind", f"the resource is built by {show(kind)}", p, ce.loc)
            else:
                if is_attr(kind, "_default", SELF) and not any(k[0] == "in" and k[1] == C("kind") and not b or (
                        k[0] == "isnone" and b) for k, b in fx.items()) and not asks_copy(p, val, ce):
                    bad("C37.kind", "the default kind is used although another one is described", p, ce.loc)
            fxc = facts(p, ce)
            if not any(k[0] == "truthy" and is_attr(k[1], "_types", SELF) and not b for k, b in fxc.items()) and not any(
                    b and k[0] == "truthy" and k[1][0] == "call" and last_name(k[1][1]) == "issubclass" and k[1][2][0] == kind
                    and is_attr(k[1][2][1], "_types", SELF) for k, b in fxc.items()):
                bad("C37.kind", "the kind is not checked against the accepted ones", p, ce.loc)
            env = ce.arg(0)
            if env is None or not (env == attr(inst, "env") or (env[0] == "getattr" and env[1] == inst and env[2] == "env")):
                bad("C37.kwargs", f"the resource is built on {show(env)} instead of the actor's clock", p, ce.loc)
            kw = ce.kwargs.get("**")
            if kw is None:
                bad("C37.kwargs", "the described arguments are not passed on", p, ce.loc)
            else:
                r = kwargs_ok(p, ce, kw, val)
                if r:
                    bad("C37.kwargs", r, p, ce.loc)
            mem = [e for e in p.events if e.kind == "write" and e.target[0] == "sub" and e.target[1] == d and e.target[2] != attr(SELF, "name")
                   and contains(e.target[2], attr(SELF, "name")) and contains(e.target[2], lambda t: t[0] == "const" and "memory" in str(t[1]))]
            if len(mem) != 1:
                bad("C37.memory", "the arguments are not remembered", p)
        if seen_kinds != {"object", "built"}:
            bad("C37.object", "resource objects or descriptions are no longer accepted", ps[0])
        for r in ("C37.once", "C37.kind", "C37.kwargs", "C37.object", "C37.input", "C37.memory"):
            if r in flags:
                m, p, loc = flags[r]
                cx.bad(r, K.name, m, loc, p)
            else:
                cx.ok(r, K.name)
    # default arguments are copied from the caller
    cx.rule("C37.defaults", "default arguments are copied when the state is declared", 2)
    for k in ("ResourceState", "MultiStoreState"):
        K = prog.cls(k)
        f = prog.method(K, "__init__")

        def dpred(p):
            if not completes(p):
                return None
            w = [e for e in p.events if e.kind == "write" and e.target == attr(SELF, "_default_kwargs")]
            if len(w) != 1:
                return "default arguments are not kept"
            v = w[0].value
            if v == P("default_kwargs"):
                return "the caller's dictionary is kept instead of a copy"
            none = facts(p).get(("isnone", P("default_kwargs")))
            if none is False and not contains(v, P("default_kwargs")) and not (
                    w[0].items(v) and any(contains(i, P("default_kwargs")) for i in w[0].items(v))):
                return "the given default arguments are lost"
            return None

        cx.each_path("C37.defaults", k, f, cx.paths(f, K), dpred, "declaring the state")
    # multi stores
    cx.rule("C37.multi", "each described store of a multi-store state is built under its own name by the same rules", 1)
    K = prog.cls("MultiStoreState")
    f = prog.method(K, "_make_resource")
    env, inp = par(f, 0), par(f, 1)

    def mpred(p):
        if not completes(p):
            return None
        fx = facts(p)
        isdict = next((b for k, b in fx.items() if k[0] == "isinst" and k[1] == inp and k[2] == ("builtin", "dict")), None)
        if p.value == inp:
            if isdict is not False:
                return "a description is returned instead of a resource"
            return None
        ce = next((e for e in p.events if e.kind == "call" and not e.raised and e.value == p.value), None)
        if ce is None or isdict is not True:
            return f"{show(p.value)} is used as the resource"
        kind = ce.fn
        ok = (kind[0] == "call" and kind[1][0] == "attr" and kind[1][2] == "get" and kind[1][1] == inp and kind[2][0] == C("kind")
              and len(kind[2]) == 2 and is_attr(kind[2][1], "_default", SELF)) or is_attr(kind, "_default", SELF) or (
                  kind == sub(inp, C("kind")))
        if not ok:
            return f"the resource is built by {show(kind)}", ce.loc
        if ce.arg(0) != env:
            return "the resource is not built on the actor's clock", ce.loc
        kw = ce.kwargs.get("**")
        return (kwargs_ok(p, ce, kw, inp), ce.loc) if kw is None or kwargs_ok(p, ce, kw, inp) else None

    ps = cx.paths(f, K, opaque={"_type_checker"})
    cx.each_path("C37.multi", "make", f, ps, mpred, "building a resource")

    def tpred(p):
        if not completes(p):
            return None
        tc = p.calls("_type_checker")
        if len(tc) < 1:
            return "the kind of the resource is not checked"
        ce = next((e for e in p.events if e.kind == "call" and not e.raised and e.value == p.value), None)
        want = inp if p.value == inp else ce.fn if ce else None
        return None if any(e.arg(0) == want for e in tc) else "something else than the resource's kind is checked"

    cx.each_path("C37.multi", "kind", f, ps, tpred, "building a resource")
    f = prog.method(K, "__set__")
    inst, val = par(f, 0), par(f, 1)

    def spred(p):
        mk = p.calls("_make_resource")
        its = [e for e in p.events if e.kind == "iter" and contains(e.term, val) and not contains(e.term, lambda t: t[0] == "new")]
        for m in mk:
            if not contains(m.arg(0), attr(inst, "env")) and not contains(m.arg(0), lambda t: t[0] == "getattr" and t[1] == inst):
                return "a store is built on another clock", m.loc
        st = value_store(p, inst)
        if not completes(p) or not st:
            return None
        for m in mk:
            ws = [e for e in p.events if e.kind == "write" and e.target[0] == "sub" and e.value == m.value]
            comp = any(contains(x, m.value) for e in p.events for t in (e.value,) if t is not None and e.snap for x in (e.items(t) or ()))
            if not ws and not comp and not contains(st[0][1], m.value):
                return "a built store is not kept", m.loc
        return None

    cx.each_path("C37.multi", "set", f, cx.paths(f, K, opaque={"_make_resource"}), spred, "assigning a multi-store state")
    resource_kinds(cx)


def resource_kinds(cx):
    """Which resources and kinds of resources a resource state takes, for what its declaration allows."""
    from .. import value as V
    from .data_rules import user_class
    prog = cx.prog
    cx.rule("C37.kinds", "a resource, or a kind of resource, is taken exactly if it is of one of the declared types (any store or container where none is declared)", 40)

    def kind(name, *bases):
        c = user_class(prog, name, None)
        c.mro = [c, *bases]
        return c
    tank, depot = kind("Tank", "simpy.Container"), kind("Depot", "simpy.FilterStore", "simpy.Store")
    deep = kind("DeepTank", *tank.mro)
    for owner, many in (("ResourceState", False), ("MultiStoreState", True)):
        K = prog.cls(owner)
        for valid in ((tank,), (depot,), (deep,), (depot, tank), (tank, deep), None):
            for v in (tank, depot, deep):
                for built in (True, False):
                    def th(it):
                        it.intercept[("attr", "env")] = lambda it, o: V.Obj("simpy.Environment", {"now": 1})
                        st = it.construct(K, [], {} if valid is None else {"valid_types": valid})
                        st.attrs["name"] = "s"
                        who = V.Obj(user_class(prog, "Mine", prog.cls("Actor")), {"_state_listener": None, "_state_histories": {}}, "who")
                        what = V.Obj(v, {}, "thing") if built else {"kind": v}
                        it.call(it.getattr(st, "__set__"), [who, {"a": what} if many else what], {})
                        got = who.attrs.get("s")
                        got = got.get("a") if many and isinstance(got, dict) else got
                        return got is what if built else isinstance(got, V.Obj) and got.cls is v
                    want = valid is None or any(t in v.mro for t in valid)
                    why = None
                    for r in V.explore(prog, th, intercept={("attr", "__dict__"): lambda it, o: o.attrs}):
                        if r.outcome != ("return" if want else "raise") or want and r.value is not True:
                            why = "is refused" if want and r.outcome == "raise" else "is taken" if not want else "is not what the state holds then"
                    cx.check(not why, "C37.kinds", f"{owner} of {[t.name for t in valid] if valid else 'any type'}: a {v.name}{'' if built else ' by its kind'}", why or "",
                             prog.method(K, "__set__").loc)


def derived(p, val):
    """val and the dictionaries built from it on this path."""
    out = {val}
    for k in p.heap:
        if k[0] == "items" and k[1][0] == "new" and k[1][2] == "dict" and k[1][3] == "comp0":
            out.add(k[1])  # a filtered copy that happens to be empty
    for _ in range(3):
        for k, its in p.heap.items():
            if k[0] == "items" and its is not None and any(contains(x, lambda t: t in out) for x in its):
                out.add(k[1])
    return lambda t: t in out


def kwargs_ok(p, ce, kw, val):
    """kw = defaults updated with the description minus kind, in this order."""
    val = derived(p, val)
    its = ce.items(kw)
    if its is None:
        # a copy of the defaults updated by a call
        upd = [e for e in p.events if e.kind == "call" and e.name == "update" and e.recv == kw and p.index(e) < p.index(ce)]
        base_ok = contains(kw, lambda t: is_attr(t, "_default_kwargs", SELF))
        if not base_ok:
            return "the default arguments are not used"
        sets = [e for e in p.events if e.kind == "write" and e.target[0] == "sub" and e.target[1] == kw and p.index(e) < p.index(ce)]
        if not upd and (sets or any(e.kind == "loop" and contains(e.term, val) for e in p.events)):
            return pairs_ok([("each", ("tuple", e.target[2], e.value), None) for e in sets], val, p)
        if len(upd) != 1:
            return "the described arguments do not override the defaults"
        a = upd[0].arg(0)
        u = upd[0].items(a)
        if u is not None:
            return pairs_ok(u, val, p)
        return None if contains(a, val) else "the described arguments do not override the defaults"
    di = [i for i, x in enumerate(its) if contains(x, lambda t: is_attr(t, "_default_kwargs", SELF))]
    vi = [i for i, x in enumerate(its) if contains(x, val) and not contains(x, lambda t: is_attr(t, "_default_kwargs", SELF))]
    if not di:
        return "the default arguments are not used"
    if vi and min(vi) < max(di):
        return "the defaults override the described arguments"
    return pairs_ok([its[i] for i in vi], val, p)


def pairs_ok(items, val, p):
    for x in items:
        if x[0] == "each":
            t = tup(x[1], 2)
            if t is None:
                return "the described arguments are not passed on"
            k, v = t
            if not contains(v, val) or not contains(k, val):
                return "the described arguments are not passed on"
            if not any(c[0] == "eq" and C("kind") in c[1:] and not b for c, b in p.conds()):
                return "the kind is passed on as an argument"
        elif x[0] == "star" and val(x[1]) and p.heap.get(("items", x[1])) is not None:
            r = pairs_ok(p.heap[("items", x[1])], val, p)
            if r:
                return r
        elif x[0] == "star" and val(x[1]):
            if not any(e.kind == "call" and e.name == "pop" and e.args and e.args[0] == C("kind") for e in p.events) and not any(
                    e.kind == "del" and e.target[0] == "sub" and e.target[2] == C("kind") for e in p.events):
                return "the kind is passed on as an argument"
    return None
