"""C11 knowledge, C19 task queues."""
from __future__ import annotations

from ..api import Ctx, prop
from .h import *

K = attr(SELF, "_knowledge")


def _bulk_key(p, names):
    """Element term of the loop over names (None when the loop body was not entered)."""
    for e in p.events:
        if e.kind == "iter" and contains(e.term, lambda x: x == names):
            v = e.value
            return v
    return None


def set_pred(key, val, ow, p, knows=K):
    ops = [o for o in map_ops(p, knows)]
    if completes(p):
        if len(ops) != 1 or ops[0][:3] != ("store", key, val):
            return "the value is not stored exactly once under its name" if ops else "the value is not stored"
        e = ops[0][3]
        if has_key(p, knows, key, e) is not False and facts(p, e).get(truthy(ow)) is not True and ow != TRUE:
            return "existing knowledge is overwritten without permission"
        return None
    if ops:
        return "a refused value changes the knowledge"
    if raises(p) and not (has_key(p, knows, key) is True and facts(p).get(truthy(ow)) is False):
        return "raises although the name is free or overwriting was requested"
    return None


def remove_pred(key, p, knows=K):
    ops = map_ops(p, knows)
    if completes(p):
        if len(ops) != 1 or ops[0][0] not in ("remove", "pop", "popdef") or ops[0][1] != key:
            return "the knowledge is not removed exactly once"
        if has_key(p, knows, key, ops[0][3]) is False or (ops[0][0] == "popdef" and has_key(p, knows, key, ops[0][3]) is not True):
            return "absent knowledge is cleared without an error"
        return None
    if ops:
        return "an error leaves the knowledge changed"
    if raises(p) and has_key(p, knows, key) is not False:
        return "raises although the knowledge exists"
    return None


def value_pred(key, must, p, v, knows=K, gone=False):
    """v is what reading `key` gives; `must`: truth of must_exist on the path (None: not asked)."""
    k = has_key(p, knows, key)
    r = read_of(v, knows, key)
    if k is False:
        if must is not False:
            return "absent knowledge is read without an error"
        return None if v == NONE or r == "get" else f"absent knowledge reads as {show(v)}"
    if r is None:
        return f"returns {show(v)}"
    if r == "get" and k is None and must is not False:
        return "absent knowledge is read without an error"
    if r == "getdef" and k is not True:
        return "a default is invented for absent knowledge"
    if r in ("sub", "pop") and k is None and must is False:
        return "a plain read of absent knowledge fails"
    return None


@prop("C11")
def c11(cx: Ctx):
    prog = cx.prog
    A = prog.cls("Actor")
    cx.rule("C11.set", "knowledge is stored, unchanged, once, only when its name was found absent or overwriting was requested; "
                       "a refused value changes nothing", 2)
    cx.rule("C11.clear", "clearing removes exactly the named knowledge and raises, changing nothing, when it is absent", 2)
    cx.rule("C11.get", "a read returns the stored value, nothing when absent, and raises when it must exist", 2)
    cx.rule("C11.take", "get-and-clear returns the stored value read before it is removed, and raises when absent", 2)
    opq = {"_log_caller", "log"}
    f = prog.method(A, "set_knowledge")
    cx.each_path("C11.set", "set_knowledge", f, cx.paths(f, A, opaque=opq),
                 lambda p: set_pred(par(f, 0), par(f, 1), par(f, 2), p), "set_knowledge")
    g = prog.method(A, "set_bulk_knowledge")

    def bulk(fn, names, body):
        def pred(p):
            key = _bulk_key(p, names)
            if key is None:
                return "the entries are not visited" if completes(p) and not any(
                    e.kind == "loop" and contains(e.term, names) for e in p.events) else (
                    "the knowledge changes without an entry" if map_ops(p, K) else None)
            if not full_loops(p, lambda t: contains(t, names)):
                return "entries after the first are left out"
            return body(p, key)
        return pred

    know = par(g, 0)

    def sbody(p, key):
        el = key
        if el[0] == "tuple" and len(el) == 3:
            k, v = el[1], el[2]
        else:
            k, v = el, sub(know, el)
        return set_pred(k, v, par(g, 1), p)

    cx.each_path("C11.set", "set_bulk_knowledge", g, cx.paths(g, A, opaque=opq), bulk(g, know, sbody), "set_bulk_knowledge")
    f2 = prog.method(A, "clear_knowledge")
    cx.each_path("C11.clear", "clear_knowledge", f2, cx.paths(f2, A, opaque=opq), lambda p: remove_pred(par(f2, 0), p),
                 "clear_knowledge")
    g2 = prog.method(A, "clear_bulk_knowledge")
    cx.each_path("C11.clear", "clear_bulk_knowledge", g2, cx.paths(g2, A, opaque=opq),
                 bulk(g2, par(g2, 0), lambda p, key: remove_pred(key, p)), "clear_bulk_knowledge")
    f3 = prog.method(A, "get_knowledge")

    def getpred(key, mustp):
        def pred(p, v=None, k=None):
            kk = key if k is None else k
            if map_ops(p, K):
                return "reading changes the knowledge"
            must = facts(p).get(truthy(mustp))
            if completes(p):
                return value_pred(kk, must, p, p.value if v is None else v)
            if raises(p) and not (must is True and has_key(p, K, kk) is False):
                return "raises although the knowledge exists or need not"
            return None
        return pred

    cx.each_path("C11.get", "get_knowledge", f3, cx.paths(f3, A, opaque=opq), getpred(par(f3, 0), par(f3, 1)), "get_knowledge")
    g3 = prog.method(A, "get_bulk_knowledge")

    def gbody(p, key):
        v = None
        if completes(p):
            ps = pairs(p, p.value)
            if not ps or len(ps) != 1 or ps[0][0] != key:
                return "the result does not hold each name once"
            v = ps[0][1]
        return getpred(key, par(g3, 1))(p, v)

    cx.each_path("C11.get", "get_bulk_knowledge", g3, cx.paths(g3, A, opaque=opq), bulk(g3, par(g3, 0), gbody), "get_bulk_knowledge")

    def takepred(p, key, v):
        ops = map_ops(p, K)
        if not completes(p):
            return "an error leaves the knowledge changed" if ops else (
                "raises although the knowledge exists" if raises(p) and has_key(p, K, key) is not False else None)
        r = remove_pred(key, p)
        if r:
            return r
        r = read_of(v, K, key)
        if r is None:
            return f"returns {show(v)}"
        if r == "get":
            rd = [e for e in p.events if e.kind == "call" and e.value == v]
            if rd and p.index(rd[-1]) > p.index(ops[0][3]):
                return "the value is read after it was removed"
        return None

    f4 = prog.method(A, "get_and_clear_knowledge")
    cx.each_path("C11.take", "get_and_clear_knowledge", f4, cx.paths(f4, A, opaque=opq),
                 lambda p: takepred(p, par(f4, 0), p.value), "get_and_clear_knowledge")
    g4 = prog.method(A, "get_and_clear_bulk_knowledge")

    def tbody(p, key):
        v = NONE
        if completes(p):
            ps = pairs(p, p.value)
            if not ps or len(ps) != 1 or ps[0][0] != key:
                return "the result does not hold each name once"
            v = ps[0][1]
        return takepred(p, key, v)

    cx.each_path("C11.take", "get_and_clear_bulk_knowledge", g4, cx.paths(g4, A, opaque=opq), bulk(g4, par(g4, 0), tbody),
                 "get_and_clear_bulk_knowledge")
    # knowledge events
    cx.rule("C11.event", "a knowledge event is a new event stored under its name, refused when the name is taken (except while "
                         "rehearsing); succeeding it removes it and triggers it once with the payload, and raises when it is "
                         "absent or not an event", 2)
    f5 = prog.method(A, "create_knowledge_event")
    name = P("name")

    def cre(p):
        ops = map_ops(p, K)
        if not completes(p):
            return "a refused event is stored" if ops else None
        if len(ops) != 1 or ops[0][0] != "store" or ops[0][1] != name:
            return "the event is not stored once under its name"
        ev = ops[0][2]
        if p.value != ev or not ctor_of(ev, "Event"):
            return "the event returned is not the one stored"
        mk = [e for e in p.calls() if e.value == ev]
        if mk and mk[0].arg(None, "rehearsal_time_to_complete") != P("rehearsal_time_to_complete") and mk[0].arg(0) != P("rehearsal_time_to_complete"):
            return "the event does not get the rehearsal time"
        if has_key(p, K, name, ops[0][3]) is not False and facts(p).get(truthy(attr(SELF, "_is_rehearsing"))) is not True:
            return "existing knowledge is overwritten outside a rehearsal"
        return None

    cx.each_path("C11.event", "create", f5, cx.paths(f5, A, opaque=opq), cre, "create_knowledge_event")
    f6 = prog.method(A, "succeed_knowledge_event")

    def suc(p):
        ops = map_ops(p, K)
        su = [e for e in p.calls("succeed") if e.recv is not None and read_of(e.recv, K, name)]
        anysu = p.calls("succeed")
        if not completes(p):
            return "an error leaves the knowledge changed or the event triggered" if ops or anysu else None
        if len(anysu) != 1 or len(su) != 1:
            return "the stored event is not triggered exactly once"
        if not any(k[0] == "isinst" and k[1] == su[0].recv and v for k, v in facts(p).items()):
            return "something that is not an event is triggered"
        if not (su[0].kwargs.get("**") == P("kwargs") or P("kwargs") in su[0].all_args() or any(
                contains(x, P("kwargs")) for x in su[0].all_args())):
            return "the payload is not passed on"
        return remove_pred(name, p)

    cx.each_path("C11.event", "succeed", f6, cx.paths(f6, A, opaque=opq), suc, "succeed_knowledge_event")
    # the task wrappers
    cx.rule("C11.task", "the task's knowledge methods do to the given actor exactly what the actor's own do, once per name", 8)
    T = prog.cls("Task")
    single = {"set_actor_knowledge": ("set_knowledge", 3), "clear_actor_knowledge": ("clear_knowledge", 1),
              "get_actor_knowledge": ("get_knowledge", 2), "get_and_clear_actor_knowledge": ("get_and_clear_knowledge", 1)}
    bulks = {"set_actor_bulk_knowledge": "set_actor_knowledge", "clear_actor_bulk_knowledge": "clear_actor_knowledge",
             "get_actor_bulk_knowledge": "get_actor_knowledge",
             "get_and_clear_actor_bulk_knowledge": "get_and_clear_actor_knowledge"}

    def wrap(fn, opname, n):
        f = prog.method(T, fn)
        act = par(f, 0)
        tgt = prog.method(A, opname)
        names = params(tgt)

        def pred(p):
            es = [e for e in p.calls() if e.recv == act and e.name.find("knowledge") >= 0]
            if len(es) != 1 or es[0].name != opname:
                return f"does not call {opname} of the actor exactly once"
            e = es[0]
            got = [e.arg(i, names[i]) for i in range(n)]
            if got != [par(f, i + 1) for i in range(n)]:
                return "the arguments are not passed on unchanged"
            if opname.startswith("get") and p.value != e.value:
                return "the actor's answer is not returned"
            return None

        return f, pred

    for fn, (opname, n) in single.items():
        f, pred = wrap(fn, opname, n)
        cx.each_path("C11.task", fn, f, cx.paths(f, T), pred, fn)
    for fn, sname in bulks.items():
        f = prog.method(T, fn)
        act, names = par(f, 0), par(f, 1)
        opname, n = single[sname]
        tgt = params(prog.method(A, opname))
        bname = opname.replace("_knowledge", "_bulk_knowledge")

        def pred(p, f=f, act=act, names=names, opname=opname, n=n, tgt=tgt, bname=bname):
            es = [e for e in p.calls() if e.recv == act and e.name.find("knowledge") >= 0]
            if len(es) == 1 and es[0].name == bname:
                e = es[0]
                ok = e.arg(0, "names" if "know" not in params(prog.method(A, bname)) else "know") == names
                if "overwrite" in params(f):
                    ok = ok and e.arg(1, "overwrite") == P("overwrite")
                if "must_exist" in params(f):
                    ok = ok and e.arg(1, "must_exist") == P("must_exist")
                if opname.startswith("get") and p.value != e.value:
                    ok = False
                return None if ok else "the arguments or the answer are not passed on unchanged"
            el = _bulk_key(p, names)
            if el is None:
                return "knowledge changes without an entry" if es else (
                    None if any(e.kind == "loop" and contains(e.term, names) for e in p.events) else "the entries are not visited")
            if not full_loops(p, lambda t: contains(t, names)):
                return "entries after the first are left out"
            if len(es) != 1 or es[0].name != opname:
                return f"does not call {opname} once for each entry"
            e = es[0]
            want = list(el[1:]) if el[0] == "tuple" else ([el, sub(names, el)] if opname == "set_knowledge" else [el])
            if "overwrite" in params(f):
                want.append(P("overwrite"))
            if "must_exist" in params(f):
                want.append(P("must_exist"))
            if [e.arg(i, tgt[i]) for i in range(len(want))] != want:
                return "the arguments are not passed on unchanged"
            if opname.startswith("get") and completes(p):
                if pairs(p, p.value) != [(el, e.value)]:
                    return "the actor's answers are not returned under their names"
            return None

        cx.each_path("C11.task", fn, f, cx.paths(f, T), pred, fn)


@prop("C19")
def c19(cx: Ctx):
    prog = cx.prog
    A = prog.cls("Actor")
    T = prog.cls("Task")
    Q = attr(SELF, "_task_queue")
    opq = {"_log_caller", "log"}

    def qref(r):
        k = r[2] if r[0] == "sub" else (r[2][0] if r[0] == "call" and r[2] else None)
        return k if k is not None and read_of(r, Q, k) else None

    def qops(p):
        """Effects on any queue: (kind, network, detail, event)."""
        out = []
        for k, key, v, e in map_ops(p, Q):
            out.append((k, key, v, e))
        for e in p.events:
            if e.raised:
                continue
            if e.kind == "call" and e.recv is not None and e.name in ("append", "insert", "pop", "remove", "clear", "extend", "popleft",
                                                                     "reverse", "sort"):
                net = qref(e.recv)
                if net is not None:
                    out.append((e.name, net, e.args, e))
            elif e.kind in ("write", "del") and e.target[0] == "sub" and qref(e.target[1]) is not None:
                out.append(("setitem" if e.kind == "write" else "delitem", qref(e.target[1]), e.target[2], e))
        return out

    def empty(p, net, upto=None):
        """Was the network's queue found empty (True), non-empty (False)?"""
        r = None
        for e in p.events:
            if e is upto:
                break
            if e.kind == "cond" and e.term[0] == "truthy" and (read_of(e.term[1], Q, net)):
                r = not e.pol
        return r

    def islist(p, t, n=None):
        return t is not None and t[0] == "new" and t[2] == "list" and p is not None

    cx.rule("C19.set", "setting a queue stores a new list of the given names for that network only when its queue was found empty; "
                       "otherwise it raises and changes nothing", 1)
    f = prog.method(A, "set_task_queue")
    net, lst = par(f, 0), par(f, 1)

    def setp(p):
        ops = qops(p)
        if not completes(p):
            return "a refused queue changes something" if ops else (
                "raises for an empty queue" if raises(p) and empty(p, net) is not False else None)
        if empty(p, net, ops[0][3] if ops else None) is not True:
            return "a queue that may hold tasks is replaced"
        if len(ops) != 1 or ops[0][1] != net or ops[0][0] not in ("store", "extend"):
            return "not exactly the network's own queue is set"
        v = ops[0][2] if ops[0][0] == "store" else ops[0][2][0]
        if ops[0][0] == "extend":
            return None if v == lst else "other tasks are queued"
        if v == lst:
            return "the caller's list itself becomes the queue"
        return None if fresh_copy(p, v, lst) else "the queue is not the given list of tasks"

    cx.each_path("C19.set", "set_task_queue", f, cx.paths(f, A, opaque=opq), setp, "set_task_queue")
    cx.rule("C19.clear", "clearing empties exactly the named network's queue", 1)
    f2 = prog.method(A, "clear_task_queue")

    def clp(p):
        ops = qops(p)
        if len(ops) != 1 or ops[0][1] != par(f2, 0):
            return "not exactly the network's own queue is cleared"
        if ops[0][0] == "clear":
            return None
        if ops[0][0] == "store" and islist(p, ops[0][2]) and not ops[0][3].items(ops[0][2]):
            return None
        return "the queue is not emptied"

    cx.each_path("C19.clear", "clear_task_queue", f2, cx.paths(f2, A, opaque=opq), clp, "clear_task_queue")
    cx.rule("C19.read", "reading gives the named network's queue, and its first entry or nothing when empty, without changing it", 3)
    f3 = prog.method(A, "get_task_queue")
    cx.each_path("C19.read", "get_task_queue", f3, cx.paths(f3, A), lambda p: "reading changes the queue" if qops(p) else (
        None if not completes(p) or read_of(strip_iter(p.value), Q, par(f3, 0)) == "sub" else f"returns {show(p.value)}"), "get_task_queue")
    f4 = prog.method(A, "get_next_task")
    n4 = par(f4, 0)

    def nextp(p):
        if qops(p):
            return "looking at the next task changes the queue"
        if not completes(p):
            return None
        em = empty(p, n4)
        if em is None:
            return "whether the queue is empty is not asked"
        if em:
            return None if p.value == NONE else "an empty queue gives a task"
        v = p.value
        return None if v[0] == "sub" and v[2] == C(0) and read_of(v[1], Q, n4) else f"gives {show(v)}, not the first entry"

    cx.each_path("C19.read", "get_next_task", f4, cx.paths(f4, A), nextp, "get_next_task")
    f5 = prog.method(A, "get_all_task_queues")
    nets = attr(SELF, "_task_networks")

    def allp(p):
        if qops(p):
            return "reading changes a queue"
        el = next((e.value for e in p.events if e.kind == "iter"), None)
        if not full_loops(p, lambda t: True):
            return "networks after the first are left out"
        if el is None:
            return None if any(e.kind == "loop" and (strip_iter(e.term) in (nets, Q) or contains(e.term, lambda x: x in (nets, Q)))
                               for e in p.events) else "the networks are not visited"
        ps = pairs(p, p.value)
        k = el[1] if el[0] == "tuple" else el
        if ps is None or len(ps) != 1 or ps[0][0] != k:
            return "the queues are not given under their names"
        return None if read_of(strip_iter(ps[0][1]), Q, k) or (el[0] == "tuple" and ps[0][1] == el[2]) else "another queue is given under a network's name"

    cx.each_path("C19.read", "get_all_task_queues", f5, cx.paths(f5, A), allp, "get_all_task_queues")
    cx.rule("C19.begin", "beginning a task removes exactly the first entry, which is that task when the queue holds any; otherwise "
                         "it raises and removes nothing", 2)
    f6 = prog.method(A, "_begin_next_task")
    n6, t6 = par(f6, 0), par(f6, 1)

    def first_is(p, upto=None):
        for e in p.events:
            if e is upto:
                break
            if e.kind == "cond" and e.term[0] == "eq":
                for a, b in ((e.term[1], e.term[2]), (e.term[2], e.term[1])):
                    if a == t6 and ((b[0] == "sub" and b[2] == C(0) and read_of(b[1], Q, n6))):
                        return e.pol
        return None

    def beg(p):
        ops = qops(p)
        em, fi = empty(p, n6), first_is(p)
        other = [o for o in ops if o[1] != n6]
        if other:
            return "another network's queue is changed"
        pops = [o for o in ops if o[0] in ("pop", "popleft", "delitem", "remove", "clear")]
        # the queue may have been set on the path to a new list and popped there
        newl = [o[2] for o in ops if o[0] == "store"]
        npop = [e for e in p.calls("pop") if e.recv in newl]
        if not completes(p):
            return "tasks are removed although the wrong one is begun" if pops else (
                "raises although the first task is the one begun" if raises(p) and fi is True else None)
        if em is False:
            if fi is not True:
                return "the first entry is not checked to be the task begun"
            if len(ops) != 1 or ops[0][0] not in ("pop", "popleft", "delitem"):
                return "not exactly one entry is removed"
            if ops[0][0] == "pop" and ops[0][2][:1] != (C(0),):
                return "the entry removed is not the first"
            if ops[0][0] == "delitem" and ops[0][2] != C(0):
                return "the entry removed is not the first"
            return None
        if em is None:
            return "whether the queue holds tasks is not asked"
        if not ops:
            return None  # nothing queued, nothing removed
        # begun without being queued: what is queued for it is removed again
        if newl and npop and len(newl) == 1:
            return None
        if len(ops) == 2 and ops[0][0] in ("append", "insert", "store") and ops[1][0] in ("pop", "popleft", "delitem", "clear"):
            return None
        if len(ops) == 1 and ops[0][0] == "store" and islist(p, ops[0][2]) and not ops[0][3].items(ops[0][2]):
            return None
        return "beginning an unqueued task leaves the queue changed"

    cx.each_path("C19.begin", "_begin_next_task", f6, cx.paths(f6, A, opaque=opq), beg, "beginning a task")
    f7 = prog.method(A, "_clear_task")

    def ctp(p):
        ops = qops(p)
        if not completes(p):
            return None
        if len(ops) != 1 or ops[0][1] != par(f7, 0):
            return "not exactly one entry of the network's queue is removed"
        k, _, a, e = ops[0]
        return None if (k == "pop" and a == (C(0),)) or k == "popleft" or (k == "delitem" and a == C(0)) else "the entry removed is not the first"

    cx.each_path("C19.begin", "_clear_task", f7, cx.paths(f7, A), ctp, "dropping the first task")
    cx.rule("C19.net", "adding a network refuses a taken name and starts it with its own empty queue; deleting removes exactly the "
                       "named network or raises", 2)
    f8 = prog.method(A, "add_task_network")
    nw = par(f8, 0)

    def addp(p):
        mo = map_ops(p, nets)
        qo = qops(p)
        key = attr(nw, "name")
        if not completes(p):
            return "a refused network changes something" if mo or qo else None
        if len(mo) != 1 or mo[0][:3] != ("store", key, nw) or has_key(p, nets, key, mo[0][3]) is not False:
            return "the network is not stored once under its own, free name"
        if len(qo) != 1 or qo[0][:2] != ("store", key) or not islist(p, qo[0][2]) or qo[0][3].items(qo[0][2]):
            return "the network does not start with its own empty queue"
        return None

    cx.each_path("C19.net", "add_task_network", f8, cx.paths(f8, A, opaque=opq), addp, "adding a network")
    f9 = prog.method(A, "delete_task_network")

    def delp(p):
        mo = map_ops(p, nets)
        if not completes(p):
            return "an error changes the networks" if mo else None
        if len(mo) != 1 or mo[0][0] not in ("remove", "pop") or mo[0][1] != par(f9, 0):
            return "not exactly the named network is removed"
        return None

    cx.each_path("C19.net", "delete_task_network", f9, cx.paths(f9, A, opaque=opq), delp, "deleting a network")
    cx.rule("C19.task", "the task's queue methods act on the given actor's queue of the task's own network", 4)
    own = attr(SELF, "_network_name")
    for fn, op in {"clear_actor_task_queue": "clear_task_queue", "set_actor_task_queue": "set_task_queue",
                   "get_actor_task_queue": "get_task_queue", "get_actor_next_task": "get_next_task"}.items():
        g = prog.method(T, fn)

        def wp(p, g=g, op=op):
            es = [e for e in p.calls() if e.recv == par(g, 0) and "task" in e.name]
            if not completes(p):
                return None
            if len(es) != 1 or es[0].name != op or es[0].arg(0, "network_name") != own:
                return f"does not call {op} of the actor for the task's network"
            if op == "set_task_queue" and es[0].arg(1, "task_list") != par(g, 1):
                return "the task list is not passed on"
            if op.startswith("get") and p.value != es[0].value:
                return "the answer is not passed back"
            return None

        cx.each_path("C19.task", fn, g, cx.paths(g, T), wp, fn)
