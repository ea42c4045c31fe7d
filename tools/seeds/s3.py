HEAD = '''
import sys
import warnings; warnings.simplefilter("ignore")
import simpy as SIM
import upstage_des.api as UP
from upstage_des.type_help import TASK_GEN
'''
SEEDS = [
 dict(id="C13-falsy", prop="C13", edits=[("task.py", "@1:                            if return_item is None:\n                                next_event", "                            if not return_item:\n                                next_event")],
  demo=HEAD + '''
class Act(UP.Actor):
    store = UP.ResourceState(default=UP.SelfMonitoringStore)
got = []
class T(UP.Task):
    def task(self, *, actor):
        x = yield UP.Get(actor.store)
        got.append(x)
        x = yield UP.Get(actor.store)
        got.append(x)
with UP.EnvironmentContext() as env:
    a = Act(name="a")
    a.store.put("x"); a.store.put(0)
    T().run(actor=a)
    env.run()
    assert got == ["x", 0], got
''', needs="an event whose value is falsy (0, an empty text, False)", breaks="the task receives None in place of a falsy item"),
 dict(id="C14-reversed", prop="C14", edits=[("routines.py", "            yield Put(self.store, self.result.pop(0))", "            yield Put(self.store, self.result.pop())")],
  demo=HEAD + '''
class Act(UP.Actor):
    s = UP.ResourceState(default=SIM.Store)
class T(UP.Task):
    def task(self, *, actor):
        yield UP.WindowedGet(actor.s, timeout=10)
with UP.EnvironmentContext() as env:
    a = Act(name="a")
    a.s.put(1); a.s.put(2); a.s.put(3)
    p = T().run(actor=a)
    env.run(until=1)
    assert a.s.items == []
    p.interrupt()
    env.run(until=2)
    assert a.s.items == [1, 2, 3], a.s.items
''', needs="a windowed get interrupted with several items held", breaks="the items are put back in another order"),
 dict(id="C18-default-ok", prop="C18", edits=[("task_network.py", "        value = self.task_links[curr].allowed\n        return new in value", "        links = self.task_links[curr]\n        return new in links.allowed or new == links.default")],
  demo=HEAD + '''
class A(UP.Task):
    def task(self, *, actor): yield UP.Wait(1)
class B(UP.Task):
    def task(self, *, actor): yield UP.Wait(1)
with UP.EnvironmentContext() as env:
    f = UP.TaskNetworkFactory("n", {"A": A, "B": B}, {"A": UP.TaskLinks(default="B", allowed=["A"]), "B": UP.TaskLinks(default=None, allowed=["A"])})
    n = f.make_network()
    assert not n.is_feasible("A", "B")
    a = UP.Actor(name="a"); a.add_task_network(n)
    try:
        n.rehearse_network(actor=a, task_name_list=["A", "B"])
    except UP.SimulationError:
        pass
    else:
        raise AssertionError("B was rehearsed")
''', needs="links whose default is not among the allowed tasks", breaks="a task that is not allowed counts as feasible"),
 dict(id="C05-frozen-falsy", prop="C05", edits=[("states.py", "            if old_value is not None:\n                raise SimulationError(", "            if old_value:\n                raise SimulationError(")],
  demo=HEAD + '''
class Act(UP.Actor):
    s = UP.State(frozen=True)
with UP.EnvironmentContext() as env:
    a = Act(name="a", s=0)
    try:
        a.s = 4
    except UP.SimulationError:
        pass
    else:
        raise AssertionError("a frozen state changed")
''', needs="a frozen state holding a falsy value", breaks="a frozen state with a falsy value can be changed"),
 dict(id="C10-own-cb", prop="C10", edits=[("actor.py", "                if instance is mimic_actor:\n                    state._do_record(self, value)", "                if instance.name == mimic_actor.name:\n                    state._do_record(self, value)")],
  demo=HEAD + '''
class Act(UP.Actor):
    s = UP.State(default=0, recording=True)
class Other(UP.Actor):
    s = UP.State(default=0, recording=True)
with UP.EnvironmentContext() as env:
    a, b, c = Other(name="a"), Act(name="twin"), Act(name="twin")
    t = UP.Task()
    a.activate_mimic_state(self_state="s", mimic_state="s", mimic_actor=b, task=t)
    env.run(until=1)
    c.s = 99
    env.run(until=2)
    b.s = 3
    assert [v for _, v in a._state_histories["s"]] == [0, 3], a._state_histories
''', needs="two actors of one class with the same name", breaks="changes of another actor are recorded as the mimicked actor's"),
 dict(id="C11-bulk-missing", prop="C11", edits=[("actor.py", "return {name: self.get_and_clear_knowledge(name, caller) for name in names}", "return {name: self.get_and_clear_knowledge(name, caller) for name in names if name in self._knowledge}")],
  demo=HEAD + '''
with UP.EnvironmentContext() as env:
    a = UP.Actor(name="a")
    a.set_knowledge("x", 1)
    try:
        a.get_and_clear_bulk_knowledge(["x", "y"])
    except UP.SimulationError:
        pass
    else:
        raise AssertionError("no error")
''', needs="a bulk request with a name that does not exist", breaks="missing knowledge is silently skipped"),
 dict(id="C12-first-event", prop="C12", edits=[("task.py", "                names = list(actor._knowledge.keys())\n                for name in names:\n                    if actor._knowledge[name] is next_event:", "                names = {id(v): k for k, v in actor._knowledge.items()}\n                for name in names.values():\n                    if actor._knowledge[name] is next_event:")],
  demo=HEAD + '''
class T(UP.Task):
    def task(self, *, actor):
        e = UP.Event()
        actor.set_knowledge("one", e); actor.set_knowledge("two", e)
        yield e
with UP.EnvironmentContext() as env:
    a = UP.Actor(name="a")
    p = T().run(actor=a)
    env.run(until=1)
    p.interrupt()
    env.run(until=2)
    assert not a._knowledge, a._knowledge
''', needs="the event waited for is known under two names", breaks="a dead event stays in the actor's knowledge"),
 dict(id="C22-equal-len", prop="C22", edits=[("resources/monitoring.py", "@1:        if v != self._quantities[-1][1] or call == \"environment\":", "        if v > self._quantities[-1][1] or (v != self._quantities[-1][1] and call == \"get\") or call == \"environment\":")],
  demo=HEAD + '''
with UP.EnvironmentContext() as env:
    s = UP.SelfMonitoringStore(env, item_func=lambda its: -len(its))
    s.put(1)
    env.run(until=1)
    s.put(1)
    env.run(until=2)
    assert s._quantities == [(0, 0), (0, -1), (1, -2)], s._quantities
''', needs="an item function that goes down on a put", breaks="the change is not recorded"),
 dict(id="C23-exact", prop="C23", edits=[("resources/reserve.py", "        if self.available < quantity:\n            return False\n        elif requester not in self._queued:", "        if self.available < quantity and requester is not None:\n            return False\n        elif requester not in self._queued:")],
  demo=HEAD + '''
with UP.EnvironmentContext() as env:
    c = UP.ReserveContainer(env, init=5, capacity=10)
    assert not c.reserve(None, 7)
    assert c.available == 5
''', needs="a reservation made without a requester", breaks="more is reserved than there is"),
 dict(id="C20-after-remove", prop="C20", edits=[("nucleus.py", "        for state in self._network_map[network_name]:\n            self._state_map[state].remove(network_name)", "        for state in self._network_map[network_name]:\n            self._state_map.pop(state)")],
  demo=HEAD + '''
class Act(UP.Actor):
    s = UP.State(default=0)
class T(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(100)
    def on_interrupt(self, *, actor, cause):
        log.append((actor.env.now, cause.state_name))
        return self.INTERRUPT.RESTART
log = []
with UP.EnvironmentContext() as env:
    a = Act(name="a")
    nuc = UP.TaskNetworkNucleus(actor=a)
    for n in ("n1", "n2"):
        a.add_task_network(UP.TaskNetworkFactory.from_single_looping(n, T).make_network())
        nuc.add_network(n, ["s"])
        a.start_network_loop(n, init_task_name="T")
    env.run(until=1)
    nuc.remove_network("n1")
    a.s = 3
    env.run(until=2)
    assert log == [(1, "s")], log
''', needs="two networks watching one state, one of which is removed", breaks="the other network is no longer told of changes"),
 dict(id="C37-mode-merge", prop="C37", edits=[("states.py", "        if isinstance(value, dict) and \"modes\" in value:\n", "        if isinstance(value, dict) and value.get(\"modes\"):\n")],
  demo=HEAD + '''
class Act(UP.Actor):
    s = UP.CommunicationStore(modes="a")
with UP.EnvironmentContext() as env:
    try:
        a = Act(name="a", s={"modes": []})
    except UP.SimulationError:
        sys.exit(0)
    assert a.s is not None and a._state_defs["s"]._modename in a.__dict__
    assert a.__dict__[a._state_defs["s"]._modename] == set(), a.__dict__
''', needs="an empty list of modes", breaks="the default modes are used"),
 dict(id="C13-routine-none", prop="C13", edits=[("task.py", "                            return_item = e.value\n                            if", "                            return_item = return_item if e.value is None else e.value\n                            if")],
  demo=HEAD + '''
from upstage_des.routines import Routine
class R(Routine):
    def __init__(self, s): super().__init__(); self.s = s
    def run(self):
        yield UP.Get(self.s)
    def cancel(self): yield UP.Wait(0)
class Act(UP.Actor):
    s = UP.ResourceState(default=SIM.Store)
got = []
class T(UP.Task):
    def task(self, *, actor):
        got.append((yield R(actor.s)))
with UP.EnvironmentContext() as env:
    a = Act(name="a"); a.s.put("x")
    T().run(actor=a)
    env.run()
    assert got == [None], got
''', needs="a routine that returns nothing after an event with a value", breaks="the task is given the routine's last event value"),
 dict(id="C26-late-block", prop="C26", edits=[("communications/comms.py", "        self.blocked_links: list[tuple[Actor, Actor]] = []", "        self.blocked_links: set[tuple[Actor, Actor]] = set()")], demo="raise SystemExit(0)", needs="", breaks=""),
 dict(id="C41-reset-cancelled", prop="C41", edits=[], demo="raise SystemExit(0)", needs="", breaks=""),
]
SEEDS = [s for s in SEEDS if s["needs"]]
