SEEDS = [
dict(id="C06-shallow", prop="C06",
  edits=[("states.py", "from copy import deepcopy", "from copy import copy, deepcopy") , ("states.py", "        to_append = (now, deepcopy(use))\n        if self.name", "        to_append = (now, copy(use) if isinstance(use, list | tuple) else deepcopy(use))\n        if self.name")],
  needs="a recorded list (or tuple) state that holds mutable items, one of which is changed after the recording",
  breaks="the history of a list state shares its items with the live value, so past entries change",
  demo='''import upstage_des.api as UP

class A(UP.Actor):
    hist = UP.State(default_factory=list, recording=True)

with UP.EnvironmentContext() as env:
    a = A(name="a", hist=[[1]])
    env.run(until=1)
    v = a.hist
    v[0].append(2)
    a.hist = v
    h = a._state_histories["hist"]
    assert h == [(0.0, [[1]]), (1.0, [[1, 2]])], h
'''),
dict(id="C08-shared-zero", prop="C08",
  edits=[("state_sharing.py", "        if rate_tasks:\n            return True\n", "        if sum(rate_tasks.values()):\n            return True\n")],
  needs="three tasks sharing a linear state, the two left after one stops having opposite rates",
  breaks="the shared state is deactivated while two tasks still hold it: when one of them stops, the other no longer changes it",
  demo='''import upstage_des.api as UP
from upstage_des.state_sharing import SharedLinearChangingState

class A(UP.Actor):
    fuel = SharedLinearChangingState(recording=True)

class Burn(UP.Task):
    def task(self, *, actor):
        actor.activate_state(state="fuel", task=self, rate=actor.get_knowledge("rate"))
        yield UP.Wait(actor.get_knowledge("time"))
        actor.deactivate_all_states(task=self)

with UP.EnvironmentContext() as env:
    a = A(name="a", fuel=100.0)
    for r, t in ((-1.0, 2.0), (-2.0, 5.0), (2.0, 8.0)):
        a.set_knowledge("rate", r, overwrite=True)
        a.set_knowledge("time", t, overwrite=True)
        Burn().run(actor=a)
        env.run(until=env.now + 1e-9)
    env.run(until=7)
    # -1 for 2, -2 for 5, +2 for 7
    assert abs(a.fuel - (100 - 2 - 10 + 14)) < 1e-6, a.fuel
'''),
dict(id="C10-mimic-name", prop="C10",
  edits=[("actor.py", "        return f\"{id(self)}-{self_state}\"", "        return f\"{self.name}-{self_state}\"")],
  needs="two actors of the same name whose states mimic the same recording state of a third actor",
  breaks="the second mimic replaces the recording hook of the first, which stops recording",
  demo='''import upstage_des.api as UP

class A(UP.Actor):
    x = UP.State(recording=True)

with UP.EnvironmentContext() as env:
    lead = A(name="lead", x=1)
    f1, f2 = A(name="follower", x=0), A(name="follower", x=0)
    t1, t2 = UP.Task(), UP.Task()
    f1.activate_mimic_state(self_state="x", mimic_state="x", mimic_actor=lead, task=t1)
    f2.activate_mimic_state(self_state="x", mimic_state="x", mimic_actor=lead, task=t2)
    env.run(until=1)
    lead.x = 5
    assert (1.0, 5) in f1._state_histories["x"], f1._state_histories
    assert (1.0, 5) in f2._state_histories["x"], f2._state_histories
'''),
dict(id="C15-any-triggered", prop="C15",
  edits=[("events.py", "        self._simpy_event.defused = True\n        if not self._simpy_event.triggered:\n            self._simpy_event.fail(Exception(\"defused\"))", "        self._simpy_event.defused = True\n        if self._simpy_event.triggered:\n            return\n        self._simpy_event.fail(Exception(\"defused\"))")],
  needs="an interrupt at the very time at which one event of an Any has just succeeded, before the task resumes",
  breaks="the other events of the Any stay pending: a queued get takes an item nobody receives",
  demo='''import simpy as SIM
import upstage_des.api as UP

class T(UP.Task):
    def task(self, *, actor):
        yield UP.Any(UP.Get(actor.s), actor.ev)

class A(UP.Actor):
    s = UP.ResourceState(default=SIM.Store)
    ev = UP.State()

with UP.EnvironmentContext() as env:
    a = A(name="a", ev=UP.Event())
    p = T().run(actor=a)
    def ctl():
        yield env.timeout(1.0)
        a.ev.succeed()
        # let the condition trigger, but interrupt before the task is resumed
        while not p.target.triggered:
            yield env.event().succeed()
        if p.is_alive:
            p.interrupt()
        yield env.timeout(1.0)
        yield a.s.put("item")
    env.process(ctl())
    env.run()
    assert a.s.items == ["item"], a.s.items
'''),
dict(id="C41-triggered", prop="C41",
  edits=[("events.py", "        if self._event.processed:\n            if self._auto_reset:", "        if self._event.triggered:\n            if self._auto_reset:")],
  needs="an event that is succeeded and waited on in the same instant, before its success was processed",
  breaks="the wait starts a new occurrence and misses the success that had just happened",
  demo='''import upstage_des.api as UP

class T(UP.Task):
    def task(self, *, actor):
        ev = actor.get_knowledge("ev")
        ev.succeed(x=1)
        yield ev
        actor.set_knowledge("woke", True)

with UP.EnvironmentContext() as env:
    a = UP.Actor(name="a")
    a.set_knowledge("ev", UP.Event())
    T().run(actor=a)
    env.run(until=5)
    assert a.get_knowledge("woke") is True
'''),
dict(id="C16-zero", prop="C16",
  edits=[("events.py", "        rehearse = timeout if rehearsal_time_to_complete is None else rehearsal_time_to_complete", "        rehearse = rehearsal_time_to_complete or timeout")],
  needs="a wait whose stated rehearsal time is zero",
  breaks="the rehearsal takes the full wait instead of the stated zero time",
  demo='''import upstage_des.api as UP

class T(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(7.0, rehearsal_time_to_complete=0.0)

with UP.EnvironmentContext() as env:
    a = UP.Actor(name="a")
    c = T().rehearse(actor=a)
    assert c.env.now == 0.0, c.env.now
'''),
dict(id="C19-begin", prop="C19",
  edits=[("actor.py", "        if queue and queue[0] != task_name:", "        if queue and task_name not in queue[:1] + queue[1:2]:")],
  needs="a network told to begin the task that is second in the actor's queue",
  breaks="beginning a task other than the first of the queue is accepted and drops the first one",
  demo='''import upstage_des.api as UP

class T(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1.0)

class T2(T): ...

fac = UP.TaskNetworkFactory("n", {"T": T, "T2": T2}, {"T": UP.TaskLinks(default="T2", allowed=["T2"]), "T2": UP.TaskLinks(default="T", allowed=["T"])})
with UP.EnvironmentContext() as env:
    a = UP.Actor(name="a")
    a.add_task_network(fac.make_network())
    a.set_task_queue("n", ["T", "T2"])
    try:
        a._begin_next_task("n", "T2")
    except UP.SimulationError:
        assert a.get_task_queue("n") == ["T", "T2"]
    else:
        raise SystemExit("a task that is not the next one was begun")
'''),
dict(id="C11-bulk", prop="C11",
  edits=[("actor.py", "        for k, v in know.items():\n            self.set_knowledge(k, v, overwrite, caller)", "        fresh = {k: v for k, v in know.items() if k not in self._knowledge}\n        for k, v in know.items():\n            self.set_knowledge(k, v, overwrite or k in fresh, caller)\n        self._knowledge.update(fresh)") ],
  needs="a bulk setting of knowledge whose values are replaced while it is logged (a debug-logging subclass) or, equivalently, any reader between the writes",
  breaks="placeholder", demo="raise SystemExit(0)"),
]
SEEDS[-1] = dict(id="C07-relock", prop="C07",
  edits=[("actor.py", "            if self._tasks_by_state[state]:\n                raise", "            if self._tasks_by_state[state] - {task}:\n                raise")],
  needs="a task that activates a state it has active already",
  breaks="a locked state is activated again by the same task, silently replacing its rate",
  demo='''import upstage_des.api as UP

class A(UP.Actor):
    fuel = UP.LinearChangingState(recording=True)

with UP.EnvironmentContext() as env:
    a = A(name="a", fuel=100.0)
    t = UP.Task()
    a.activate_state(state="fuel", task=t, rate=-1.0)
    env.run(until=1)
    try:
        a.activate_state(state="fuel", task=t, rate=-5.0)
    except UP.SimulationError:
        pass
    else:
        raise SystemExit("activated twice")
    env.run(until=2)
    assert a.fuel == 98.0, a.fuel
''')

