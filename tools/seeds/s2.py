HEAD = '''
import sys
import simpy as SIM
import upstage_des.api as UP
'''
SENSOR = HEAD + '''
from upstage_des.motion import SensorMotionManager, SteppedMotionManager
from upstage_des.motion.cartesian_model import cartesian_linear_intersection
class Mover(UP.Actor):
    loc = UP.CartesianLocationChangingState()
    det = UP.DetectabilityState(default=True)
class Sensor(UP.Actor):
    location = UP.State()
    radius = UP.State()
    def entity_entered_range(self, m):
        log.append((round(self.env.now, 6), "in", m.name))
        hook("in", self, m)
    def entity_exited_range(self, m):
        log.append((round(self.env.now, 6), "out", m.name))
        hook("out", self, m)
log = []
def hook(*a): pass
P = UP.CartesianLocation
'''
SEEDS = [
 dict(id="C28-late-sensor", prop="C28", edits=[("motion/motion.py", "if first_time <= self.env.now and second_time < self.env.now:", "if first_time < self.env.now and second_time <= self.env.now + (second_time - first_time):")],
  demo=SENSOR + '''
with UP.EnvironmentContext() as env:
    UP.add_stage_variable("distance_units", "km"); UP.add_stage_variable("altitude_units", "km")
    mm = SensorMotionManager(cartesian_linear_intersection); UP.add_stage_variable("motion_manager", mm)
    m = Mover(name="m", loc=P(0, 0))
    m.activate_state(state="loc", task=UP.Task(), speed=1.0, waypoints=[P(20, 0)])
    env.run(until=10)
    s = Sensor(name="s", location=P(10, 0), radius=3.0)
    mm.add_sensor(s, "location", "radius")
    env.run(until=19)
    print(log)
    assert log == [(10, "in", "m"), (13, "out", "m")], log
''', needs="a sensor added while a mover that started outside is already inside its range", breaks="the sensor is not told of a mover that is in its range when it is added"),
 dict(id="C28-out-order", prop="C28", edits=[("motion/motion.py", "        self._remove_from_view(mover, sensor)\n        sensor.entity_exited_range(mover)", "        sensor.entity_exited_range(mover)\n        if sensor in self._in_view.get(mover, []):\n            self._remove_from_view(mover, sensor)")],
  demo=SENSOR + '''
def hook(k, s, m):
    if k == "out" and m.det:
        m.det = False
with UP.EnvironmentContext() as env:
    UP.add_stage_variable("distance_units", "km"); UP.add_stage_variable("altitude_units", "km")
    mm = SensorMotionManager(cartesian_linear_intersection); UP.add_stage_variable("motion_manager", mm)
    m = Mover(name="m", loc=P(0, 0))
    s = Sensor(name="s", location=P(10, 0), radius=3.0)
    mm.add_sensor(s, "location", "radius")
    m.activate_state(state="loc", task=UP.Task(), speed=1.0, waypoints=[P(20, 0)])
    env.run(until=19)
    print(log)
    assert log == [(7, "in", "m"), (13, "out", "m")], log
''', needs="a sensor that hides the mover from within the notice of its exit", breaks="the exit is notified twice"),
 dict(id="C29-idle", prop="C29", edits=[("motion/stepped_motion.py", "                    self._is_running = False\n                    return\n            else:\n                n_empty = 0", "                    self._is_running = False\n                    return")],
  demo=SENSOR + '''
with UP.EnvironmentContext() as env:
    UP.add_stage_variable("distance_units", "km"); UP.add_stage_variable("altitude_units", "km")
    mm = SteppedMotionManager(1.0, max_empty_events=2); UP.add_stage_variable("motion_manager", mm)
    m = Mover(name="m", loc=P(0, 0))
    s = Sensor(name="s", location=P(10, 0), radius=3.0)
    mm.add_sensor(s, "radius", "location")
    def other():
        # events with gaps of one empty step between them
        yield env.timeout(0.5)
    m.activate_state(state="loc", task=UP.Task(), speed=1.0, waypoints=[P(30, 0)])
    class Q(list):
        pass
    real = mm._only_event_test
    flags = iter([True, False, True, False, True, False, True, False, True, False, True, False, True, False, True, True, True, True, True])
    mm._only_event_test = lambda: next(flags)
    env.run(until=20)
    print(log)
    assert log == [(7, "in", "m"), (14, "out", "m")], log
''', needs="steps without other events that do not follow each other", breaks="stepping ends before that many consecutive empty steps"),
 dict(id="C30-third-leg", prop="C30", edits=[("motion/motion.py", "            elapsed_time += path_time", "            elapsed_time = max(elapsed_time, path_time) if not elapsed_time else elapsed_time + path_time * (i < 2 or path_time > elapsed_time)")],
  demo=SENSOR + '''
with UP.EnvironmentContext() as env:
    UP.add_stage_variable("distance_units", "km"); UP.add_stage_variable("altitude_units", "km")
    mm = SensorMotionManager(cartesian_linear_intersection); UP.add_stage_variable("motion_manager", mm)
    m = Mover(name="m", loc=P(0, 0))
    s = Sensor(name="s", location=P(50, 0), radius=3.0)
    mm.add_sensor(s, "location", "radius")
    m.activate_state(state="loc", task=UP.Task(), speed=1.0, waypoints=[P(10, 0), P(20, 0), P(30, 0), P(60, 0)])
    env.run(until=59)
    print(log)
    assert log == [(47, "in", "m"), (53, "out", "m")], log
''', needs="a path of four legs whose third is not longer than the first two", breaks="the time of the third leg is not counted"),
 dict(id="C35-seen", prop="C35", edits=[("data_utils/data_utils.py", "        seen_resources.extend(_resources)", "        seen_resources = _resources or seen_resources")],
  demo=HEAD + '''
class A(UP.Actor):
    st = UP.ResourceState(default=UP.SelfMonitoringStore)
with UP.EnvironmentContext() as env:
    a = A(name="a"); b = A(name="b")
    a.st.put(1); b.st.put(2); env.run()
    rows, _ = UP.create_table()
    print(rows)
    assert len(rows) == 4 and not any(r[2] == "Resource" for r in rows)
''', needs="two actors with monitoring resources", breaks="a resource of an earlier actor is in the table twice, once without its actor"),
 dict(id="C26-tries", prop="C26", edits=[("communications/comms.py", "        n_tries = ceil(self.retry_max_time / self.retry_rate)", "        n_tries = round(self.retry_max_time / self.retry_rate)")],
  demo=HEAD + '''
class A(UP.Actor):
    st = UP.ResourceState(default=SIM.Store)
with UP.EnvironmentContext() as env:
    a = A(name="a"); b = A(name="b")
    c = UP.PointToPointCommsManager(name="c", retry_max_time=1.0, retry_rate=0.4)
    c.connect(a, "st"); c.connect(b, "st"); c.run()
    c.comms_degraded = True
    def p():
        yield c.make_put("hi", a, b).as_event()
        yield env.timeout(1.1)
        c.comms_degraded = False
    env.process(p())
    env.run(until=5)
    print(b.st.items)
    assert len(b.st.items) == 1
''', needs="a retry time that is not a multiple of the rate, and a link that opens just before the last try", breaks="the last configured try is not made, the message is lost"),
 dict(id="C27-depth", prop="C27", edits=[("communications/routing.py", "        node, path = queue.popleft()", "        node, path = queue.popleft() if len(queue) < 3 else queue.pop()")],
  demo=HEAD + '''
class N(UP.Actor):
    messages = UP.CommunicationStore(modes=None)
with UP.EnvironmentContext() as env:
    n = {k: N(name=k, messages={"modes": ["m"]}) for k in "SABCDT"}
    r = UP.RoutingTableCommsManager(name="r", mode="m")
    for u, v in ("SA", "SB", "SC", "CD", "DT", "BT"):
        r.connect_nodes(n[u], n[v])
    hop = r.select_hop(n["S"], n["T"])
    print(hop)
    assert hop is n["B"]
''', needs="three open branches of a network, the last of which leads to the destination by a longer way", breaks="a route that is not shortest is taken"),
 dict(id="C23-reserved-put", prop="C23", edits=[("resources/reserve.py", "            self._level += amount\n            self._real_level = new", "            self._real_level = new\n            self._level = min(new, self._level + amount) if self._queued else new"), ("resources/reserve.py", "    def take(self, requester: Any) -> float:\n        \"\"\"If in queue, allow requester take the actual quantity.\"\"\"\n        if requester not in self._queued:\n            raise ValueError(\"Requester is not in queue, cannot take.\")\n        else:\n            amt, _ = self._queued.pop(requester)\n            self._real_level -= amt", "    def take(self, requester: Any) -> float:\n        \"\"\"If in queue, allow requester take the actual quantity.\"\"\"\n        if requester not in self._queued:\n            raise ValueError(\"Requester is not in queue, cannot take.\")\n        else:\n            amt, _ = self._queued.pop(requester)\n            self._real_level -= min(amt, self._real_level) if self._queued else self._real_level - self._level")],
  demo=HEAD + '''
from upstage_des.resources.reserve import ReserveContainer
with UP.EnvironmentContext() as env:
    c = ReserveContainer(env, init=10.0, capacity=20.0)
    c.reserve("a", 4); c.reserve("b", 3)
    c.take("a"); c.put(1.0)
    print(c._real_level, c.available, c._queued)
    c.cancel_request("b")
    assert c.available == c._real_level == 7.0, (c.available, c._real_level)
    c.reserve("a", 4); c._level -= 0
    c.take("a")
    assert c.available == c._real_level == 3.0
    c.capacity = 3.5
    c.reserve("z", 1.0)
    try:
        c.put(1.0)
    except ValueError:
        pass
    else:
        raise SystemExit("accepted")
''', needs="-", breaks="-"),
 dict(id="C25-block", prop="C25", edits=[("resources/sorted.py", "            event.succeed(self.items.pop(min_idx))\n        return True", "            event.succeed(self.items.pop(min_idx))\n        return min_idx is not None or event.sorter is None")],
  demo=HEAD + '''
with UP.EnvironmentContext() as env:
    s = UP.SortedFilterStore(env)
    got = []
    def p(f):
        x = yield s.get(f, lambda i: i)
        got.append(x)
    env.process(p(lambda i: i > 10)); env.process(p(lambda i: i < 10))
    env.run()
    s.put(3)
    env.run()
    print(got)
    assert got == [3]
''', needs="a sorted request that nothing matches, waiting before one that matches", breaks="later requests are not served"),
 dict(id="C20-forget", prop="C20", edits=[("nucleus.py", "            self._state_map[state].remove(network_name)\n        del self._network_map[network_name]", "            self._state_map.pop(state)\n        del self._network_map[network_name]")],
  demo=HEAD + '''
class A(UP.Actor):
    x = UP.State(default=0)
class T(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(100)
    def on_interrupt(self, *, actor, cause):
        hits.append((self.env.now, cause.state_name))
        return self.INTERRUPT.END
hits = []
with UP.EnvironmentContext() as env:
    a = A(name="a")
    nuc = UP.TaskNetworkNucleus(actor=a)
    for n in ("n1", "n2"):
        f = UP.TaskNetworkFactory(n, {"T": T}, {"T": UP.TaskLinks(default=None, allowed=[])})
        a.add_task_network(f.make_network()); nuc.add_network(n, ["x"])
        a.start_network_loop(n, "T")
    env.run(until=1)
    nuc.remove_network("n1")
    a.x = 5
    try:
        env.run(until=2)
    except Exception as e:
        print(type(e), e)
    print(hits)
    assert hits == [(1, "x")]
''', needs="two networks watching the same state, one of which is removed", breaks="the other network gets no notices any more"),
 dict(id="C14-window-tie", prop="C14", edits=[("routines.py", "            if not incoming.is_complete():\n                incoming.cancel()\n                break", "            if wait is not None and wait.is_complete() or not incoming.is_complete():\n                incoming.cancel()\n                break")],
  demo=HEAD + '''
out = []
class T(UP.Task):
    def task(self, *, actor):
        out.append((yield UP.WindowedGet(actor.st, 2.0)))
class A(UP.Actor):
    st = UP.ResourceState(default=SIM.Store)
with UP.EnvironmentContext() as env:
    a = A(name="a")
    def p():
        a.st.put("one")
        yield env.timeout(0)
        yield env.timeout(2.0)
        a.st.put("two")
    env.process(p())
    T().run(actor=a)
    env.run()
    left = list(a.st.items)
    print(out, left)
    assert sorted(out[0] + left) == ["one", "two"]
''', needs="an item that arrives at the very instant at which the window ends", breaks="the item that was taken from the store is lost"),
 dict(id="C32-days", prop="C32", edits=[("units/convert.py", "        CONVERSIONS[unit][longer] = 1 / CONVERSIONS[longer][unit]", "        CONVERSIONS[unit][longer] = 1 / CONVERSIONS[longer][unit] if longer == \"day\" else CONVERSIONS[unit][\"day\"] / 5")],
  demo=HEAD + '''
from upstage_des.units import unit_convert as u
assert abs(u(u(3.0, "hr", "week"), "week", "hr") - 3.0) < 1e-9
''', needs="a time in hours converted to weeks", breaks="forth and back does not return the value"),
 dict(id="C22-granted", prop="C22", edits=[("resources/monitoring.py", "        ans = super()._do_put(event)\n        if event.triggered:\n            self._record()\n        return ans", "        ans = super()._do_put(event)\n        if event.triggered and not self.get_queue:\n            self._record()\n        return ans")],
  demo=HEAD + '''
with UP.EnvironmentContext() as env:
    c = UP.SelfMonitoringContainer(env, capacity=10, init=0)
    def g():
        yield c.get(3)
    env.process(g()); env.run()
    c.put(3); env.run(until=1)
    print(c._quantities)
    assert c._quantities == [(0, 0), (0, 3), (0, 0)], c._quantities
''', needs="a put that a waiting get takes away at once", breaks="the quantity after the put is not recorded"),
 dict(id="C42-unit", prop="C42", edits=[("events.py", "        return cls(timeout, timeout_unit, rehearsal_time_to_complete=rehearsal_time_to_complete)", "        wait = cls(timeout, timeout_unit, rehearsal_time_to_complete=rehearsal_time_to_complete)\n        wait._time_to_complete = min(wait._time_to_complete, high)\n        return wait")],
  demo=HEAD + '''
with UP.EnvironmentContext(random_seed=1) as env:
    UP.add_stage_variable("time_unit", "min")
    w = UP.Wait.from_random_uniform(2, 2, "hr")
    def p():
        yield w.as_event()
    env.process(p()); env.run()
    print(env.now)
    assert env.now == 120
''', needs="a random wait in a unit longer than the stage's", breaks="the wait is cut to its bound in the wrong unit"),
 dict(id="C11-bulk", prop="C11", edits=[("actor.py", "        for k, v in know.items():\n            self.set_knowledge(k, v, overwrite, caller)", "        for k, v in know.items():\n            self.set_knowledge(k, v, overwrite or self.get_knowledge(k) == v, caller)")],
  demo=HEAD + '''
class A(UP.Actor): pass
with UP.EnvironmentContext() as env:
    a = A(name="a")
    old = [1]
    a.set_knowledge("k", old)
    try:
        a.set_bulk_knowledge({"k": [1]})
    except UP.SimulationError:
        assert a.get_knowledge("k") is old
    else:
        raise SystemExit("overwritten")
''', needs="bulk knowledge equal to what is there", breaks="knowledge is overwritten without permission"),
 dict(id="C19-shared", prop="C19", edits=[("actor.py", "        self._task_queue[network_name] = list(task_list)", "        self._task_queue[network_name] = task_list if isinstance(task_list, list) and task_list else list(task_list)")],
  demo=HEAD + '''
class A(UP.Actor): pass
class T(UP.Task):
    def task(self, *, actor):
        yield UP.Wait(1)
with UP.EnvironmentContext() as env:
    f = UP.TaskNetworkFactory("n", {"T": T}, {"T": UP.TaskLinks(default=None, allowed=["T"])})
    q = ["T", "T"]
    actors = [A(name=str(i)) for i in range(2)]
    for a in actors:
        a.add_task_network(f.make_network()); a.set_task_queue("n", q); a.start_network_loop("n")
    env.run()
    print(env.now, q)
    assert q == ["T", "T"] and env.now == 2
''', needs="one list given to two actors", breaks="the actors consume each other's queue"),
 dict(id="C09-cart-alt", prop="C09", edits=[("states.py", "            new_point = _vector_add(path_start._as_array(), direction_amount)", "            new_point = _vector_add((path_start.x, path_start.y, path_start.z), direction_amount)")],
  demo=HEAD + '''
class A(UP.Actor):
    loc = UP.CartesianLocationChangingState()
with UP.EnvironmentContext() as env:
    UP.add_stage_variable("distance_units", "km"); UP.add_stage_variable("altitude_units", "m")
    P = UP.CartesianLocation
    a = A(name="a", loc=P(0, 0, 1000, use_altitude_units=True))
    a.activate_state(state="loc", task=UP.Task(), speed=1.0, waypoints=[P(10, 0, 1.0)])
    env.run(until=5)
    print(a.loc)
    assert abs(a.loc.z - 1.0) < 1e-9
''', needs="a start whose height is in altitude units that differ from the distance units", breaks="the height on the way is in the wrong units"),
 dict(id="C15-any-get", prop="C15", edits=[("events.py", "        if self._request_event.triggered:\n            self._give_back()\n        else:\n            self._request_event.cancel()", "        self._request_event.cancel()\n        if self._request_event.triggered and not self._request_event.callbacks:\n            self._give_back()")],
  demo=HEAD + '''
with UP.EnvironmentContext() as env:
    s = SIM.Store(env)
    g = UP.Get(s)
    def p():
        yield g.as_event()
    pr = env.process(p())
    env.run(until=1)
    def q():
        yield env.timeout(1)
        s.put("x")
        g.cancel()
    env.process(q())
    pr.callbacks.append(lambda e: None)
    env.run(until=3)
    print(s.items)
    assert s.items == ["x"]
''', needs="a get granted in the same instant in which it is cancelled", breaks="the item taken is lost"),
]
