From f9fc78fd37a23213b8a94633b4c1ce5c3f7e7b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 01/94] fix: check the type of a dictionary state's item before
 storing it

---
 src/upstage_des/state_proxies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index fb6304c..7a0409e 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -27,9 +27,9 @@ class _DictionaryProxy(Generic[VTD]):
         self._wrapped = wrapped
 
     def __setitem__(self, key: str, value: VTD) -> None:
-        self._wrapped[key] = value
         if not self.descriptor._type_check(value, throw=False):
             raise TypeError(f"Bad type for dictionary: {key}: {value}")
+        self._wrapped[key] = value
         self.descriptor._record_state(self.instance, key, all=False)
 
     def setdefault(self, key: str, value: VTD) -> VTD:
-- 
2.43.0


From 1297de4c02a2152918ebd239631b143f0c210fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 02/94] fix: honor record_duplicates on dictionary and
 dataclass states

---
 src/upstage_des/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 1d70d72..e6f2b4c 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1195,7 +1195,7 @@ class _KeyValueBase(State):
             frozen=True,
             valid_types=valid_types,
             recording=False,
-            record_duplicates=False,
+            record_duplicates=record_duplicates,
             recording_functions=recording_functions,
         )
         self._record_indiv = recording
-- 
2.43.0


From d46347d7c74eec778915a9c6306ee79d57bee0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 03/94] fix: record copies of key/value state items, as other
 states do

---
 src/upstage_des/states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index e6f2b4c..073961f 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1203,7 +1203,7 @@ class _KeyValueBase(State):
 
     def _record_single(self, instance: "Actor", time: float, key: str, value: Any) -> None:
         name = f"{self.name}.{key}"
-        new = (time, value)
+        new = (time, deepcopy(value))
         if name not in instance._state_histories:
             instance._state_histories[name] = [new]
         elif self._record_duplicates or not _compare(new, instance._state_histories[name][-1]):
@@ -1233,7 +1233,7 @@ class _KeyValueBase(State):
         else:
             raise SimulationError(f"No key given for recording on {instance}")
 
-        self._do_record_funcs(instance, now, instance.__dict__[self.name])
+        self._do_record_funcs(instance, now, deepcopy(instance.__dict__[self.name]))
 
     def _make_clone(self, instance: "Actor") -> Any:
         raise NotImplementedError()
-- 
2.43.0


From 0c100808ec3c2771f164b63756d78ca7db9eba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 04/94] fix: store a dictionary state only once all its items
 pass the type check

---
 src/upstage_des/states.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 073961f..3d3209c 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1304,10 +1304,11 @@ class DictionaryState(_KeyValueBase, Generic[VT]):
         if self.name in instance.__dict__:
             raise SimulationError(f"State {self.name} already set on {instance}.")
 
-        instance.__dict__[self.name] = {}
+        new: dict[str, VT] = {}
         for k, v in value.items():
             self._type_check(v, throw=True)
-            instance.__dict__[self.name][k] = v
+            new[k] = v
+        instance.__dict__[self.name] = new
 
         self._record_state(instance, all=True)
 
-- 
2.43.0


From b3941fa9fb3b7eaee4d7acd31a0b01174fa12b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 05/94] fix: validate communication store modes first and keep
 the caller's description

---
 src/upstage_des/states.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 3d3209c..02a4858 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1156,8 +1156,8 @@ class CommunicationStore(ResourceState[Store]):
         # See if the instance has any specific mode data to find.
         modes: str | list[str] | None = self._modes
         if isinstance(value, dict) and "modes" in value:
-            modes = value.pop("modes")
-        super().__set__(instance, value)
+            modes = value["modes"]
+            value = {k: v for k, v in value.items() if k != "modes"}
         if modes is None:
             raise SimulationError(
                 f"CommunicationsStore {self.name} needs a mode defined"
@@ -1165,8 +1165,9 @@ class CommunicationStore(ResourceState[Store]):
             )
         if isinstance(modes, str):
             modes = [modes]
-        if not isinstance(modes, list) and not all(isinstance(x, str) for x in modes):
+        if not isinstance(modes, list) or not all(isinstance(x, str) for x in modes):
             raise SimulationError("CommunicationsStore modes should be a list of strings.")
+        super().__set__(instance, value)
         instance.__dict__[self._modename] = set(modes)
 
 
-- 
2.43.0


From 50cc1924156a803aa826e380f61e5dfe918b472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 06/94] fix: apply state defaults in declaration order, not in
 hash order

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 9cb8282..ae4af66 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -76,7 +76,7 @@ class Actor(SettableEnv, NamedUpstageEntity):
             else:
                 raise UpstageError(f"Input to {self} was not expected: {state}={value}")
         exist = set(self._state_defs.keys())
-        unseen = exist - seen
+        unseen = [state_name for state_name in self._state_defs if state_name not in seen]
         for state_name in unseen:
             _state = self._state_defs[state_name]
             if _state.has_default():
-- 
2.43.0


From 2af24d1e26c0c3bd764c9885975f05cfb43518b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 07/94] fix: deactivate a task's states in an order independent
 of the hash seed

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index ae4af66..b50cb4c 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -430,7 +430,7 @@ Args:
         Args:
             task (Task): The task that is deactivating the states.
         """
-        state_names = list(self._states_by_task[task])
+        state_names = sorted(self._states_by_task[task])
         self.deactivate_states(states=state_names, task=task)
 
     def get_active_state_data(
-- 
2.43.0


From 3a13d0bef5c146de79173b8b92594231e1eaa413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 08/94] fix: deactivating a task's mimic states leaves other
 tasks' mimics alone

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index b50cb4c..e329f81 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -531,7 +531,7 @@ Args:
         Args:
             task (Task): The task where states are mimicking others.
         """
-        for state in list(self._mimic_states):
+        for state in sorted(self._mimic_states_by_task[task]):
             self.deactivate_mimic_state(self_state=state, task=task)
 
     def _add_callback_to_state(
-- 
2.43.0


From 4fe8397231f70a30272229c76a70255d61d2e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 09/94] fix: record the deactivation of a shared linear state

---
 src/upstage_des/state_sharing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_sharing.py b/src/upstage_des/state_sharing.py
index 5867c2f..6f7ae68 100644
--- a/src/upstage_des/state_sharing.py
+++ b/src/upstage_des/state_sharing.py
@@ -125,4 +125,4 @@ class SharedLinearChangingState(ActiveState[float]):
         getattr(instance, self.name)
         if rate_tasks:
             return True
-        return False
+        return super().deactivate(instance, task)
-- 
2.43.0


From fdebb47d71bb501c464d4279f2e40411cec4521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 10/94] fix: give a cloned actor its own task queues, so
 rehearsing keeps the original's

---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index e329f81..fba7bb4 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1030,7 +1030,7 @@ Args:
         for name, data in knowledge.items():
             clone._knowledge[name] = copy(data)
 
-        clone._task_queue = copy(self._task_queue)
+        clone._task_queue = {name: list(queue) for name, queue in self._task_queue.items()}
         clone._task_networks = copy(self._task_networks)
 
         if clone._debug_logging:
-- 
2.43.0


From f06a1c7c5ba91bf1abc67ab8b6a6a98ac1ba246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 11/94] fix: copy the histories of recording functions and of
 state items to clones

---
 src/upstage_des/actor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index fba7bb4..54cd2ec 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1019,9 +1019,8 @@ Args:
                 setattr(clone, attribute_name, attribute)
 
         # update the state histories
-        for state_name in self._state_defs:
-            if state_name in self._state_histories:
-                clone._state_histories[state_name] = deepcopy(self._state_histories[state_name])
+        for history_name, history in self._state_histories.items():
+            clone._state_histories[history_name] = deepcopy(history)
 
         clone._knowledge = {}
         for name, data in self._knowledge.items():
-- 
2.43.0


From 9902a06e2c139358a95f555e50ea151a7ec8dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 12/94] fix: clone actors whose class has properties or class
 methods

---
 src/upstage_des/actor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 54cd2ec..04e3d12 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1014,6 +1014,7 @@ Args:
                     attribute_name in ignored_attributes,
                     attribute_name.startswith("_"),
                     callable(attribute),
+                    hasattr(attribute, "__get__"),
                 )
             ):
                 setattr(clone, attribute_name, attribute)
-- 
2.43.0


From 1de51045d52358f75869a8254579fb35e1d23b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 13/94] fix: clone actors that have unset states with an
 allowed None default

---
 src/upstage_des/actor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 04e3d12..a24bd52 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -988,6 +988,13 @@ Args:
         states: dict[str, Any] = {}
         for state in self.states:
             state_obj = self._state_defs[state]
+            if (
+                state_obj._allow_none_default
+                and state not in self.__dict__
+                and state not in self._mimic_states
+            ):
+                # never set, so there is no value to copy
+                continue
             if isinstance(state_obj, ResourceState):
                 states[state] = state_obj._make_clone(self, getattr(self, state))
             elif isinstance(state_obj, _KeyValueBase):
-- 
2.43.0


From ee6f8705e31d485362502ecd539dc433544b7da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 14/94] fix: clone actors that have no_init states

---
 src/upstage_des/actor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index a24bd52..73e1095 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1001,6 +1001,8 @@ Args:
                 states[state] = state_obj._make_clone(self)
             else:
                 states[state] = copy(getattr(self, state))
+        # States that cannot be given at initialization are set afterwards
+        no_init = {k: states.pop(k) for k in list(states) if self._state_defs[k]._no_init}
         states.update(new_states)
 
         self._num_clones += 1
@@ -1011,6 +1013,8 @@ Args:
             debug_log_time=self._debug_log_time,
             **states,
         )
+        clone.__dict__.update(no_init)
+
         clone.env = new_env
 
         ignored_attributes = list(states.keys()) + ["env", "stage"]
-- 
2.43.0


From e281900e9e14c57c2639c159b82c9801d3853c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 15/94] fix: clone actors whose resources were given as
 objects, and clones of actors

---
 src/upstage_des/actor.py  | 5 +++++
 src/upstage_des/states.py | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 73e1095..5ceafbb 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1015,6 +1015,11 @@ Args:
         )
         clone.__dict__.update(no_init)
 
+        for state in self.states:
+            memory = self.__dict__.get(f"_memory_for_{state}")
+            if memory is not None and state not in new_states:
+                clone.__dict__[f"_memory_for_{state}"] = dict(memory)
+
         clone.env = new_env
 
         ignored_attributes = list(states.keys()) + ["env", "stage"]
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 02a4858..255967e 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1080,7 +1080,9 @@ class ResourceState(State, Generic[T]):
             T: The copied store or container
         """
         base_class = type(copy)
-        memory: dict[str, Any] = instance.__dict__[f"_memory_for_{self.name}"]
+        memory: dict[str, Any] = instance.__dict__.get(
+            f"_memory_for_{self.name}", {"capacity": copy.capacity}
+        )
         new = base_class(instance.env, **memory)  # type: ignore [arg-type]
         if isinstance(copy, Store) and isinstance(new, Store):
             new.items = list(copy.items)
-- 
2.43.0


From 1607819c282adb2673caa7fdc56a961285a289c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 16/94] fix: movement along waypoints that repeat a position

---
 src/upstage_des/states.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 255967e..75c127b 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -659,7 +659,8 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
             path_time: float = path_data["times"][wypt_index]
             path_start: CartesianLocation = path_data["starts"][wypt_index]
             path_vector: list[float] = path_data["vectors"][wypt_index]
-            time_frac = time_along / path_time
+            # a leg without length is done as soon as it is reached
+            time_frac = time_along / path_time if path_time else 1.0
             direction_amount = [time_frac * v for v in path_vector]
             new_point = _vector_add(path_start._as_array(), direction_amount)
 
@@ -864,7 +865,9 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             path_dist: float = path_data["distances"][wypt_index]
             path_bearing: float = path_data["bearings"][wypt_index]
             path_start: GeodeticLocation = path_data["starts"][wypt_index]
-            moved_distance = (time_along / path_time) * path_dist
+            # a leg without length is done as soon as it is reached
+            time_frac = time_along / path_time if path_time else 1.0
+            moved_distance = time_frac * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
                 (path_start.lat, path_start.lon),
                 path_bearing,
@@ -874,7 +877,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             # update the altitude
             waypoint: GeodeticLocation = data["waypoints"][wypt_index]
             alt_shift = waypoint.alt - path_start.alt
-            alt_shift *= time_along / path_time
+            alt_shift *= time_frac
             new_alt = path_start.alt + alt_shift
             # make the right kind of location object
             lat, lon = new_point[0], new_point[1]
-- 
2.43.0


From 46a187769b7ab6cef692aa945bafbd299a956d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 17/94] fix: move along geodetic waypoints that are given in
 radians

---
 src/upstage_des/states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 75c127b..3af5b96 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -751,8 +751,8 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         starts: list[GeodeticLocation] = []
         for wypt in waypoints:
             dist, bear = STAGE.stage_model.distance_and_bearing(
-                (current.lat, current.lon),
-                (wypt.lat, wypt.lon),
+                current.latlon(),
+                wypt.latlon(),
                 units=STAGE.distance_units,
             )
             time = dist / speed
@@ -869,7 +869,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             time_frac = time_along / path_time if path_time else 1.0
             moved_distance = time_frac * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
-                (path_start.lat, path_start.lon),
+                path_start.latlon(),
                 path_bearing,
                 moved_distance,
                 STAGE.distance_units,
-- 
2.43.0


From bb3d5f711ef40b2e608b9282db839df9c5d00cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 18/94] fix: do not tell the motion manager of a rehearsing
 actor's detectability

---
 src/upstage_des/states.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 3af5b96..10828ef 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -373,6 +373,8 @@ class DetectabilityState(State[bool]):
         if self.name not in instance.__dict__:
             was_set = False
         super().__set__(instance, value)
+        if getattr(instance, "_is_rehearsing", False):
+            return
         if hasattr(instance.stage, "motion_manager") and was_set:
             mgr = instance.stage.motion_manager
             if not value:
-- 
2.43.0


From 1ea0acae0632225ce2d6af9d1a77f7b611ec978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 19/94] fix: do not share the resources of a multi-store state
 with clones

---
 src/upstage_des/states.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 10828ef..cc4eecf 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -921,6 +921,27 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
 T = TypeVar("T", bound=Store | Container)
 
 
+def _copy_resource(instance: "Actor", resource: T, kwargs: dict[str, Any]) -> T:
+    """Make a new store or container with the contents of another.
+
+    Args:
+        instance (Actor): The owning actor
+        resource (T): The store or container to copy
+        kwargs (dict[str, Any]): Inputs to create the new one with
+
+    Returns:
+        T: The copied store or container
+    """
+    base_class = type(resource)
+    new = base_class(instance.env, **kwargs)  # type: ignore [arg-type]
+    if isinstance(resource, Store) and isinstance(new, Store):
+        new.items = list(resource.items)
+    if isinstance(resource, Container) and isinstance(new, Container):
+        # This is a particularity of simpy containers
+        new._level = float(resource.level)
+    return cast(T, new)
+
+
 class ResourceState(State, Generic[T]):
     """A State class for States that are meant to be Stores or Containers.
 
@@ -1084,17 +1105,10 @@ class ResourceState(State, Generic[T]):
         Returns:
             T: The copied store or container
         """
-        base_class = type(copy)
         memory: dict[str, Any] = instance.__dict__.get(
             f"_memory_for_{self.name}", {"capacity": copy.capacity}
         )
-        new = base_class(instance.env, **memory)  # type: ignore [arg-type]
-        if isinstance(copy, Store) and isinstance(new, Store):
-            new.items = list(copy.items)
-        if isinstance(copy, Container) and isinstance(new, Container):
-            # This is a particularity of simpy containers
-            new._level = float(copy.level)
-        return cast(T, new)
+        return _copy_resource(instance, copy, memory)
 
 
 class CommunicationStore(ResourceState[Store]):
@@ -1531,6 +1545,12 @@ class MultiStoreState(DictionaryState[T]):
 
         super().__set__(instance, use)
 
+    def _make_clone(self, instance: "Actor") -> dict[str, T]:
+        return {
+            name: _copy_resource(instance, resource, {"capacity": resource.capacity})
+            for name, resource in instance.__dict__[self.name].items()
+        }
+
     def has_default(self) -> bool:
         # Force the state to be defined.
         return False
-- 
2.43.0


From 3536ec76bf9ec5a0b3a1b5a655838d6ce76e193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 20/94] fix: keep clones of actors and of their resources out
 of the tracked entities

---
 src/upstage_des/actor.py  |  3 +++
 src/upstage_des/base.py   | 10 ++++++++++
 src/upstage_des/states.py |  4 +++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 5ceafbb..e882560 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1013,6 +1013,9 @@ Args:
             debug_log_time=self._debug_log_time,
             **states,
         )
+        # the clone only rehearses, it is not one of the simulation's entities
+        clone._remove_entity()
+
         clone.__dict__.update(no_init)
 
         for state in self.states:
diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index d952c44..78921fc 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -421,6 +421,16 @@ class NamedUpstageEntity(UpstageBase):
             self._add_to_group(group_name)
         self._add_special_group()
 
+    def _remove_entity(self) -> None:
+        """Remove self from the entity groups and tracked lists of the context.
+
+        Used for copies that take no part in the simulation.
+        """
+        special = SPECIAL_ENTITY_CONTEXT_VAR.get()
+        groups: list[list[Any]] = list(ENTITY_CONTEXT_VAR.get().values())
+        for members in [*groups, special.actors, special.monitored]:
+            members[:] = [member for member in members if member is not self]
+
     def __init__(self, *args: Any, **kwargs: Any) -> None:
         """Init the named entity."""
         super().__init__(*args, **kwargs)
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index cc4eecf..66c3504 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -14,7 +14,7 @@ from typing import TYPE_CHECKING, Any, Generic, Protocol, TypeVar, cast, runtime
 
 from simpy import Container, Environment, Store
 
-from upstage_des.base import SimulationError, UpstageError
+from upstage_des.base import NamedUpstageEntity, SimulationError, UpstageError
 from upstage_des.data_types import CartesianLocation, GeodeticLocation
 from upstage_des.math_utils import _vector_add, _vector_subtract
 from upstage_des.resources.monitoring import SelfMonitoringStore
@@ -934,6 +934,8 @@ def _copy_resource(instance: "Actor", resource: T, kwargs: dict[str, Any]) -> T:
     """
     base_class = type(resource)
     new = base_class(instance.env, **kwargs)  # type: ignore [arg-type]
+    if isinstance(new, NamedUpstageEntity):
+        new._remove_entity()
     if isinstance(resource, Store) and isinstance(new, Store):
         new.items = list(resource.items)
     if isinstance(resource, Container) and isinstance(new, Container):
-- 
2.43.0


From 6be414cc6191b37764b0b0fc39459409c0d0e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:40 +0000
Subject: [PATCH 21/94] fix: yield routines after events with values, and give
 back the result of the routine only

---
 src/upstage_des/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 158e30a..4ec4bd2 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -493,8 +493,7 @@ class Task(SettableEnv):
                         except StopIteration as e:
                             generators.pop()
                             gen_objs.pop()
-                            if e.value is not None:
-                                return_item = e.value
+                            return_item = e.value
                             if not generators:
                                 stop_run = True
                                 break
@@ -505,6 +504,7 @@ class Task(SettableEnv):
                         if isinstance(next_event, Routine):
                             generators.append(next_event._run())
                             gen_objs.append(next_event)
+                            return_item = None
                             continue
 
                         if isinstance(next_event, Process):
-- 
2.43.0


From 5ff90ce6aa4f797df5cb7999b4743cd7a1afe308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:40 +0000
Subject: [PATCH 22/94] fix: send the values of events to the routine that
 yields them

---
 src/upstage_des/routines.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 1a6ac68..f47c49c 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -45,11 +45,12 @@ class Routine(SettableEnv):
     def _run(self) -> ROUTINE_GEN:
         try:
             gen = self.run()
+            value: Any = None
             while True:
-                evt = next(gen)
+                evt = gen.send(value)
                 if not isinstance(evt, BaseEvent):
                     raise SimulationError("Routines only support BaseEvent subclasses.")
-                yield evt
+                value = yield evt
         except StopIteration as e:
             return e.value
         except GeneratorExit:
@@ -80,10 +81,15 @@ class Routine(SettableEnv):
             tuple[float, Any | None]: Time and value of rehearsal.
         """
         time = 0.0
-        for evt in self._run():
-            t, _ = evt.rehearse()
+        gen = self._run()
+        value: Any = None
+        while True:
+            try:
+                evt = gen.send(value)
+            except StopIteration:
+                return time, None
+            t, value = evt.rehearse()
             time += t
-        return time, None
 
 
 class WindowedGet(Routine):
-- 
2.43.0


From 4816fe3e108346a9231c97ddfd9805839974782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:27 +0000
Subject: [PATCH 23/94] fix: reach the limits of a continuous container despite
 rounding

---
 src/upstage_des/resources/container.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index dc76d40..25a2d04 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -336,10 +336,14 @@ class ContinuousContainer:
 
         level = self.level
 
-        check_wait = ((self._capacity if self._rate > 0 else 0.0) - level) / self._rate
+        limit = self._capacity if self._rate > 0 else 0.0
+        check_wait = (limit - level) / self._rate
 
         try:
             yield self._env.timeout(check_wait)
+            # The limit is reached now, regardless of rounding in the time.
+            self._level = limit
+            self._last = self._env.now
         except Interrupt as interruption:
             if interruption.cause != "updated":
                 raise  # pragma: no cover
-- 
2.43.0


From 1b2e4f133b09eace381ba34293f0cb66c97e3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:30 +0000
Subject: [PATCH 24/94] fix: measure the time until a level from the current
 level of the container

---
 src/upstage_des/resources/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index 25a2d04..95160fb 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -220,7 +220,7 @@ class ContinuousContainer:
             return 0.0  # pragma: no cover
         elif rate == 0:
             return float("inf")  # pragma: no cover
-        time = (level - self._level) / rate
+        time = (level - self.level) / rate
         return time if time > 0 else float("inf")
 
     def time_until_done(self, rate: float = 0.0) -> float:
-- 
2.43.0


From 44077f10d1e9c4796e30dfe6d2d0949ae9bb0d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:33 +0000
Subject: [PATCH 25/94] fix: get falsy items, and exactly the chosen item, from
 a sorted filter store

---
 src/upstage_des/resources/sorted.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/upstage_des/resources/sorted.py b/src/upstage_des/resources/sorted.py
index 576ce0b..991d14c 100644
--- a/src/upstage_des/resources/sorted.py
+++ b/src/upstage_des/resources/sorted.py
@@ -81,22 +81,21 @@ class SortedFilterStore(Store):
         get = BoundClass(_SortedFilterStoreGet)
 
     def _do_get(self, event: _SortedFilterStoreGet) -> bool:  # type: ignore[override]
-        min_item: Any = None
+        min_idx: int | None = None
         # min_val is a tuple, in case the sorter returns an iterable
         min_val: tuple[Any, ...] | None = None
-        for item in self.items:
+        for idx, item in enumerate(self.items):
             if event.filter(item):
                 if event.sorter is not None:
                     val = event.sorter(item)
-                    if min_val is None or (val > min_val if event.reverse else val < min_val):
-                        min_item = item
+                    if min_idx is None or (val > min_val if event.reverse else val < min_val):
+                        min_idx = idx
                         min_val = val
                 else:
-                    min_item = item
+                    min_idx = idx
                     break
-        if min_item:
-            self.items.remove(min_item)
-            event.succeed(min_item)
+        if min_idx is not None:
+            event.succeed(self.items.pop(min_idx))
         return True
 
 
-- 
2.43.0


From 83fab50efcedadbdeedc4c0f6a2bc9d30e5cf5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:37 +0000
Subject: [PATCH 26/94] fix: an expired reservation does not cancel a newer one
 of the same requester

---
 src/upstage_des/resources/reserve.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 80416ea..5d65e88 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -72,7 +72,9 @@ class ReserveContainer:
         return list(self._queued.keys())
 
     @process
-    def _expire_request(self, requester: Any, time: float) -> Generator[Event, None, None]:
+    def _expire_request(
+        self, requester: Any, time: float, request: tuple[float, float]
+    ) -> Generator[Event, None, None]:
         """Expire the request after an expiration period or at a specific time.
 
         :param request: the Request namedtuple object
@@ -83,7 +85,9 @@ class ReserveContainer:
 
         """
         yield self._env.timeout(time)
-        self.cancel_request(requester)
+        # The requester may have a newer request by now.
+        if self._queued.get(requester) is request:
+            self.cancel_request(requester)
 
     def reserve(self, requester: Any, quantity: float, expiration: float | None = None) -> bool:
         """Reserve a quantity of storage."""
@@ -91,9 +95,10 @@ class ReserveContainer:
             return False
         elif requester not in self._queued:
             self._level -= quantity
-            self._queued[requester] = (quantity, self._env.now)
+            request = (quantity, self._env.now)
+            self._queued[requester] = request
             if expiration is not None:
-                self._expire_request(requester, expiration)
+                self._expire_request(requester, expiration, request)
             return True
         else:
             return False
-- 
2.43.0


From 1abed86e6dd5d659c4022371094779cc401066b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 27/94] fix: cancel reservations of requesters that are equal
 but not identical

---
 src/upstage_des/resources/reserve.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 5d65e88..5e9cf7c 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -108,11 +108,8 @@ class ReserveContainer:
         if requester not in self._queued:
             return False
         else:
-            request = [x for x in self._queued if x is requester]
-            if not request:
-                raise ValueError("Requester not available to cancel")
-            self._level += self._queued[requester][0]
-            self._queued.pop(request[0])
+            quantity, _ = self._queued.pop(requester)
+            self._level += quantity
             return True
 
     def take(self, requester: Any) -> float:
-- 
2.43.0


From f0da29ed49a753ffe4fdddd69fd124ba2e273e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:45 +0000
Subject: [PATCH 28/94] fix: count reserved amounts when putting into a
 reservable container

---
 src/upstage_des/resources/reserve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 5e9cf7c..f524eb8 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -123,9 +123,9 @@ class ReserveContainer:
 
     def put(self, amount: float, capacity_increase: bool = False) -> None:
         """Put some quantity back in."""
-        new = self._level + amount
+        new = self._real_level + amount
         if new > self.capacity and not capacity_increase:
             raise ValueError("Adding too much.")
         else:
-            self._level = new
-            self._real_level += amount
+            self._level += amount
+            self._real_level = new
-- 
2.43.0


From 6097365da20d9c21a20b1121d5cc7276759aca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 29/94] fix: cancel events that have triggered already

---
 src/upstage_des/events.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index f345f1e..c8d3196 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -426,7 +426,8 @@ class MultiEvent(BaseEvent):
         if self._simpy_event is None:
             raise UpstageError("Can't cancel a nonexistent event.")
         self._simpy_event.defused = True
-        self._simpy_event.fail(Exception("defused"))
+        if not self._simpy_event.triggered:
+            self._simpy_event.fail(Exception("defused"))
         for event in self.events:
             if isinstance(event, BaseEvent):
                 try:
@@ -856,6 +857,9 @@ class Event(BaseEvent):
         Cancelling doesn't mean much, since it's still going to be yielded on.
         """
         try:
+            if self._event.triggered and not self._event.defused:
+                # It succeeded before the cancel.
+                return
             self._event.defused = True
             self._event.succeed()
         except RuntimeError as exc:
-- 
2.43.0


From 31b8e79330200725487e81684f79b3e244267eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:09 +0000
Subject: [PATCH 30/94] fix: give back what a request was granted when it is
 cancelled before it is received

---
 src/upstage_des/events.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index c8d3196..78cd0f5 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -279,9 +279,15 @@ class BaseRequestEvent(BaseEvent):
         """Cancel the Request."""
         if self._request_event is None:
             return
-        if not self.is_complete():
+        if self.is_complete():
+            return
+        if self._request_event.triggered:
+            self._give_back()
+        else:
             self._request_event.cancel()
-        # TODO: Do we put it back?
+
+    def _give_back(self) -> None:
+        """Undo a request that was granted, but not received before the cancel."""
 
     def is_complete(self) -> bool:
         """Test if the request is finished.
@@ -595,6 +601,13 @@ class Get(BaseRequestEvent):
             )
         return self._request_event
 
+    def _give_back(self) -> None:
+        """Put back what the request took."""
+        if isinstance(self._request_event, ContainerGet):
+            self.get_location.put(self._request_event.amount)
+        elif self._request_event is not None:
+            self.get_location.put(self._request_event.value)
+
     def get_value(self) -> tyAny:
         """Get the value returned when the request is complete.
 
@@ -711,6 +724,11 @@ class ResourceHold(BaseRequestEvent):
             return self._request_event
         raise UpstageError(f"Bad stage for Resource Hold: {self._stage}")
 
+    def _give_back(self) -> None:
+        """Release the resource that the request holds."""
+        if self._request_event is self._request:
+            self.resource.release(self._request)
+
 
 class FilterGet(Get):
     """A Get for a FilterStore."""
-- 
2.43.0


From f6a5727480579b14a819ad2dbfe2d434bfd28d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:08 +0000
Subject: [PATCH 31/94] fix: a nucleus does not interrupt tasks that have ended

---
 src/upstage_des/nucleus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index d04f4fa..2e43656 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -104,7 +104,7 @@ class TaskNetworkNucleus:
             if net is None:
                 raise UpstageError(f"No network {net_name} in {self._actor}")
             proc = net._current_task_proc
-            if proc is not None:
+            if proc is not None and proc.is_alive:
                 proc.interrupt(
                     cause=NucleusInterrupt(state_name, state_value),
                 )
-- 
2.43.0


From 6fabf2575f70e75e57e2aab8472fd0f5e627c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 32/94] fix: a nucleus interrupts networks in an order
 independent of the hash seed

---
 src/upstage_des/nucleus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index 2e43656..efb63b7 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -99,7 +99,7 @@ class TaskNetworkNucleus:
             state_name (str): The state's name.
             state_value (Any): The value of the state.
         """
-        for net_name in self._state_map.get(state_name, []):
+        for net_name in sorted(self._state_map.get(state_name, [])):
             net: TaskNetwork | None = self._actor._task_networks.get(net_name, None)
             if net is None:
                 raise UpstageError(f"No network {net_name} in {self._actor}")
-- 
2.43.0


From 42b3a758da380b22e4a74d7c42a8314e7e386318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 33/94] fix: do not report the ended task as running while a
 decision is made

---
 src/upstage_des/task_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/upstage_des/task_network.py b/src/upstage_des/task_network.py
index 3c0c8c6..d07ab04 100644
--- a/src/upstage_des/task_network.py
+++ b/src/upstage_des/task_network.py
@@ -129,6 +129,7 @@ class TaskNetwork:
                 isinstance(self._current_task_inst, DecisionTask)
                 and self._current_task_inst.DO_NOT_HOLD
             ):
+                self._current_task_proc = None
                 self._current_task_inst.run_skip(actor=actor)
             else:
                 self._current_task_proc = self._current_task_inst.run(actor=actor)
-- 
2.43.0


From 09bc7d75e494280dd39fd277dcf1c856557500c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 34/94] fix: restore the environment of a task when its
 rehearsal fails

---
 src/upstage_des/task.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 4ec4bd2..1dc75cd 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -358,11 +358,11 @@ class Task(SettableEnv):
             Actor: Cloned actor
         """
         mocked_env = MockEnvironment.mock(self.env)
-        self.env = mocked_env
         understudy = actor.clone(
             new_env=mocked_env,
             knowledge=knowledge,
         )
+        self.env = mocked_env
         return understudy
 
     def rehearse(
@@ -395,6 +395,23 @@ class Task(SettableEnv):
         mocked_env: MockEnvironment = understudy.env
 
         self._rehearsing = True
+        try:
+            self._rehearse_events(understudy, mocked_env, **kwargs)
+        finally:
+            self.env = _old_env
+            self._rehearsing = False
+        return understudy
+
+    def _rehearse_events(
+        self, understudy: "Actor", mocked_env: MockEnvironment, **kwargs: Any
+    ) -> None:
+        """Rehearse the events of the task, advancing the clock of the rehearsal.
+
+        Args:
+            understudy (Actor): The cloned actor.
+            mocked_env (MockEnvironment): The environment of the rehearsal.
+            kwargs (Any): Optional args to send to the task.
+        """
         generator = self.task(actor=understudy, **kwargs)
         returned_item = None
         while True:
@@ -418,10 +435,6 @@ class Task(SettableEnv):
                 #      f"{self.env.now - _old_env.now:.3g}]")
                 break
 
-        self.env = _old_env
-        self._rehearsing = False
-        return understudy
-
     def _handle_interruption(
         self, actor: "Actor", interrupt: Interrupt, next_event: BaseEvent | Process
     ) -> InterruptStates:
@@ -599,9 +612,11 @@ class DecisionTask(Task):
 
         self._rehearsing = True
 
-        self.rehearse_decision(actor=understudy)
-        self.env = _old_env
-        self._rehearsing = False
+        try:
+            self.rehearse_decision(actor=understudy)
+        finally:
+            self.env = _old_env
+            self._rehearsing = False
         return understudy
 
     @process
-- 
2.43.0


From 1155c15bf90a0a8dc2dd304e615fb7d14efe4f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:45 +0000
Subject: [PATCH 35/94] fix: restore the current task of a network when its
 rehearsal fails

---
 src/upstage_des/task_network.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/task_network.py b/src/upstage_des/task_network.py
index d07ab04..9722ab5 100644
--- a/src/upstage_des/task_network.py
+++ b/src/upstage_des/task_network.py
@@ -161,6 +161,32 @@ class TaskNetwork:
         _old_inst = self._current_task_inst
         _old_proc = self._current_task_proc
         knowledge = {} if knowledge is None else knowledge
+        try:
+            return self._rehearse_tasks(actor, task_name_list, knowledge, end_task)
+        finally:
+            # reset the internal parameters
+            self._current_task_name = _old_name
+            self._current_task_inst = _old_inst
+            self._current_task_proc = _old_proc
+
+    def _rehearse_tasks(
+        self,
+        actor: REH_ACTOR,
+        task_name_list: list[str],
+        knowledge: dict[str, Any],
+        end_task: str | None,
+    ) -> REH_ACTOR:
+        """Rehearse tasks on a clone of the actor.
+
+        Args:
+            actor (Actor): The actor to clone
+            task_name_list (list[str]): The tasks to be performed in order
+            knowledge (dict[str, Any]): Knowledge to give to the cloned/rehearsing actor
+            end_task (str | None): A task name to end on
+
+        Returns:
+            Actor: The rehearsed clone.
+        """
         num_tasks = len(task_name_list)
         # pre-clone the actor to get a hold of the new environment
         new_actor = actor.clone(knowledge=knowledge)
@@ -190,10 +216,6 @@ class TaskNetwork:
                         f"Task {follow_on} not allowed after '{task_name}' in network"
                     )
             task_idx += 1
-        # reset the internal parameters
-        self._current_task_name = _old_name
-        self._current_task_inst = _old_inst
-        self._current_task_proc = _old_proc
         return new_actor
 
     def __repr__(self) -> str:
-- 
2.43.0


From 07ab103ded6919c1baa99e4791093891fbe25a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:49 +0000
Subject: [PATCH 36/94] fix: tell in a rehearsal whether an event is complete

---
 src/upstage_des/events.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 78cd0f5..b3aa580 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -830,7 +830,7 @@ class Event(BaseEvent):
         Returns:
             SIM.Event
         """
-        if self.is_complete():
+        if self._event.processed:
             if self._auto_reset:
                 self.reset()
             else:
@@ -843,7 +843,7 @@ class Event(BaseEvent):
         Args:
             **kwargs (Any): key:values to store as payload.
         """
-        if self.is_complete():
+        if self._event.processed:
             raise SimulationError("Event has already completed")
         self._payload = kwargs
         self._event.succeed()
@@ -854,6 +854,8 @@ class Event(BaseEvent):
         Returns:
             bool
         """
+        if self._rehearsing:
+            return self._done_rehearsing
         return self._event.processed
 
     def get_payload(self) -> dict[str, tyAny]:
-- 
2.43.0


From 2d6d441e6795b0afa7d225565e1cd56b8ee8dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:41 +0000
Subject: [PATCH 37/94] fix: refuse an initial level above the capacity of a
 continuous container

---
 src/upstage_des/resources/container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index 95160fb..101638d 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -173,6 +173,8 @@ class ContinuousContainer:
         self._capacity = capacity
         if init < 0 or capacity < 0:
             raise ValueError("Initial and capacity cannot be negative.")  # pragma: no cover
+        if init > capacity:
+            raise ValueError("Initial cannot exceed the capacity.")
         self._level = init
         self.error_empty = error_empty
         self.error_full = error_full
-- 
2.43.0


From 2baaf7cfd4d6e03ff20714654f4ba7ddc4d56b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:02 +0000
Subject: [PATCH 38/94] fix: choose among equally short routes independently of
 hash values

---
 src/upstage_des/communications/routing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index 4ea0d91..82c0b0e 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -21,7 +21,8 @@ def _shortest_path(network: dict[str, set[str]], start: str, goal: str) -> list[
 
     while queue:
         node, path = queue.popleft()
-        for neighbor in network.get(node, set()):
+        # Sorted, so that equally short routes do not depend on hash values.
+        for neighbor in sorted(network.get(node, set())):
             if neighbor == goal:
                 return path + [neighbor]
             if neighbor not in visited:
-- 
2.43.0


From 1bbb5676fd0beba758672c885439e73bed5cc26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:28 +0000
Subject: [PATCH 39/94] fix: drop the destination from the route options when
 it cannot be reached

---
 src/upstage_des/communications/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index 82c0b0e..b2c8ba6 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -266,9 +266,9 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
         u, v = source.name, dest.name
         if u not in self._network:
             return None
-        if v in self._network[u]:
-            return dest
         ignore_names = [x.name for x in ignore_nodes] if ignore_nodes is not None else []
+        if v in self._network[u] and v not in ignore_names:
+            return dest
         net = {k: v - set(ignore_names) for k, v in self._network.items() if k not in ignore_names}
         path = _shortest_path(net, u, v)
         if not path:
-- 
2.43.0


From 895c4b5a08a249f6ff5016305ee1d9b7dc06ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:14 +0000
Subject: [PATCH 40/94] fix: give every actor its own instance of a recording
 class

---
 src/upstage_des/actor.py  |  2 ++
 src/upstage_des/states.py | 15 +++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index e882560..3064d8a 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1041,6 +1041,8 @@ Args:
         # update the state histories
         for history_name, history in self._state_histories.items():
             clone._state_histories[history_name] = deepcopy(history)
+        if "_state_recorders" in self.__dict__:
+            clone.__dict__["_state_recorders"] = deepcopy(self.__dict__["_state_recorders"])
 
         clone._knowledge = {}
         for name, data in self._knowledge.items():
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 66c3504..20fcaf5 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -151,15 +151,12 @@ class State(Generic[ST]):
         self._record_duplicates = record_duplicates
         self._change_callbacks: dict[Any, CALLBACK_FUNC] = {}
         self._allow_none_default = allow_none_default
-        self._recording_functions: list[tuple[RECORD_FUNC, str]] = []
+        self._recording_functions: list[RECORD_TUPLES] = []
         if recording_functions is not None:
             for thing, name in recording_functions:
                 if isinstance(thing, type):
-                    use = thing()
-                    assert isinstance(use, RecordClass)
-                    self._recording_functions.append((use, name))
-                else:
-                    self._recording_functions.append((thing, name))
+                    assert issubclass(thing, RecordClass)
+                self._recording_functions.append((thing, name))
 
         self._types: tuple[type, ...]
 
@@ -173,6 +170,12 @@ class State(Generic[ST]):
 
     def _do_record_funcs(self, instance: "Actor", now: float, value: ST) -> None:
         for func, name in self._recording_functions:
+            if isinstance(func, type):
+                # a recording class keeps its own data for each actor
+                recorders = instance.__dict__.setdefault("_state_recorders", {})
+                if name not in recorders:
+                    recorders[name] = func()
+                func = recorders[name]
             result = func(now, value)
             new_append = (now, result)
             if name not in instance._state_histories:
-- 
2.43.0


From 34d706a533dd2a4ae69b752b6439bd97b98b8fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:28 +0000
Subject: [PATCH 41/94] fix: a plain actor refuses unknown states

---
 src/upstage_des/actor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 3064d8a..0da776f 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -182,6 +182,7 @@ class Actor(SettableEnv, NamedUpstageEntity):
             debug_log=debug_log,
             debug_log_time=debug_log_time,
             initial_knowledge=initial_knowledge,
+            **states,
         )
 
     def __init_subclass__(
-- 
2.43.0


From ca8eb9a9db196a1ff55e08b2acf593bb0cd2663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:56 +0000
Subject: [PATCH 42/94] fix: inherited fields of a dataclass state can be set

---
 src/upstage_des/state_proxies.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index 7a0409e..24dc354 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -1,7 +1,7 @@
 """Helpers and proxies for States."""
 
 from collections.abc import ItemsView, Iterable, KeysView, ValuesView
-from dataclasses import is_dataclass
+from dataclasses import fields, is_dataclass
 from typing import TYPE_CHECKING, Any, Generic, TypeVar, cast
 
 VTD = TypeVar("VTD")
@@ -107,7 +107,8 @@ class _DataclassProxy(Generic[TDC]):
         return self._wrapped.__dataclass_fields__
 
     def _typecheck(self, name: str, value: Any) -> None:
-        field_type = self._wrapped.__annotations__[name]
+        field_types: dict[str, Any] = {f.name: f.type for f in fields(self)}
+        field_type = field_types.get(name, object)
         if not isinstance(value, field_type):
             raise TypeError(
                 f"Dataclass value {value} for field {name} doesn't match type: {field_type}."
-- 
2.43.0


From d348e2770d33b7fc1ea4608f0d34c9d254f4f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:59 +0000
Subject: [PATCH 43/94] fix: setting an unknown field of a dataclass state is
 an error

---
 src/upstage_des/state_proxies.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index 24dc354..f25e173 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -135,6 +135,8 @@ class _DataclassProxy(Generic[TDC]):
                 self._typecheck(name, value)
                 setattr(self._wrapped, name, value)
                 self._descr._record_state(self._inst, name, all=False)
+            else:
+                raise AttributeError(f"{self._wrapped} has no attribute '{name}'.")
 
     def __eq__(self, other: Any) -> bool:
         if not is_dataclass(other):
-- 
2.43.0


From 5b5b9b289ad9255e63c333ebf9a0ec752be6ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 44/94] fix: a cartesian mover may travel its full path time
 late in a run

---
 src/upstage_des/states.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 20fcaf5..2d895de 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -10,6 +10,7 @@ from collections.abc import Callable, Iterable
 from copy import deepcopy
 from dataclasses import fields, replace
 from enum import Enum
+from math import ulp
 from typing import TYPE_CHECKING, Any, Generic, Protocol, TypeVar, cast, runtime_checkable
 
 from simpy import Container, Environment, Store
@@ -573,6 +574,8 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
             "distances": distances,
             "starts": starts,
             "vectors": vectors,
+            # differences of clock times are only as exact as the clock
+            "tolerance": 1e-12 + 4 * ulp(data["now"] + sum(times)),
         }
         instance._set_active_state_data(
             self.name,
@@ -606,7 +609,7 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         t: float
         for i, t in enumerate(path_data["times"]):
             sum_t += t
-            if time_elapsed <= (sum_t + 1e-12):
+            if time_elapsed <= (sum_t + path_data["tolerance"]):
                 return i, sum_t - t
         raise SimulationError(
             "CartesianLocation active state exceeded travel time: "
-- 
2.43.0


From 7078ec490464083dbd937f3139349b1c6a374b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:18 +0000
Subject: [PATCH 45/94] fix: entity groups are made in the same order in every
 run

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 78921fc..5f8c6b5 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -415,7 +415,7 @@ class NamedUpstageEntity(UpstageBase):
         Args:
             group_names (list[str]): Group names to add to
         """
-        for group_name in group_names:
+        for group_name in sorted(group_names):
             if group_name in SKIP_GROUPS:
                 continue
             self._add_to_group(group_name)
-- 
2.43.0


From 7b44e414f688f7ffd866ebc5e68d863108605357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:20 +0000
Subject: [PATCH 46/94] fix: sensors that lose sight of a mover are told in the
 order they saw it

---
 src/upstage_des/motion/motion.py         |  7 ++++---
 src/upstage_des/motion/stepped_motion.py | 17 ++++++++---------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 3d670df..d83628c 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -102,7 +102,7 @@ class SensorMotionManager(UpstageBase):
         self._sensors: dict[SensorType, tuple[str, str]] = {}
         self._movers: dict[Actor, tuple[float, LOC_LIST, float]] = {}
         self._events: dict[Actor, list[tuple[SensorType, Process]]] = {}
-        self._in_view: dict[Actor, set[SensorType]] = {}
+        self._in_view: dict[Actor, list[SensorType]] = {}
         self._debug: bool = debug
         self._debug_data: dict[Actor, list[Any]] = {}
         self._debug_log: list[Any] = []
@@ -265,9 +265,10 @@ class SensorMotionManager(UpstageBase):
             bool: If it was already in view.
         """
         if mover not in self._in_view:
-            self._in_view[mover] = set()
+            self._in_view[mover] = []
         was_in = sensor in self._in_view[mover]
-        self._in_view[mover].add(sensor)
+        if not was_in:
+            self._in_view[mover].append(sensor)
         return was_in
 
     def _remove_from_view(self, mover: Actor, sensor: SensorType) -> None:
diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 150e394..0ced79d 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -73,7 +73,8 @@ class SteppedMotionManager(UpstageBase):
         super().__init__()
         self._sensors: dict[SensorType, tuple[Callable[[], float], Callable[[], LOC_TYPES]]] = {}
         self._detectables: dict[Actor, Callable[[], LOC_TYPES]] = {}
-        self._in_view: set[tuple[SensorType, Actor]] = set()
+        # A dictionary for its order
+        self._in_view: dict[tuple[SensorType, Actor], None] = {}
         self._timestep = timestep
         self._max_empty_events = max_empty_events
         self._debug = debug
@@ -99,11 +100,11 @@ class SteppedMotionManager(UpstageBase):
         """
         if visible:
             if (sensor, object) not in self._in_view:
-                self._in_view.add((sensor, object))
+                self._in_view[(sensor, object)] = None
                 sensor.entity_entered_range(object)
         else:
             if (sensor, object) in self._in_view:
-                self._in_view.remove((sensor, object))
+                del self._in_view[(sensor, object)]
                 sensor.entity_exited_range(object)
 
     def _test_detect(self, detectable: Actor) -> bool:
@@ -282,12 +283,10 @@ class SteppedMotionManager(UpstageBase):
         an object should no longer be considered by that sensor.
         """
         # TODO: key on detectable may make it faster
-        to_rem = set()
-        for sensor, detect in self._in_view:
-            if detect is detectable:
-                sensor.entity_exited_range(detectable)
-                to_rem.add((sensor, detect))
-        self._in_view -= to_rem
+        seen_by = [sensor for sensor, detect in self._in_view if detect is detectable]
+        for sensor in seen_by:
+            del self._in_view[(sensor, detectable)]
+            sensor.entity_exited_range(detectable)
 
     def _mover_became_detectable(self, detectable: Actor) -> None:
         """Called via DetectabilityState state when an object becomes detectable.
-- 
2.43.0


From f032160d3bae15317e26154ae779c0c88ff9703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:24 +0000
Subject: [PATCH 47/94] fix: a moving sensor does not detect itself

---
 src/upstage_des/motion/motion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index d83628c..8039d20 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -430,6 +430,8 @@ class SensorMotionManager(UpstageBase):
         sensors = list(self._sensors.keys()) if sensor_list is None else sensor_list
         for m in movers:
             for s in sensors:
+                if s is m:
+                    continue
                 inter_pairs = self._process_mover_sensor_pair(m, s)
                 for pair in inter_pairs:
                     self._schedule(m, s, pair)
-- 
2.43.0


From 712cb47239c3cf82d63749180c351a6afc256574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:26 +0000
Subject: [PATCH 48/94] fix: a mover that became detectable on its way can be
 stopped

---
 src/upstage_des/motion/motion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 8039d20..02041a3 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -193,6 +193,8 @@ class SensorMotionManager(UpstageBase):
                 "SensorMotionManager."
             )
             warn(msg, UserWarning)
+            # The motion is still going to be stopped
+            self._movers.setdefault(mover, (0.0, [], 0.0))
 
     # TODO: remove sensor or 'not active'?
 
-- 
2.43.0


From e18982aee202c0ac5df14cab6fc3f6e0081e8570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:29 +0000
Subject: [PATCH 49/94] fix: a stepped motion manager that ran out of events
 can run again

---
 src/upstage_des/motion/stepped_motion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 0ced79d..0cd9616 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -198,6 +198,7 @@ class SteppedMotionManager(UpstageBase):
             if self._only_event_test():
                 n_empty += 1
                 if n_empty >= self._max_empty_events:
+                    self._is_running = False
                     return
             else:
                 n_empty = 0
-- 
2.43.0


From 7bdc4340e6ee9d9168768417698e422ca29e25dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:31 +0000
Subject: [PATCH 50/94] fix: an actor at rest can become detectable

---
 src/upstage_des/motion/stepped_motion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 0cd9616..dd4cffb 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -160,7 +160,9 @@ class SteppedMotionManager(UpstageBase):
         sensor_locs = [self._sensors[s][1]() for s in sensor_req]
 
         detectable_req = list(self._detectables) if detectable_req is None else detectable_req
-        detectable_req = [d for d in detectable_req if self._test_detect(d)]
+        detectable_req = [
+            d for d in detectable_req if d in self._detectables and self._test_detect(d)
+        ]
         detect_locs = [self._detectables[d]() for d in detectable_req]
 
         for sensor, radius, loc in zip(sensor_req, sensor_radii, sensor_locs):
-- 
2.43.0


From eaea0c3dc269e30a1690e29739f338299bbec44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:48 +0000
Subject: [PATCH 51/94] fix: every time unit converts to days and weeks, and to
 itself

---
 src/upstage_des/units/convert.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/units/convert.py b/src/upstage_des/units/convert.py
index 9c51b0c..408bb86 100644
--- a/src/upstage_des/units/convert.py
+++ b/src/upstage_des/units/convert.py
@@ -27,8 +27,8 @@ CONVERSIONS: dict[str, dict[str, float]] = {
     "s": {"hr": 1.0 / (60.0 * 60.0), "min": 1.0 / 60.0, "s": 1.0},
     "min": {"hr": 1.0 / 60.0, "min": 1.0, "s": 60.0},
     "hr": {"hr": 1.0, "min": 60.0, "s": (60.0 * 60.0)},
-    "day": {"hr": 24.0, "week": 1 / 7.0, "min": 24 * 60.0, "s": 24 * 3600},
-    "week": {"day": 7.0, "hr": 7.0 * 24, "min": 7.0 * 24 * 60.0, "s": 7.0 * 24 * 3600},
+    "day": {"day": 1.0, "hr": 24.0, "week": 1 / 7.0, "min": 24 * 60.0, "s": 24 * 3600},
+    "week": {"week": 1.0, "day": 7.0, "hr": 7.0 * 24, "min": 7.0 * 24 * 60.0, "s": 7.0 * 24 * 3600},
 }
 
 DISTANCE_UNITS = ["m", "km", "mi", "nmi", "ft"]
@@ -45,6 +45,11 @@ TIME_ALTERNATES = {
 }
 STANDARD_TIMES = ["s", "min", "hr"]
 
+# add conversions of the shorter times to days and weeks
+for unit in STANDARD_TIMES:
+    for longer in ["day", "week"]:
+        CONVERSIONS[unit][longer] = 1 / CONVERSIONS[longer][unit]
+
 # add feet to conversions
 CONVERSIONS["ft"] = {"ft": 1.0, "mi": 1 / 5280.0}
 for unit in DISTANCE_UNITS:
-- 
2.43.0


From f0eff4f92a80552d24f8c731f2b2241c7716421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:56 +0000
Subject: [PATCH 52/94] fix: geodetic locations that are equal in other angle
 units hash equally

---
 src/upstage_des/data_types.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/data_types.py b/src/upstage_des/data_types.py
index 84adeb8..63bd85d 100644
--- a/src/upstage_des/data_types.py
+++ b/src/upstage_des/data_types.py
@@ -503,22 +503,20 @@ class GeodeticLocation(Location):
         if not isinstance(other, GeodeticLocation):
             raise ValueError(f"Cannot compare a {other.__class__.__name__} to a GeodeticLocation")
         if other.in_radians != self.in_radians:
-            if self.in_radians:
-                other = other.to_radians()
-            else:
-                other = other.to_degrees()
+            # Always in radians, so that the order of the two doesn't matter.
+            return self.to_radians() == other.to_radians()
         return all(
             getattr(self, dimension) == getattr(other, dimension)
             for dimension in ["lat", "lon", "alt"]
         )
 
     def __hash__(self) -> int:
-        """Hash based on the key.
+        """Hash based on the key, in radians so that equal locations hash equally.
 
         Returns:
             int: The hash.
         """
-        return hash(self._key())
+        return hash(self.to_radians()._key())
 
 
 class CartesianLocationData:
-- 
2.43.0


From b12e943eac126efe4de8763d50315390cd66fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:56 +0000
Subject: [PATCH 53/94] fix: equality of geodetic data does not depend on the
 order of the two

---
 src/upstage_des/data_types.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/data_types.py b/src/upstage_des/data_types.py
index 63bd85d..6e83c2b 100644
--- a/src/upstage_des/data_types.py
+++ b/src/upstage_des/data_types.py
@@ -620,11 +620,12 @@ class GeodeticLocationData:
             raise ValueError(
                 f"Cannot compare a {value.__class__.__name__} to a GeodeticLocationData"
             )
-        other = [value.lat, value.lon]
+        here, other = [self.lat, self.lon], [value.lat, value.lon]
         if value.in_radians != self.in_radians:
+            # Always in radians, so that the order of the two doesn't matter.
             if self.in_radians:
                 other = list(map(radians, other))
             else:
-                other = list(map(degrees, other))
-        angles = [self.lat, self.lon] == other
+                here = list(map(radians, here))
+        angles = here == other
         return angles and self.alt == value.alt
-- 
2.43.0


From a5f16a94626760ba89b5893fa95146eac4ff335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:56 +0000
Subject: [PATCH 54/94] fix: cartesian data in other height units is not equal

---
 src/upstage_des/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/data_types.py b/src/upstage_des/data_types.py
index 6e83c2b..dc2e40d 100644
--- a/src/upstage_des/data_types.py
+++ b/src/upstage_des/data_types.py
@@ -561,7 +561,7 @@ class CartesianLocationData:
             raise ValueError(
                 f"Cannot compare a {value.__class__.__name__} to a CartesianLocationData"
             )
-        check = ["x", "y", "z"]
+        check = ["x", "y", "z", "use_altitude_unts"]
         return all(getattr(self, c) == getattr(value, c) for c in check)
 
 
-- 
2.43.0


From f10deeeadaea16f32003277f5751b4e474c3dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:29 +0000
Subject: [PATCH 55/94] fix: ecef_linspace gives points

geo_linspace returns one pair for each point, not a list of latitudes and
a list of longitudes, so both models' ecef_linspace always raised.
---
 src/upstage_des/geography/spherical.py | 4 ++--
 src/upstage_des/geography/wgs84.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index efcd3e7..2a4dca3 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -450,10 +450,10 @@ class Spherical(SphericalConversions):
         """
         start = _convert_geo(start)
         finish = _convert_geo(finish)
-        lats, lons = cls.geo_linspace(start, finish, num_segments=segments)
+        latlons = cls.geo_linspace(start, finish, num_segments=segments)
         delta_alt = finish_alt - start_alt
         alts = [start_alt + delta_alt * i / segments for i in range(segments + 1)]
-        lla = [(lat, lon, alt) for lat, lon, alt in zip(lats, lons, alts)]
+        lla: POSITIONS = [(latlon[0], latlon[1], alt) for latlon, alt in zip(latlons, alts)]
         return cls.lla2ecef(lla)
 
     @classmethod
diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 662b52c..0cdf59d 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -354,10 +354,10 @@ class WGS84(WGS84Conversions):
         """
         start = _convert_geo(start)
         finish = _convert_geo(finish)
-        lats, lons = cls.geo_linspace(start, finish, num_segments=segments)
+        latlons = cls.geo_linspace(start, finish, num_segments=segments)
         delta_alt = finish_alt - start_alt
         alts = [start_alt + delta_alt * i / segments for i in range(segments + 1)]
-        lla = [(lat, lon, alt) for lat, lon, alt in zip(lats, lons, alts)]
+        lla: POSITIONS = [(latlon[0], latlon[1], alt) for latlon, alt in zip(latlons, alts)]
         return cls.lla2ecef(lla)
 
     @classmethod
-- 
2.43.0


From 94ab04fb121232a56626b88d836f7ef91fa24a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:29 +0000
Subject: [PATCH 56/94] fix: Vincenty's direct formula uses the sine of sigma

The longitude of WGS84.point_from_bearing_dist had the sine of the azimuth
in the place of the sine of the arc length.
---
 src/upstage_des/geography/wgs84.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 0cdf59d..8f4458f 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -237,7 +237,7 @@ class WGS84(WGS84Conversions):
         )
         C = f / 16 * cos_sq_alpha * (4 + f * (4 - 3 * cos_sq_alpha))
         L = lam - (1 - C) * f * sin_alpha * (
-            sigma + C * sin_alpha * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
+            sigma + C * sin_sigma * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
         )
         lambda_2 = lambda_1 + L
 
-- 
2.43.0


From 60a6c1bea62da1616721e5a5cb635563999ff2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:29 +0000
Subject: [PATCH 57/94] fix: the second eccentricities are the roots of their
 squares

---
 src/upstage_des/geography/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/geography/conversions.py b/src/upstage_des/geography/conversions.py
index eb846cb..ae37e54 100644
--- a/src/upstage_des/geography/conversions.py
+++ b/src/upstage_des/geography/conversions.py
@@ -21,7 +21,7 @@ sR_p = spherical_radius
 se_2 = (sR_e**2 - sR_p**2) / sR_e**2
 sep_2 = (sR_e**2 - sR_p**2) / sR_p**2
 se = sqrt(se_2)
-sep = sqrt(se)
+sep = sqrt(sep_2)
 
 wR_e = WGS84_A
 wR_p = WGS84_B
@@ -30,7 +30,7 @@ we_2 = WGS84_F * (2 - WGS84_F)
 # second eccentricity squared
 wep_2 = we_2 / (1 - WGS84_F) ** 2
 we = sqrt(we_2)
-wep = sqrt(we)
+wep = sqrt(wep_2)
 wF = WGS84_F
 
 
-- 
2.43.0


From b5c5a075566b6e814bf68aa22d8d3a4d648f2d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 58/94] fix: points on a great circle between near points

---
 src/upstage_des/geography/spherical.py | 32 ++++++++------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 2a4dca3..fa4c19b 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -4,9 +4,9 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Geographical math using spherical coordinates for Earth."""
 
-from math import acos, asin, atan, atan2, cos, degrees, radians, sin, sqrt
+from math import acos, asin, atan2, cos, degrees, radians, sin, sqrt
 
-from upstage_des.math_utils import _vector_dot
+from upstage_des.math_utils import _vector_dot, _vector_norm
 from upstage_des.units import unit_convert
 
 from .conversions import SphericalConversions, spherical_radius
@@ -202,28 +202,14 @@ class Spherical(SphericalConversions):
         # We keep the earth radius to be 1 since we're interpolating along radians only
         v1 = cls._ll2cart(start[0], start[1])
         v2 = cls._ll2cart(end[0], end[1])
-        # solve for the parameter value that equals the end point
+        # the part of the end point across the start point gives the direction and the angle
         d = _vector_dot(v1, v2)
-        common = sqrt(-1 / ((d - 1) * (d + 1)))
-        alpha, beta = -d * common, common
-        a, _, _ = v1
-        d, _, _ = v2
-        lead = a * alpha + beta * d
-        sqrt_inner = a**2 * alpha**2 + a**2 + 2 * a * alpha * beta * d + beta**2 * d**2 - d**2
-        if sqrt_inner < 0:
-            raise ValueError("geo_linspace fails due to negative sqrt")
-        t = 2 * atan((lead + sqrt(sqrt_inner)) / (a + d))
-        W = tuple([alpha * x + beta * y for x, y in zip(v1, v2)])
-        assert len(W) == 3
-        W = (W[0], W[1], W[2])
-        # test that the t is right
-        ct, st = cos(t), sin(t)
-        end_pt = tuple([ct * x + st * w for x, w in zip(v1, W)])
-        assert len(end_pt) == 3
-        end_pt = (end_pt[0], end_pt[1], end_pt[2])
-        is_close = all(abs(a - b) <= 1e-8 for a, b in zip(end_pt, v2))
-        if not is_close:
-            t = 2 * atan((lead - sqrt(sqrt_inner)) / (a + d))
+        across = [y - d * x for x, y in zip(v1, v2)]
+        size = _vector_norm(across)
+        if size == 0 and d < 0:
+            raise ValueError("geo_linspace fails between opposite points")
+        W = [w / size if size else 0.0 for w in across]
+        t = atan2(size, d)
 
         ts = [(t / num_segments) * i for i in range(0, num_segments + 1)]
         v_cos = [tuple(cos(t) * v for v in v1) for t in ts]
-- 
2.43.0


From 2f1f66c77c7ffc9c74aa8cc2d1b6a19f4bf4fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 59/94] fix: a leg without intersections takes its travel time

---
 src/upstage_des/motion/cartesian_model.py | 2 +-
 src/upstage_des/motion/geodetic_model.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index a58c5d7..8dc19e5 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -126,7 +126,7 @@ def cartesian_linear_intersection(
         speed,
     )
     if not intersections or min(times) > path_time:
-        return [], [], ["BAD", "BAD"], -1.0
+        return [], [], ["BAD", "BAD"], path_time
 
     # filter out intersections beyond the path length
     idxs = sorted(range(len(times)), key=lambda i: times[i])
diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index a01ab3d..aa717f3 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -75,7 +75,7 @@ def subdivide_intersection(
     )
 
     if not intersect_locs:
-        return [], [], ["Bad", "Bad"], 0.0
+        return [], [], ["Bad", "Bad"], path_time
 
     # convert the data to a more useful format
     intersections: list[GeodeticLocation] = []
@@ -152,7 +152,7 @@ def analytical_intersection(
     # no intersection
     if point_results is None:
         # return matches subdivide_intersection results
-        return [], [], ["Bad", "Bad"], -1.0
+        return [], [], ["Bad", "Bad"], path_time
 
     points, distances = point_results
     # get points, times, and types
-- 
2.43.0


From 29781f5a7502c42b86593115f3075db70dbd3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 60/94] fix: cartesian intersections convert heights to
 distance units

---
 src/upstage_des/motion/cartesian_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index 8dc19e5..30e9976 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -106,8 +106,9 @@ def cartesian_linear_intersection(
     path_time = path_dist / speed
     dist_start = sensor_location - start
     dist_finish = sensor_location - finish
-    start_tup = (start.x, start.y, start.z)
-    finish_tup = (finish.x, finish.y, finish.z)
+    # heights in distance units, as in the distances
+    start_tup = tuple(start._as_array())
+    finish_tup = tuple(finish._as_array())
 
     # for start and finish inside, we can skip the intersection math
     start_inside = dist_start <= sensor_radius
@@ -117,7 +118,7 @@ def cartesian_linear_intersection(
         the_times = [0, path_time]
         return inters, the_times, ["START_INSIDE", "END_INSIDE"], path_time
 
-    sensor_location_tup = (sensor_location.x, sensor_location.y, sensor_location.z)
+    sensor_location_tup = tuple(sensor_location._as_array())
     intersections, times = ray_intersection(
         start_tup,
         finish_tup,
-- 
2.43.0


From e67460352e825657eb054db2a23bf81be404184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 61/94] fix: a leg without length has no crossing

---
 src/upstage_des/motion/cartesian_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index 30e9976..d1b36de 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -118,6 +118,9 @@ def cartesian_linear_intersection(
         the_times = [0, path_time]
         return inters, the_times, ["START_INSIDE", "END_INSIDE"], path_time
 
+    if path_dist == 0:
+        return [], [], ["BAD", "BAD"], path_time
+
     sensor_location_tup = tuple(sensor_location._as_array())
     intersections, times = ray_intersection(
         start_tup,
-- 
2.43.0


From 11326c1416e425ed81a340b3806227f0b0bb5e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 62/94] fix: a leg may start or end on the boundary of a
 sensor's range

---
 src/upstage_des/motion/cartesian_model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index d1b36de..8e4f2de 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -138,12 +138,13 @@ def cartesian_linear_intersection(
     times = [times[i] for i in idxs if times[i] <= path_time]
     type_start = "START_INSIDE" if start_inside else "ENTER"
     type_end = "END_INSIDE" if finish_inside else "EXIT"
+    # a start or finish on the boundary is inside, and is its own crossing
     if start_inside:
-        inters = [start] + inters
-        times = [0] + times
+        inters = [start] + inters[-1:]
+        times = [0] + times[-1:]
     if finish_inside:
-        inters = inters + [finish]
-        times = times + [path_time]
+        inters = inters[:1] + [finish]
+        times = times[:1] + [path_time]
     if len(inters) != 2:
         raise MotionAndDetectionError(
             f"There should be two intersections, not {len(inters)} ({inters})"
-- 
2.43.0


From b4e709f079a5e4ee609fc8d9ac42bc9d905daf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 63/94] fix: the height at an intersection is in proportion to
 the distance

---
 src/upstage_des/motion/geodetic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index aa717f3..abef70a 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -170,7 +170,7 @@ def analytical_intersection(
         types.append("ENTER")
 
         # estimate intersection altitude assuming linear change
-        alt_1 = start.alt + (distances[0] / path_dist) * alt_change_per_dist
+        alt_1 = start.alt + distances[0] * alt_change_per_dist
         # adjust distance to account for average altitude from start to first intersection
         d1_m = distances[0] * (
             earth_rad + unit_convert(0.5 * (start.alt + alt_1), altitude_units, dist_units)
@@ -195,7 +195,7 @@ def analytical_intersection(
         types.append("EXIT")
 
         # estimate intersection altitude assuming linear change
-        alt_2 = start.alt + (distances[1] / path_dist) * alt_change_per_dist
+        alt_2 = start.alt + distances[1] * alt_change_per_dist
         # adjust distance to account for average altitude from start to first intersection
         d2_m = distances[1] * (
             earth_rad + unit_convert(0.5 * (start.alt + alt_2), altitude_units, dist_units)
-- 
2.43.0


From ce548d422088e44f659b645860133e3b79ae4a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:28 +0000
Subject: [PATCH 64/94] fix: a mover may leave a sensor's range as it enters it

---
 src/upstage_des/motion/motion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 02041a3..9eae4c2 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -345,9 +345,10 @@ class SensorMotionManager(UpstageBase):
         if second_kind != "EXIT":
             return None
 
-        end_time_from_now = second_time - self.env.now
-        if end_time_from_now <= 0:
+        if second_time < first_time:
             raise MotionAndDetectionError("Detection end time is less than detection start")
+        # a mover may only touch the range
+        end_time_from_now = max(0.0, second_time - self.env.now)
 
         try:
             yield self.env.timeout(end_time_from_now)
-- 
2.43.0


From f382a71e5e4ff3baa901d13b18297cc854dd1717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:28 +0000
Subject: [PATCH 65/94] fix: great circle courses due north, due south and from
 a point to itself

---
 src/upstage_des/motion/great_circle_calcs.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/motion/great_circle_calcs.py b/src/upstage_des/motion/great_circle_calcs.py
index ac940e2..c6d75a9 100644
--- a/src/upstage_des/motion/great_circle_calcs.py
+++ b/src/upstage_des/motion/great_circle_calcs.py
@@ -47,13 +47,18 @@ def get_course_rad(point1: GeodeticLocation, point2: GeodeticLocation) -> float:
     tcl: float
 
     d = get_dist_rad(point1, point2)
-
+    scale = sin(d) * cos(point1.lat)
+    if scale == 0:
+        # any course leads to the same or the opposite point
+        return 0.0
+
+    # rounding may exceed one for courses due north or south
+    cos_course = (sin(point2.lat) - sin(point1.lat) * cos(d)) / scale
+    angle = acos(max(-1.0, min(1.0, cos_course)))
     if sin(point2.lon - point1.lon) < 0:
-        tcl = acos((sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat)))
+        tcl = angle
     else:
-        tcl = 2.0 * pi - acos(
-            (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
-        )
+        tcl = 2.0 * pi - angle
 
     return tcl
 
-- 
2.43.0


From e23a746322eed9dcf8073311f38fcd582dbb64e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:28 +0000
Subject: [PATCH 66/94] fix: a mover higher than a sensor's radius is out of
 its range

---
 src/upstage_des/motion/geodetic_model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index abef70a..6d21ca7 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -137,6 +137,13 @@ def analytical_intersection(
     # modify the sensor's radius to account for the altitude of the mover
     average_path_height = (start.alt + finish.alt) / 2.0
     average_path_height_dist_units = unit_convert(average_path_height, altitude_units, dist_units)
+    path_dist = get_dist_rad(start_rad, finish_rad)
+    path_time = (path_dist * earth_rad) / speed
+
+    # the mover is above (or below) all of the sensor's range
+    if abs(average_path_height_dist_units) > sensor_radius:
+        return [], [], ["Bad", "Bad"], path_time
+
     adjusted_sensor_radius = sqrt(sensor_radius**2 - average_path_height_dist_units**2)
     sensor_radius_rad = adjusted_sensor_radius / earth_rad
 
@@ -146,8 +153,6 @@ def analytical_intersection(
     )
     dist_start = get_dist_rad(sensor_location_rad, start_rad)
     dist_finish = get_dist_rad(sensor_location_rad, finish_rad)
-    path_dist = get_dist_rad(start_rad, finish_rad)
-    path_time = (path_dist * earth_rad) / speed
 
     # no intersection
     if point_results is None:
-- 
2.43.0


From 7c22eb8813d58bcb77a9d35fcb6f14f48302659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:28 +0000
Subject: [PATCH 67/94] fix: an analytical intersection of a leg without length

---
 src/upstage_des/motion/geodetic_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index 6d21ca7..184c634 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -154,6 +154,12 @@ def analytical_intersection(
     dist_start = get_dist_rad(sensor_location_rad, start_rad)
     dist_finish = get_dist_rad(sensor_location_rad, finish_rad)
 
+    # a leg without length has no crossing
+    if path_dist == 0:
+        if dist_start < sensor_radius_rad:
+            return [start, finish], [0.0, path_time], ["START_INSIDE", "END_INSIDE"], path_time
+        return [], [], ["Bad", "Bad"], path_time
+
     # no intersection
     if point_results is None:
         # return matches subdivide_intersection results
-- 
2.43.0


From 5eb872f1897daa8d3240f05a7fb165d8555a8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:30 +0000
Subject: [PATCH 68/94] fix: a sensor may stop a mover or make it undetectable
 from within its notice

---
 src/upstage_des/motion/motion.py | 37 +++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 9eae4c2..20227bb 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -138,7 +138,8 @@ class SensorMotionManager(UpstageBase):
         # in case a new sensor pops up
         if mover in self._events:
             for _, proc in self._events.get(mover, []):
-                if proc.is_alive:
+                # A sensor may stop the mover from within its notice
+                if proc.is_alive and proc is not self.env.active_process:
                     proc.interrupt()
             del self._events[mover]
 
@@ -155,13 +156,12 @@ class SensorMotionManager(UpstageBase):
         Args:
             mover (Actor): The mover.
         """
-        if mover in self._in_view:
-            for sensor in self._in_view[mover]:
-                # This will cause some old data to stick around, but that's
-                # instead of making new events to clear it out and then having
-                # to end those clearing events if this happens
-                sensor.entity_exited_range(mover)
-            del self._in_view[mover]
+        # Nothing is in view while the sensors act on the notice.
+        for sensor in self._in_view.pop(mover, []):
+            # This will cause some old data to stick around, but that's
+            # instead of making new events to clear it out and then having
+            # to end those clearing events if this happens
+            sensor.entity_exited_range(mover)
         # It is unsure if the user will stop the motion via a task first
         # or change detectability first
         self._stop_mover(mover, from_not_detectable=True)
@@ -303,6 +303,18 @@ class SensorMotionManager(UpstageBase):
             }
             self._debug_log.append(msg)
 
+    def _is_scheduled(self, mover: Actor) -> bool:
+        """Test if the running notification is still one of the mover's.
+
+        Args:
+            mover (Actor): Mover
+
+        Returns:
+            bool: If the mover hasn't stopped since it was scheduled.
+        """
+        active = self.env.active_process
+        return any(proc is active for _, proc in self._events.get(mover, []))
+
     def _notify(
         self,
         mover: Actor,
@@ -339,12 +351,17 @@ class SensorMotionManager(UpstageBase):
                 self._end_notify(mover, sensor, "before entry")
                 return None
 
-            sensor.entity_entered_range(mover)
             self._add_to_view(mover, sensor)
+            sensor.entity_entered_range(mover)
 
         if second_kind != "EXIT":
             return None
 
+        if not self._is_scheduled(mover):
+            # the sensor stopped the mover
+            self._end_notify(mover, sensor, "before exit")
+            return None
+
         if second_time < first_time:
             raise MotionAndDetectionError("Detection end time is less than detection start")
         # a mover may only touch the range
@@ -356,8 +373,8 @@ class SensorMotionManager(UpstageBase):
             self._end_notify(mover, sensor, "before exit")
             return None
 
-        sensor.entity_exited_range(mover)
         self._remove_from_view(mover, sensor)
+        sensor.entity_exited_range(mover)
         return None
 
     def _schedule(
-- 
2.43.0


From 302f7fd9c8a132655ff3146889d2aea1957ec9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:30 +0000
Subject: [PATCH 69/94] fix: a motion that ends in the instant it starts gives
 no notice of entry

---
 src/upstage_des/motion/motion.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 20227bb..3d639c5 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -336,6 +336,11 @@ class SensorMotionManager(UpstageBase):
             first_kind (str): Kind of the first
             second_kind (str): Kind of the second
         """
+        # The motion may end in the instant it started, before this process runs
+        if not self._is_scheduled(mover):
+            self._end_notify(mover, sensor, "before entry")
+            return None
+
         # times are absolute on input to this method
         notify_time_from_now = first_time - self.env.now
 
-- 
2.43.0


From 0a55f77123148aef8f4f64e02f2fcfbb60849668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:49 +0000
Subject: [PATCH 70/94] fix: a detectable hidden by a notice is not reported to
 later sensors in the same step

---
 src/upstage_des/motion/stepped_motion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index dd4cffb..1e52522 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -169,6 +169,9 @@ class SteppedMotionManager(UpstageBase):
             for detectable, d_loc in zip(detectable_req, detect_locs):
                 if detectable is sensor:
                     continue
+                # a notice may have hidden or removed it
+                if detectable not in self._detectables or not self._test_detect(detectable):
+                    continue
                 visible = self._detect_dist(loc, radius, d_loc, sensor)
                 self._do_log((self.env.now, sensor, loc, detectable, d_loc))
                 self._update_awareness(sensor, detectable, visible)
-- 
2.43.0


From 81ce1681f79d9935b61e538df22a17dd1540133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:55 +0000
Subject: [PATCH 71/94] fix: a sensor may make a mover detectable again when
 told of its exit

---
 src/upstage_des/motion/motion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 3d639c5..33166cd 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -156,15 +156,15 @@ class SensorMotionManager(UpstageBase):
         Args:
             mover (Actor): The mover.
         """
-        # Nothing is in view while the sensors act on the notice.
+        # It is unsure if the user will stop the motion via a task first
+        # or change detectability first
+        self._stop_mover(mover, from_not_detectable=True)
+        # Nothing is in view or moving while the sensors act on the notice.
         for sensor in self._in_view.pop(mover, []):
             # This will cause some old data to stick around, but that's
             # instead of making new events to clear it out and then having
             # to end those clearing events if this happens
             sensor.entity_exited_range(mover)
-        # It is unsure if the user will stop the motion via a task first
-        # or change detectability first
-        self._stop_mover(mover, from_not_detectable=True)
 
     def _mover_became_detectable(self, mover: Actor) -> None:
         """Called via DetectabilityState when a mover becomes detectable.
-- 
2.43.0


From 8a8400dcf7f7e63bd7a186be58fb54a6e40506f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:55 +0000
Subject: [PATCH 72/94] fix: a sensor may hide a detectable again when told of
 its exit

---
 src/upstage_des/motion/stepped_motion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 1e52522..71b02fd 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -291,8 +291,8 @@ class SteppedMotionManager(UpstageBase):
         # TODO: key on detectable may make it faster
         seen_by = [sensor for sensor, detect in self._in_view if detect is detectable]
         for sensor in seen_by:
-            del self._in_view[(sensor, detectable)]
-            sensor.entity_exited_range(detectable)
+            # a notice may have ended the view of the others
+            self._update_awareness(sensor, detectable, visible=False)
 
     def _mover_became_detectable(self, detectable: Actor) -> None:
         """Called via DetectabilityState state when an object becomes detectable.
-- 
2.43.0


From 337c8bae17d172a422234802c7b775d52f06ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:56 +0000
Subject: [PATCH 73/94] fix: Spherical.bearing takes the parameters of the
 earth protocol and of WGS84

---
 src/upstage_des/geography/spherical.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index fa4c19b..5e7b70b 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -37,21 +37,21 @@ class Spherical(SphericalConversions):
     @classmethod
     def bearing(
         cls,
-        origin: LAT_LON | GEO_POINT,
-        destination: LAT_LON | GEO_POINT,
+        loc1: LAT_LON | GEO_POINT,
+        loc2: LAT_LON | GEO_POINT,
     ) -> float:
-        """Calculate the forward bearing from origin to destination.
+        """Calculate the forward bearing from loc1 to loc2.
 
         Args:
-            origin (LAT_LON): Start lat/lon
-            destination (LAT_LON): End lat/lon
+            loc1 (LAT_LON): Start lat/lon
+            loc2 (LAT_LON): End lat/lon
 
         Returns:
             float: The forward bearing (0 is north)
         """
-        origin = _convert_geo(origin)
-        destination = _convert_geo(destination)
-        positions = [origin[1], origin[0], destination[1], destination[0]]
+        loc1 = _convert_geo(loc1)
+        loc2 = _convert_geo(loc2)
+        positions = [loc1[1], loc1[0], loc2[1], loc2[0]]
         lon1, lat1, lon2, lat2 = map(radians, positions)
 
         return cls._bearing(lat1, lon1, lat2, lon2)
-- 
2.43.0


From e79b2cbc7a5a9f7972932b96be74da0452e94146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:56 +0000
Subject: [PATCH 74/94] fix: the earth protocol names the parameters of its
 conversions as the models do

---
 src/upstage_des/geography/geo_types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/geography/geo_types.py b/src/upstage_des/geography/geo_types.py
index 56cc7e2..9e019af 100644
--- a/src/upstage_des/geography/geo_types.py
+++ b/src/upstage_des/geography/geo_types.py
@@ -72,15 +72,15 @@ class EarthProtocol(Protocol):
 
     def lla2ecef(
         self,
-        locs: list[LAT_LON_ALT],
+        lla: list[LAT_LON_ALT],
     ) -> list[tuple[float, float, float]]:
         """Get ECEF coordinates from lat lon alt."""
 
     def ecef2lla(
         self,
-        locs: list[LAT_LON_ALT],
-    ) -> list[tuple[float, float, float]]:
-        """Get ECEF coordinates from lat lon alt."""
+        ecef: list[tuple[float, float, float]],
+    ) -> list[LAT_LON_ALT]:
+        """Get lat lon alt from ECEF coordinates."""
 
     def geo_linspace(
         self,
-- 
2.43.0


From d85d9689bc29ff7875cab2e1360ebb206ca78cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:55 +0000
Subject: [PATCH 75/94] fix: recording functions are not given the markers of
 activations in place of a value

---
 src/upstage_des/states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 2d895de..ca01dcf 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -210,7 +210,8 @@ class State(Generic[ST]):
         ):
             instance._state_histories[self.name].append(to_append)
 
-        self._do_record_funcs(instance, *to_append)
+        if override is None:
+            self._do_record_funcs(instance, *to_append)
 
     def _do_callback(self, instance: "Actor", value: ST) -> None:
         """Run callbacks for the state change.
-- 
2.43.0


From f7bd6dd0d5369432a2368a45ad768ff444137e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:55 +0000
Subject: [PATCH 76/94] fix: the value is recorded before a change of
 activation, also where it did not change

---
 src/upstage_des/states.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index ca01dcf..13bbcd0 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -444,6 +444,20 @@ class ActiveState(State, Generic[ST]):
         res["value"] = instance.__dict__[self.name]
         return res
 
+    def _do_record_status(self, instance: "Actor", status: ActiveStatus) -> None:
+        """Record a change of activation, after the value at that time.
+
+        Args:
+            instance (Actor): The actor holding the state
+            status (ActiveStatus): The change
+        """
+        if self._recording:
+            history = instance._state_histories.get(self.name, [])
+            now = float(instance.env.now)
+            if not history or history[-1][0] != now or isinstance(history[-1][1], ActiveStatus):
+                self._do_record(instance, instance.__dict__[self.name])
+        self._do_record(instance, None, override=status)
+
     def activate(self, instance: "Actor", task: Task | None = None) -> None:
         """Method to run when a state is activated.
 
@@ -452,7 +466,7 @@ class ActiveState(State, Generic[ST]):
         Use this with __super__ for motion states to deactivate their motion from
         the motion manager.
         """
-        self._do_record(instance, None, override=ActiveStatus.activating)
+        self._do_record_status(instance, ActiveStatus.activating)
 
     def deactivate(self, instance: "Actor", task: Task | None = None) -> bool:
         """Optional method to override that is called when a state is deactivated.
@@ -464,7 +478,7 @@ class ActiveState(State, Generic[ST]):
         """
         # Returns if the state should be ignored
         # A False means the state is completely deactivated
-        self._do_record(instance, None, override=ActiveStatus.deactivating)
+        self._do_record_status(instance, ActiveStatus.deactivating)
         return False
 
 
-- 
2.43.0


From 622611067973df849d6e46e4a516e1934d4ad7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:55 +0000
Subject: [PATCH 77/94] fix: the columns of the location table are named by its
 data, whichever actor comes last

---
 src/upstage_des/data_utils/data_utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index b4eef68..d81001a 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -149,10 +149,10 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
 
     Returns:
         list[LOCATION_DATA_ROW]: Time and XYZ/LLA data.
-        list[str]: name of XYZ/LLA
+        list[str]: name of XYZ/LLA, empty without data
     """
     data: list[LOCATION_DATA_ROW] = []
-    is_xyz = True
+    cols: list[str] = []
     name, kind = actor.name, actor.__class__.__name__
     for state_name, state_data in actor._state_histories.items():
         _state = actor._state_defs.get(state_name, None)
@@ -168,11 +168,11 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
                 active_value = "active" if value.name == "activating" else "inactive"
             elif isinstance(value, GeodeticLocation):
                 row = (name, kind, state_name, time, value.lat, value.lon, value.alt, active_value)
-                is_xyz = False
+                cols = ["Lat", "Lon", "Alt"]
             elif isinstance(value, CartesianLocation):
                 row = (name, kind, state_name, time, value.x, value.y, value.z, active_value)
+                cols = ["X", "Y", "Z"]
             data.append(cast(LOCATION_DATA_ROW, row))
-    cols = ["X", "Y", "Z"] if is_xyz else ["Lat", "Lon", "Alt"]
     return data, cols
 
 
@@ -255,7 +255,9 @@ def create_location_table() -> tuple[list[LOCATION_DATA_ROW], list[str]]:
     """
     _base = UpstageBase()
     data: list[LOCATION_DATA_ROW] = []
+    cols = ["X", "Y", "Z"]
     for actor in _base.get_actors():
-        _data, cols = _actor_location_data(actor)
+        _data, _cols = _actor_location_data(actor)
         data.extend(_data)
+        cols = _cols or cols
     return data, COLUMN_NAMES + cols + [ACTIVATION_STATUS_COL]
-- 
2.43.0


From 0a5be9d78ca5b89279655983289cd255700226f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:57 +0000
Subject: [PATCH 78/94] fix: data tables leave out states that have not been
 set instead of raising

---
 src/upstage_des/data_utils/data_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index d81001a..cfc1bd3 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -101,6 +101,9 @@ def _actor_state_data(
     for state_name, state in actor._state_defs.items():
         if skip_locations and isinstance(state, LOCATION_TYPES):
             continue
+        if state_name not in actor.__dict__:
+            # a None default that has not been set
+            continue
         _value = actor.__dict__[state_name]
         is_active = isinstance(state, ActiveState)
         is_prefilled = any(key.startswith(f"{state_name}.") for key in actor._state_histories)
-- 
2.43.0


From fec0ffeef5be316a3cd6bbc6684cc8da78aa33eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:32 +0000
Subject: [PATCH 79/94] fix: plain states of locations are in the location
 table, and skipped with the locations

---
 src/upstage_des/data_utils/data_utils.py | 32 +++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index cfc1bd3..be2f5cd 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -11,11 +11,12 @@ from upstage_des.states import (
     ActiveStatus,
     CartesianLocationChangingState,
     GeodeticLocationChangingState,
+    State,
     _DictionaryProxy,
 )
 
 ACTUAL_LOCATION = GeodeticLocation | CartesianLocation
-LOCATION_TYPES = ACTUAL_LOCATION | GeodeticLocationChangingState | CartesianLocationChangingState
+LOCATION_TYPES = GeodeticLocationChangingState | CartesianLocationChangingState
 STATIC_STATE = "Last Seen"
 
 STATE_DATA_ROW = tuple[str, str, str, float, Any, str | None]
@@ -68,6 +69,21 @@ def _state_history_to_table(
     return data
 
 
+def _is_location(state: State, values: list[Any]) -> bool:
+    """Tell if a state is a location, by its type or by all of its values.
+
+    Args:
+        state (State): The state
+        values (list[Any]): The values it had, or has
+
+    Returns:
+        bool: If it is a location
+    """
+    if isinstance(state, LOCATION_TYPES):
+        return True
+    return bool(values) and all(isinstance(v, ACTUAL_LOCATION) for v in values)
+
+
 def _key_list(obj: Any) -> list[str]:
     if isinstance(obj, dict):
         return [str(x) for x in obj.keys()]
@@ -99,12 +115,13 @@ def _actor_state_data(
     name, kind = actor.name, actor.__class__.__name__
 
     for state_name, state in actor._state_defs.items():
-        if skip_locations and isinstance(state, LOCATION_TYPES):
-            continue
         if state_name not in actor.__dict__:
             # a None default that has not been set
             continue
         _value = actor.__dict__[state_name]
+        _values = [v for _, v in actor._state_histories.get(state_name, [])] or [_value]
+        if skip_locations and _is_location(state, _values):
+            continue
         is_active = isinstance(state, ActiveState)
         is_prefilled = any(key.startswith(f"{state_name}.") for key in actor._state_histories)
         if state_name in actor._state_histories:
@@ -144,8 +161,9 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
     """Get actor location data, if it exists.
 
     The actor needs to have recording Location states:
-        * CartesianLocation(ChangingState)
-        * GeodeticLocation(ChangingState)
+        * CartesianLocationChangingState
+        * GeodeticLocationChangingState
+        * State with values of CartesianLocation or GeodeticLocation
 
     Args:
         actor (Actor): The actor.
@@ -159,7 +177,7 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
     name, kind = actor.name, actor.__class__.__name__
     for state_name, state_data in actor._state_histories.items():
         _state = actor._state_defs.get(state_name, None)
-        if not isinstance(_state, LOCATION_TYPES):
+        if _state is None or not any(isinstance(v, ACTUAL_LOCATION) for _, v in state_data):
             continue
         value: ACTUAL_LOCATION | ActiveStatus
         is_active = isinstance(_state, ActiveState)
@@ -175,6 +193,8 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
             elif isinstance(value, CartesianLocation):
                 row = (name, kind, state_name, time, value.x, value.y, value.z, active_value)
                 cols = ["X", "Y", "Z"]
+            else:
+                continue
             data.append(cast(LOCATION_DATA_ROW, row))
     return data, cols
 
-- 
2.43.0


From ddc498c4dab50d2ee450ca96ab0b4796c0dedc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:35 +0000
Subject: [PATCH 80/94] fix: the data table has what the recording functions of
 states recorded

---
 src/upstage_des/data_utils/data_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index be2f5cd..de5862b 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -114,7 +114,9 @@ def _actor_state_data(
     resources: list[Any] = []
     name, kind = actor.name, actor.__class__.__name__
 
+    used: set[str] = set()
     for state_name, state in actor._state_defs.items():
+        used.add(state_name)
         if state_name not in actor.__dict__:
             # a None default that has not been set
             continue
@@ -134,6 +136,7 @@ def _actor_state_data(
             for key in _key_list(_value):
                 sname = f"{state_name}.{key}"
                 assert sname in actor._state_histories
+                used.add(sname)
                 data.extend(
                     _state_history_to_table(
                         name, kind, sname, is_active, actor._state_histories[sname]
@@ -154,6 +157,11 @@ def _actor_state_data(
             else:
                 data.append((name, kind, state_name, 0.0, the_value, STATIC_STATE))
 
+    # what is left was recorded by the recording functions
+    for record_name, history in actor._state_histories.items():
+        if record_name not in used:
+            data.extend(_state_history_to_table(name, kind, record_name, False, history))
+
     return data, resources
 
 
-- 
2.43.0


From 8f04896bbed613d20f35c7f94b879b79359a0376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:35 +0000
Subject: [PATCH 81/94] fix: the static values of a dataclass state are in the
 data table by name, like those of a dictionary

---
 src/upstage_des/data_utils/data_utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index de5862b..857016d 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -12,6 +12,7 @@ from upstage_des.states import (
     CartesianLocationChangingState,
     GeodeticLocationChangingState,
     State,
+    _DataclassProxy,
     _DictionaryProxy,
 )
 
@@ -147,7 +148,14 @@ def _actor_state_data(
             data.extend(_state_history_to_table(name, kind, state_name, False, _value._quantities))
         elif save_static:
             the_value = getattr(actor, state_name)
-            if isinstance(the_value, _DictionaryProxy):
+            if isinstance(the_value, _DataclassProxy):
+                data.extend(
+                    [
+                        (name, kind, f"{state_name}.{k}", 0.0, getattr(_value, k), STATIC_STATE)
+                        for k in _key_list(_value)
+                    ]
+                )
+            elif isinstance(the_value, _DictionaryProxy):
                 data.extend(
                     [
                         (name, kind, f"{state_name}.{k}", 0.0, v, STATIC_STATE)
-- 
2.43.0


From 01fe254c7a4016a0b9adc24c16fe0676798de451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:59 +0000
Subject: [PATCH 82/94] fix: a recording function may be named like an entry of
 a state without breaking the data table

---
 src/upstage_des/data_utils/data_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 857016d..193c1d9 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -14,6 +14,7 @@ from upstage_des.states import (
     State,
     _DataclassProxy,
     _DictionaryProxy,
+    _KeyValueBase,
 )
 
 ACTUAL_LOCATION = GeodeticLocation | CartesianLocation
@@ -126,7 +127,7 @@ def _actor_state_data(
         if skip_locations and _is_location(state, _values):
             continue
         is_active = isinstance(state, ActiveState)
-        is_prefilled = any(key.startswith(f"{state_name}.") for key in actor._state_histories)
+        is_prefilled = isinstance(state, _KeyValueBase) and state._record_indiv
         if state_name in actor._state_histories:
             data.extend(
                 _state_history_to_table(
-- 
2.43.0


From 10f9397aae3d1eec97f7769c23eccc012318c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:59 +0000
Subject: [PATCH 83/94] fix: the stores of a MultiStoreState are in the data
 table under their actor and key

---
 src/upstage_des/data_utils/data_utils.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 193c1d9..436e9b5 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -11,6 +11,7 @@ from upstage_des.states import (
     ActiveStatus,
     CartesianLocationChangingState,
     GeodeticLocationChangingState,
+    MultiStoreState,
     State,
     _DataclassProxy,
     _DictionaryProxy,
@@ -147,6 +148,18 @@ def _actor_state_data(
         elif hasattr(_value, "_quantities"):
             resources.append(_value)
             data.extend(_state_history_to_table(name, kind, state_name, False, _value._quantities))
+        elif isinstance(state, MultiStoreState) and any(
+            hasattr(v, "_quantities") for v in _value.values()
+        ):
+            for key, store in _value.items():
+                sname = f"{state_name}.{key}"
+                if hasattr(store, "_quantities"):
+                    resources.append(store)
+                    data.extend(
+                        _state_history_to_table(name, kind, sname, False, store._quantities)
+                    )
+                elif save_static:
+                    data.append((name, kind, sname, 0.0, store, STATIC_STATE))
         elif save_static:
             the_value = getattr(actor, state_name)
             if isinstance(the_value, _DataclassProxy):
-- 
2.43.0


From b5d43ffa78496f8241a60a150c4e0bfdc1292649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:59 +0000
Subject: [PATCH 84/94] fix: a change of activation is noted on every row of a
 value that is spread over its keys

---
 src/upstage_des/data_utils/data_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 436e9b5..5cfb6d3 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -50,11 +50,14 @@ def _state_history_to_table(
         list[STATE_DATA_ROW]: A long-form data table of state data.
     """
     data: list[STATE_DATA_ROW] = []
+    rows: list[STATE_DATA_ROW] = []
     active_value = "inactive" if is_active else None
     for time, value in hist:
         if isinstance(value, ActiveStatus):
-            row = data.pop(-1)
-            rows = [tuple(list(row[:-1]) + [value.name])]
+            # all rows of the value it follows, which may be spread over its keys
+            n_rows = len(rows)
+            rows = [(*row[:-1], value.name) for row in data[len(data) - n_rows :]]
+            del data[len(data) - n_rows :]
             active_value = "active" if value.name == "activating" else "inactive"
         elif is_dataclass(value) and not isinstance(value, type):
             rows = [
-- 
2.43.0


From e74c2310a6a4d3a05aac266ad8f1ba4aaf24f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:46 +0000
Subject: [PATCH 85/94] fix: what an unset state recorded of the state it
 mimics is in the data table

---
 src/upstage_des/data_utils/data_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 5cfb6d3..5fdc6f3 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -123,10 +123,8 @@ def _actor_state_data(
     used: set[str] = set()
     for state_name, state in actor._state_defs.items():
         used.add(state_name)
-        if state_name not in actor.__dict__:
-            # a None default that has not been set
-            continue
-        _value = actor.__dict__[state_name]
+        # None default states may not be set, but still record what they mimic
+        _value = actor.__dict__.get(state_name)
         _values = [v for _, v in actor._state_histories.get(state_name, [])] or [_value]
         if skip_locations and _is_location(state, _values):
             continue
@@ -163,7 +161,7 @@ def _actor_state_data(
                     )
                 elif save_static:
                     data.append((name, kind, sname, 0.0, store, STATIC_STATE))
-        elif save_static:
+        elif save_static and (state_name in actor.__dict__ or state_name in actor._mimic_states):
             the_value = getattr(actor, state_name)
             if isinstance(the_value, _DataclassProxy):
                 data.extend(
-- 
2.43.0


From 22e7c7ff606a1b93799ec951b3e101dc9207ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:26 +0000
Subject: [PATCH 86/94] fix: dictionary states with equal contents compare
 equal

---
 src/upstage_des/state_proxies.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index f25e173..ebe4ace 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -85,6 +85,8 @@ class _DictionaryProxy(Generic[VTD]):
         return len(self._wrapped)
 
     def __eq__(self, other: Any) -> bool:
+        if isinstance(other, _DictionaryProxy):
+            other = other._wrapped
         if not isinstance(other, dict):
             return False
         return other == self._wrapped
-- 
2.43.0


From 84ca6e778dc55a2d721c42343a41531bfbb28823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:26 +0000
Subject: [PATCH 87/94] fix: asking a pending Get for its value raises the
 simulation error

---
 src/upstage_des/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index b3aa580..eeb6a1c 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -617,7 +617,7 @@ class Get(BaseRequestEvent):
         if self.__is_store:
             if self.rehearsing and self.done_rehearsing:
                 return PLANNING_FACTOR_OBJECT
-            if self._request_event is not None and self._request_event.value is not None:
+            if self._request_event is not None and self._request_event.triggered:
                 return self._request_event.value
             else:
                 raise SimulationError("Requested item from an unfinished Get request.")
-- 
2.43.0


From 5bcefc9f8ac26e910452a60ef308812543450996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:26 +0000
Subject: [PATCH 88/94] fix: pretty_now knows standard time units in any case

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 5f8c6b5..7ff88ba 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -349,7 +349,7 @@ class UpstageBase:
         time_unit = self.stage.get("time_unit", None)
         # If it's explicitly set to None, still treat it as hours.
         time_unit = "hr" if time_unit is None else time_unit
-        standard = TIME_ALTERNATES.get(time_unit.lower(), time_unit)
+        standard = TIME_ALTERNATES.get(time_unit.lower(), time_unit.lower())
 
         ts: str
         if standard in STANDARD_TIMES:
-- 
2.43.0


From 71ec7ff859e6d24d8ab9ebd9e8bda4d24d667568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:03 +0000
Subject: [PATCH 89/94] fix: keep an event's payload when succeeding it again
 is refused

---
 src/upstage_des/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index eeb6a1c..2af7a8e 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -845,8 +845,8 @@ class Event(BaseEvent):
         """
         if self._event.processed:
             raise SimulationError("Event has already completed")
-        self._payload = kwargs
         self._event.succeed()
+        self._payload = kwargs
 
     def is_complete(self) -> bool:
         """Is the event done?
-- 
2.43.0


From 8bcd097705474107be397867858bc8bd87e72e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:09:57 +0000
Subject: [PATCH 90/94] fix: the closest point of a track may lie behind its
 origin

---
 src/upstage_des/geography/spherical.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 5e7b70b..2e528a5 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -4,7 +4,7 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Geographical math using spherical coordinates for Earth."""
 
-from math import acos, asin, atan2, cos, degrees, radians, sin, sqrt
+from math import asin, atan2, cos, degrees, radians, sin, sqrt
 
 from upstage_des.math_utils import _vector_dot, _vector_norm
 from upstage_des.units import unit_convert
@@ -402,9 +402,10 @@ class Spherical(SphericalConversions):
         delta_1_3 = cls.distance(origin, point, units="m") / spherical_radius
         theta_1_3 = radians(cls.bearing(origin, point))
         theta_1_2 = radians(cls.bearing(origin, destination))
-        d = asin(sin(delta_1_3) * sin(theta_1_3 - theta_1_2))
+        # negative for a point that lies behind the origin
+        along = atan2(sin(delta_1_3) * cos(theta_1_3 - theta_1_2), cos(delta_1_3))
 
-        dist_from_origin = acos(cos(delta_1_3) / cos(d)) * spherical_radius
+        dist_from_origin = along * spherical_radius
         cross_track_point = cls.point_from_bearing_dist(
             origin,
             degrees(theta_1_2),
-- 
2.43.0


From d2259e901c9b766498f8bb632af30433221b83f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:10:00 +0000
Subject: [PATCH 91/94] fix: rounding near poles and antipodes stays in the
 domain of the inverse functions

---
 src/upstage_des/geography/spherical.py       | 10 +++++-----
 src/upstage_des/motion/great_circle_calcs.py | 13 ++++++-------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 2e528a5..67cc08a 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -287,7 +287,7 @@ class Spherical(SphericalConversions):
         lon1, lat1, lon2, lat2 = map(radians, positions)
         a = sin(0.5 * (lat2 - lat1)) ** 2 + cos(lat1) * cos(lat2) * sin(0.5 * (lon2 - lon1)) ** 2
 
-        dist_m = spherical_radius * 2 * atan2(sqrt(a), sqrt(1.0 - a))
+        dist_m = spherical_radius * 2 * atan2(sqrt(a), sqrt(max(0.0, 1.0 - a)))
         return unit_convert(dist_m, "m", units)
 
     @classmethod
@@ -338,10 +338,10 @@ class Spherical(SphericalConversions):
         lat1 = radians(lat)
         lon1 = radians(lon)
 
-        lat2 = asin(
-            sin(lat1) * cos(dist / spherical_radius)
-            + cos(lat1) * sin(dist / spherical_radius) * cos(bearing)
-        )
+        sin_lat2 = sin(lat1) * cos(dist / spherical_radius) + cos(lat1) * sin(
+            dist / spherical_radius
+        ) * cos(bearing)
+        lat2 = asin(max(-1.0, min(1.0, sin_lat2)))
 
         lon2 = lon1 + atan2(
             sin(bearing) * sin(dist / spherical_radius) * cos(lat1),
diff --git a/src/upstage_des/motion/great_circle_calcs.py b/src/upstage_des/motion/great_circle_calcs.py
index c6d75a9..1142a1d 100644
--- a/src/upstage_des/motion/great_circle_calcs.py
+++ b/src/upstage_des/motion/great_circle_calcs.py
@@ -26,12 +26,10 @@ def get_dist_rad(point1: GeodeticLocation, point2: GeodeticLocation) -> float:
     """
     point1 = point1.to_radians()
     point2 = point2.to_radians()
-    ans = 2.0 * asin(
-        sqrt(
-            (sin((point1.lat - point2.lat) / 2.0)) ** 2
-            + cos(point1.lat) * cos(point2.lat) * (sin((point1.lon - point2.lon) / 2.0)) ** 2
-        )
-    )
+    hav = (sin((point1.lat - point2.lat) / 2.0)) ** 2 + cos(point1.lat) * cos(point2.lat) * (
+        sin((point1.lon - point2.lon) / 2.0)
+    ) ** 2
+    ans = 2.0 * asin(min(1.0, sqrt(hav)))
     return cast(float, ans)
 
 
@@ -79,7 +77,8 @@ def get_pos_from_points_and_distance(
     point2 = point2.to_radians()
     tc = get_course_rad(point1, point2)  # course from point 1 to 2
 
-    lat: float = asin(sin(point1.lat) * cos(dist) + cos(point1.lat) * sin(dist) * cos(tc))
+    sin_lat = sin(point1.lat) * cos(dist) + cos(point1.lat) * sin(dist) * cos(tc)
+    lat: float = asin(max(-1.0, min(1.0, sin_lat)))
 
     dlon = atan2(
         sin(tc) * sin(dist) * cos(point1.lat),
-- 
2.43.0


From 7b47650311e5969efd7041d4368dbf0a9666f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:10:04 +0000
Subject: [PATCH 92/94] fix: the point between a place and itself is that place

---
 src/upstage_des/geography/spherical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 67cc08a..f9c43af 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -110,6 +110,8 @@ class Spherical(SphericalConversions):
         positions = [origin[1], origin[0], destination[1], destination[0]]
         lon1, lat1, lon2, lat2 = map(radians, positions)
         d = cls.distance(origin, destination, units="m") / spherical_radius
+        if d == 0:
+            return origin[0], origin[1]
         lat, lon = cls._point_along(d, f, lat1, lon1, lat2, lon2)
         return (lat, lon)
 
-- 
2.43.0


From 1132bd3f98e68b04c44c7c5079b476c98a3b3834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:10:07 +0000
Subject: [PATCH 93/94] fix: a stage variable named like a dict method reads
 back as its value

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 7ff88ba..4e02f1e 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -617,7 +617,7 @@ def get_stage_variable(varname: str) -> Any:
         raise ValueError("Stage should have been set.")
     if varname not in stage:
         raise UpstageError(f"Variable '{varname}' does not exist in the stage")
-    return getattr(stage, varname)
+    return stage[varname]
 
 
 def get_stage() -> StageProtocol:
-- 
2.43.0


From e19734065b67afae08784171a5bd84119d29a9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:23:14 +0000
Subject: [PATCH 94/94] fix: earth-centred points at the poles convert back on
 WGS84

---
 src/upstage_des/geography/conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/geography/conversions.py b/src/upstage_des/geography/conversions.py
index ae37e54..c337ba6 100644
--- a/src/upstage_des/geography/conversions.py
+++ b/src/upstage_des/geography/conversions.py
@@ -114,9 +114,9 @@ class BaseConversions:
         s = (1 + c + sqrt(c * c + 2 * c)) ** (1 / 3)
         P = F / (3 * (s + 1 / s + 1) ** 2 * G * G)
         Q = sqrt(1 + 2 * e2 * e2 * P)
-        ro = -(e2 * P * r) / (1 + Q) + sqrt(
-            (a * a / 2) * (1 + 1 / Q) - ((1 - e2) * P * Z2) / (Q * (1 + Q)) - P * r2 / 2
-        )
+        # zero at the poles, where rounding may take it below
+        ro_2 = (a * a / 2) * (1 + 1 / Q) - ((1 - e2) * P * Z2) / (Q * (1 + Q)) - P * r2 / 2
+        ro = -(e2 * P * r) / (1 + Q) + sqrt(max(0.0, ro_2))
         tmp = (r - e2 * ro) ** 2
         U = sqrt(tmp + Z2)
         V = sqrt(tmp + (1 - e2) * Z2)
-- 
2.43.0

