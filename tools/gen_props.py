"""Writes properties.jsonl from the table below (kept as source so the statements stay reviewable)."""
import json, os

S = "src/upstage_des/"
P = []


def p(id, title, statement, over, qtext, why, files, mech):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files],
                    "mechanism": [{"name": n, "where": S + w} for n, w in mech]},
    })


p("C01", "Environment contexts are isolated and fully restored",
  "Entering an environment context makes a fresh clock (at the requested start time), an empty stage holding only the random generator (the one given, else one seeded with the given seed), empty entity groups and empty actor, monitor and custom-data lists current; leaving it, normally or by an exception (which is not swallowed), restores all four to what was current before. Asking for the clock, the stage, actors, entity groups, monitored resources or recorded data outside any context raises an error.",
  ["histories", "configurations"], "every nesting and sequence of contexts, every way the body ends",
  "tests open one context at a time and never compare every context item before and after nested or failing bodies",
  ["base.py"], [("EnvironmentContext enter/exit", "base.py"), ("UpstageBase accessors", "base.py")])
p("C02", "Stage variables are write-once and never silently missing",
  "Defining a stage variable whose name already exists, by attribute or by the add function, raises and keeps the old value; reading a variable that was never defined raises, by attribute or by the get function. A defined variable reads back as exactly the value given, even if falsy.",
  ["inputs", "histories"], "every name, value (including None/0/False) and order of definitions",
  "tests define a handful of truthy values",
  ["base.py"], [("DotDict", "base.py"), ("add_stage_variable/get_stage_variable", "base.py")])
p("C03", "Every entity is registered exactly once in each of its groups",
  "Constructing a named entity adds it once to the group of its class name (unless the class opts out of it), to every group its class declares and to every group of its ancestors; opting out of registration adds it to none. Each actor appears exactly once among the context's actors, each self-monitoring resource once among the monitored ones, and the query functions return exactly these lists.",
  ["programs", "histories"], "every class hierarchy, declaration of groups and construction order",
  "tests check a few fixed hierarchies",
  ["base.py", "actor.py", "resources/monitoring.py"], [("NamedUpstageEntity", "base.py"), ("_add_special_group", "base.py")])
p("C04", "An actor starts with every state set and shares nothing mutable",
  "Building an actor either ends with every state holding the given value or its default, applied in declaration order, or raises: for an unknown name, for a value given to a no-init state, for a missing required value or for clashing record names. A default factory is called anew for every actor, and no container of one actor (states by default, knowledge, queues, histories, logs, locks) is shared with another.",
  ["programs", "inputs"], "every set of states, defaults and arguments",
  "tests build a few actors with a few states; sharing and hash-dependent order only show across actors and interpreter runs",
  ["actor.py", "states.py"], [("__actual_init__/__init_states", "actor.py"), ("_set_default", "states.py")])
p("C05", "A state assignment is checked, stored, recorded and announced in that order",
  "Assigning a state that is frozen (already holding a value) or of a wrong type raises and leaves the value, the history and every listener untouched. Any other assignment stores the value and then exactly once records it, runs every change callback with the actor and new value, and tells the actor's nucleus the state name and new value.",
  ["inputs", "histories"], "every state kind, value, frozen/type/recording configuration and previous value",
  "tests sample a few values; they never look at what a rejected assignment left behind",
  ["states.py"], [("State.__set__ and overrides", "states.py")])
p("C06", "Recorded histories are time-stamped snapshots without false repeats",
  "Each recording of a recording state appends the current simulation time and a deep copy of the value, except that an entry equal to the last one of that history (same time and value) is dropped unless duplicates were asked for; a non-recording state appends nothing. Every recording function is called with that time and the recorded value and its result is kept under its own name by the same rule.",
  ["inputs", "histories"], "every value (mutable too), sequence of assignments and recording configuration",
  "tests record simple numbers; aliasing and dedup rules need mutable values and revisits of old values",
  ["states.py", "actor.py"], [("_do_record/_do_record_funcs", "states.py"), ("_record_single", "states.py")])
p("C07", "State activation holds its lock exactly while active",
  "Activating a state locks it to the task before anything else changes, raising if it is locked (for shareable states: if locked by the same task); deactivating it raises unless that task holds the lock, first brings the value up to date while still active, then drops the activity and the lock. Deactivating all states of a task deactivates exactly the ones that task activated, and every activation and full deactivation of a recording state that defines a marker for it records that marker.",
  ["histories", "schedules"], "every interleaving of activations and deactivations by any tasks",
  "tests use one or two tasks in a fixed order",
  ["actor.py", "states.py", "state_sharing.py"], [("_lock_state/_unlock_state", "actor.py"), ("activate_state/deactivate_state", "actor.py")])
p("C08", "Reading an active linear state advances it exactly to now",
  "Reading a linearly changing state while active returns, stores and records the last stored value plus the active rate (for shared states the sum of all tasks' rates) times the time since the last update, and marks now as the last update, so that how often it is read never changes its value; while inactive it returns the stored value. A shared state starts counting a new task's rate only from its activation, stops at its deactivation, and stays active while any other task remains.",
  ["histories", "schedules"], "every pattern of read times, rates and activations",
  "tests read at a few times",
  ["states.py", "state_sharing.py"], [("LinearChangingState._active", "states.py"), ("SharedLinearChangingState", "state_sharing.py")])
p("C09", "Moving states follow their waypoints by elapsed time",
  "A location state activated with speed and waypoints holds, at any elapsed time, the position on the leg containing that time, reached by the elapsed fraction of that leg (legs start at the previous waypoint, take distance over speed, and altitude moves with the same fraction), and raises past the end of the path. The remaining waypoints are those from the current leg on, and the motion manager, if any, is told of each start (from the current position) and each stop of a non-rehearsing actor and of none of a rehearsing one.",
  ["inputs", "histories"], "every path, speed and read time",
  "tests sample a few paths and times",
  ["states.py"], [("CartesianLocationChangingState", "states.py"), ("GeodeticLocationChangingState", "states.py")])
p("C10", "Mimicking follows the other actor's state and is fully undone",
  "While a state mimics another actor's state, each read returns the other state's current value and stores it, and each change of the other is recorded by a recording mimic at that time. Activating raises for rehearsing tasks, for a state already mimicking, for key/value states and for mismatched types; deactivating brings the value up to date, removes the recording hook and the mimic, and deactivating all of a task's mimics touches that task's ones only.",
  ["histories"], "every sequence of mimic activations by several tasks",
  "tests use one task and one mimic",
  ["actor.py", "states.py"], [("activate_mimic_state/deactivate_mimic_state", "actor.py"), ("State.__get__", "states.py")])
p("C11", "Knowledge is never silently overwritten, invented or lost",
  "Setting knowledge that exists raises and keeps the old value unless overwriting was requested; clearing, or getting with must-exist, raises when it is absent, and a plain get of absent knowledge returns nothing. Bulk and get-and-clear forms behave as the single forms applied to each name, and succeeding a knowledge event removes it and triggers that event with the given payload, raising if it is absent or not an event.",
  ["inputs", "histories"], "every name, value and sequence of operations",
  "tests try a few names",
  ["actor.py", "task.py"], [("knowledge methods", "actor.py"), ("Task knowledge wrappers", "task.py")])
p("C12", "An interrupted task cleans up and continues as its handler says",
  "When a task's process is interrupted and its handler says to end or restart, the event (or process) it waits on is cancelled or interrupted, knowledge holding that very event is cleared, and the states and mimics the task activated are deactivated; ending then stops the task and restarting begins it anew. Ignoring does none of that and keeps waiting on the same event, which still delivers its value. A handler that gives no verdict raises, and a task with no handler of its own ends, its marker forgotten.",
  ["schedules", "fault_sequences"], "every interruption time, pending event kind and handler verdict",
  "tests interrupt at a few chosen moments",
  ["task.py"], [("Task._handle_interruption", "task.py"), ("Task.run", "task.py")])
p("C13", "A task gets back exactly what its yielded event produced",
  "The value sent into a task's (and a routine's) generator at each yield is the value of the event it just yielded, a process yields its return value, and yielding anything that is not an event, process or routine raises. A routine yielded by a task produces the routine's own result.",
  ["programs", "inputs"], "every sequence of events, processes and routines yielded, with any values",
  "tests rarely use the received value after a routine or with a non-empty previous value",
  ["task.py", "routines.py"], [("Task.run", "task.py"), ("Routine._run", "routines.py")])
p("C14", "Cancelling a routine cancels its pending event then runs its cancel steps",
  "When a task waiting inside routines is ended by an interrupt, the pending event is cancelled first and then each started, unfinished routine is closed and all its cancel steps run, innermost first; finished routines run none. A windowed-get routine collects the items in the order they came within its time, cancels the request left over when its time is up, and puts every collected item back when cancelled.",
  ["schedules"], "every cancel time relative to the routine's steps",
  "tests cancel at one moment",
  ["routines.py", "task.py"], [("Routine", "routines.py")])
p("C15", "Cancelling an event withdraws it wherever it is pending",
  "Cancelling a get, put or resource request that is queued withdraws it from its queue; one granted but not yet received gives back what it took (item, amount or resource), and one already received is left alone. Cancelling an any/all ends it and cancels each of its events, and cancelling a pending named event or wait stops it from failing or waking anyone. Turning a wait, get or put into its simulation event happens once, later requests returning the same one; a resource hold requests first and then releases that request only once it was granted.",
  ["schedules", "fault_sequences"], "every event kind, composition and moment of cancellation",
  "tests cancel few kinds at few moments",
  ["events.py"], [("BaseEvent subclasses", "events.py")])
p("C16", "Rehearsing an event never touches the real simulation",
  "Rehearsing any event advances only the rehearsal clock: by its stated time to complete (for a wait without one, its duration; for giving a resource back, nothing) or the minimum/maximum over its sub-events for any/all, returning the planning factor for named events and store gets and nothing otherwise. No rehearsal puts into, gets from or requests a real store, container or resource, nor creates a real simulation event. Afterwards a rehearsed event counts as complete, and each direct sub-event of an any/all counts as complete exactly if its time is within the time taken.",
  ["programs", "inputs"], "every event kind, nesting and time",
  "tests rehearse a few events",
  ["events.py"], [("rehearse methods", "events.py")])
p("C17", "A rehearsal leaves the real actor and network untouched",
  "Rehearsing a task or network works on a clone of the actor whose states, knowledge and queue are the copies, in a mock clock starting at the current time, and returns that clone; the real actor, its resources and its networks keep their values and the environment they had. A rehearsed network visits the given tasks in order, then follows the network's own choice until the end task is chosen (which is not rehearsed), without running real decisions.",
  ["programs", "histories"], "every task, network, queue and knowledge",
  "tests compare a few values",
  ["task.py", "task_network.py", "actor.py"], [("Task.rehearse", "task.py"), ("TaskNetwork.rehearse_network", "task_network.py")])
p("C18", "Task networks only run tasks the network allows, in the promised order",
  "After a task, the next one is the queue's first entry if any, else the network's default, and it must be among the allowed next tasks or an error is raised; a decision task may change the queue before the choice is made. A terminal task ends the network unless something follows by interrupt, and while a task runs its name and process are the ones reported.",
  ["histories", "programs"], "every network, queue content and decision",
  "tests run a few networks",
  ["task_network.py", "actor.py"], [("TaskNetwork._next_task_name/loop", "task_network.py"), ("_begin_next_task", "actor.py")])
p("C19", "Task queues are first-in first-out and never overwritten by accident",
  "Setting a non-empty queue raises; appending, clearing and reading act on the named network only; beginning a task removes exactly the first entry, which must be that task, or raises. The queue list given by a caller is copied.",
  ["histories"], "every sequence of queue operations on several networks",
  "tests do a few operations",
  ["actor.py", "task.py"], [("queue methods", "actor.py")])
p("C20", "A nucleus interrupts exactly the networks watching a changed state",
  "When a watched state changes, every network registered for that state and no other is interrupted with a nucleus interrupt carrying the state name and value; networks are registered under a name once, and removing one stops its notices. Changing an unwatched state interrupts nothing.",
  ["histories", "schedules"], "every registration and change sequence",
  "tests register a few networks",
  ["nucleus.py", "states.py"], [("TaskNetworkNucleus", "nucleus.py")])
p("C22", "Self-monitoring resources record every change of their quantity",
  "Each completed put or get of a self-monitoring store, container, continuous container or reservable container that changes its quantity appends the current time and the quantity after that change, after it took place, so the last entry always gives the current quantity. No entry carries a quantity not held at its time, and recording starts with the initial quantity at creation.",
  ["histories", "schedules"], "every sequence of operations",
  "tests check short sequences",
  ["resources/monitoring.py", "resources/container.py"], [("monitoring mixins", "resources/monitoring.py")])
p("C23", "A reservable container conserves its quantity",
  "Reserved plus available equals the quantity held at all times: a reservation larger than what is available is refused, a successful one is fulfilled by taking exactly that amount, and cancelling it or its expiry makes exactly that amount available again, once. Putting more than the free capacity is refused unless an increase was asked for.",
  ["histories", "schedules"], "every sequence of reserve/take/cancel/put and expiry",
  "tests run short sequences",
  ["resources/reserve.py"], [("ReserveContainer", "resources/reserve.py")])
p("C24", "A continuous container's level is its rates integrated within bounds",
  "The level at any time equals the last level plus the sum of active put rates minus get rates times the elapsed time, and it never leaves zero to capacity: when it reaches the limit in its direction, the configured error is raised, else the flows that cannot go on end then, their callbacks called, and the others continue. Each flow acts from its start to its end or cancellation only.",
  ["histories", "schedules"], "every set of overlapping flows",
  "tests overlap two flows",
  ["resources/container.py"], [("ContinuousContainer", "resources/container.py")])
p("C25", "A sorted filter get returns the least matching item",
  "A sorted filtered get takes, among the items satisfying the filter, one whose sort key is smallest (largest when reversed), removes exactly that item and leaves the others; when none matches it waits without removing anything and without keeping later requests from being served.",
  ["inputs", "histories"], "every store content, filter and sorter, including falsy and equal items",
  "tests use a few truthy items",
  ["resources/sorted.py"], [("SortedFilterStore", "resources/sorted.py")])
p("C26", "A message is delivered once, to the addressee, unless blocked",
  "Sending a message creates it once with the sender, destinations and mode given and puts exactly one copy into each destination's matching store after the configured delay; while the link or the mode is degraded or blocked it is not delivered, and it is retried or dropped as configured, never duplicated. Every message sent is logged with its outcome when logging is on.",
  ["schedules", "fault_sequences", "inputs"], "every link state over time, message and destination set",
  "tests send a few messages over fixed links",
  ["communications/comms.py"], [("CommsManagerBase", "communications/comms.py")])
p("C27", "Routes only use existing, unblocked hops and reach the destination",
  "A routed message moves hop by hop along links present in the routing table, never through a hop reported as down, and is delivered only when the hop reached is the destination; when no hop remains it is retried or dropped as configured. A shortest-hop choice has the minimum number of hops.",
  ["configurations", "fault_sequences"], "every network graph and set of down links",
  "tests use one or two graphs",
  ["communications/routing.py", "communications/comms.py"], [("RoutingTable", "communications/routing.py")])
p("C28", "Sensor detections are notified on entry and exit exactly once",
  "A sensor is notified once when a mover enters its range (at once if the motion starts there, the sensor is added while it is inside, but not again if it was already seen there), and once of its exit when it leaves or becomes undetectable, each at the computed time. Stopping or hiding a mover withdraws all its later notices, also when done in the instant the motion starts or from within a notice; a mover stopped within a range stays in view (without an exit notice) until it leaves in a later motion or becomes undetectable. Other movers and sensors are not affected. A sensor never gets notices about itself, about an undetectable mover or one without a detectability state. Changing detectability tells the manager, except at the first value and in rehearsals. Starting a motion twice or stopping one that was not started raises, and a sensor without the needed methods or attributes is refused.",
  ["schedules", "histories"], "every motion, stop and detectability history",
  "tests run a few motions",
  ["motion/motion.py"], [("SensorMotionManager", "motion/motion.py")])
p("C29", "The stepped manager reports each change of visibility once",
  "At every step, each detectable that came into a sensor's range (or satisfies its own detection check) since it was last tested is reported as entering once, and each that left as leaving once, in the places they have at that step; one that becomes undetectable is reported as leaving then, once, and one that becomes detectable is tested at once; nothing else is reported, also when a notice itself hides, shows or removes a detectable. A removed (stopped) detectable gets no further entry notices. No object is tested against its own sensor. Stepping ends only after the given number of consecutive steps without other events, and starts again with the next motion.",
  ["schedules", "histories"], "every motion and detectability history",
  "tests run a few steps",
  ["motion/stepped_motion.py"], [("SteppedMotionManager", "motion/stepped_motion.py")])
p("C30", "Intersections along a path come in order with the elapsed time of their leg",
  "Each intersection found on a leg is scheduled at the time spent on all earlier legs plus the time within the leg, in path order; a leg without intersections adds exactly its travel time, and an object inside at the end of a leg and the start of the next neither leaves nor enters between. The straight-line model reports a leg that crosses, starts in (or on the edge of), or ends in the range as entering, leaving, starting or ending inside accordingly, at the place where the leg meets the edge and at the time of travel to it, with heights in the units of distances; a range the leg does not meet, or only behind its start or beyond its end, is not reported. The two great-circle models report the same kinds; the analytical one at the crossing of the ground track (times scaled by the mean height of the leg), with heights in proportion to the way travelled; the subdividing one at a sampled time between whose neighbours the range is crossed.",
  ["inputs"], "every path, speed and sensor",
  "tests use a few paths",
  ["motion/cartesian_model.py", "motion/geodetic_model.py"], [("cartesian_linear_intersection", "motion/cartesian_model.py")])
p("C31", "Locations are immutable values whose equality agrees with their hash",
  "A location's coordinates and unit flag cannot be changed after construction (setting one raises) and no method changes them. A copy, and a location made from location data, has every component; converting between degrees and radians changes latitude and longitude only. Equality within a kind is symmetric, considers every coordinate and does not depend on the angle unit; equal locations hash equally; another kind is never equal, and subtracting or measuring to another kind raises. Distances use every coordinate in the stage's units (heights converted from altitude units where they are in those), and a Cartesian location's distance to itself is zero.",
  ["inputs"], "every coordinate and unit",
  "tests compare a few points",
  ["data_types.py"], [("Location classes", "data_types.py")])
p("C32", "Unit conversions are closed, reciprocal and correctly named",
  "Every unit name accepted as a source of a conversion is accepted as a target for each unit of its kind, converting to itself is the identity, and converting forth and back returns the value; unknown or mismatched units raise.",
  ["inputs"], "every pair of unit names",
  "tests sample pairs",
  ["units/convert.py"], [("unit tables", "units/convert.py")])
p("C33", "The geodesy code keeps degrees, latitude-longitude order and length units",
  "Latitudes, longitudes and bearings given to and returned by the earth models are in degrees (radians only where asked for), latitude first, and every trigonometric function is applied to radians; distances and heights are in the unit asked for or stated, metres where none is. Location objects in degrees or radians give what their latitude and longitude in degrees give. Distances, bearings and destinations are those of the great circle on the spherical model and of Vincenty's formulas on WGS84, and conversions to earth-centred coordinates those of the model's ellipsoid. They are given for every place, also at poles, between opposite places on the sphere, between a place and itself, and for a point behind the origin of a track. A line or circle of n segments has n+1 points from the first to the last, at equal shares, with altitudes in proportion. The moving states, the intersection functions and the great-circle functions give the models degrees, metres and the stage's units, and hand back degrees and the stage's units.",
  ["inputs"], "every argument of the earth models and every caller in the package", "tests check a few points",
  ["geography/spherical.py", "geography/wgs84.py", "geography/conversions.py", "geography/intersections.py", "motion/great_circle_calcs.py", "motion/geodetic_model.py"], [("earth models", "geography/spherical.py"), ("conversions", "geography/conversions.py")])

p("C34", "The same seed gives the same run",
  "All randomness in the package comes from the stage's generator, no simulation outcome depends on wall-clock time, object identity or the iteration order of a set, so two runs with the same seed and inputs are identical.",
  ["schedules", "configurations"], "every model and interpreter run",
  "tests run once in one interpreter; hash-order effects need different interpreter runs",
  ["actor.py", "events.py", "nucleus.py", "motion/motion.py"], [("stage.random", "base.py")])
p("C35", "Data tables contain every recorded value of every actor",
  "The data table has one row for each recorded value of each actor (of its states, of the keys or fields of its key/value states, and of what its recording functions recorded) and for each recorded value of a monitoring resource, labelled with the actor (or the resource's own name when no actor holds it), its class, the state (and key) and the time; a value of an active state tells whether the state was active or inactive then, or was being activated or deactivated. Locations are left out unless asked for; when static values are asked for, there is also one row with the current value of each state that is set but not recorded. The location table has one row per recorded location of a state with all coordinates, under column names of the kind of location. No row is lost, repeated, invented or attributed to another actor or state, and one history's rows keep its order. An activation or deactivation is recorded after the value at its time. Data recorded by hand is returned complete, in order, with its time.",
  ["histories", "configurations"], "every set of actors, states and histories",
  "tests build one table",
  ["data_utils/data_utils.py", "data_utils/data_recorder.py"], [("create_table", "data_utils/data_utils.py")])
p("C36", "Everything the public API names exists and is exported",
  "Every name listed as exported by a module is defined in it by the package under that name, every module can be imported first, and importing the public API provides every listed name.",
  ["programs"], "every exported name",
  "tests import the names they use",
  ["api.py"], [("__all__", "api.py")])
p("C37", "A resource state is created once, as described, with the actor's clock",
  "Initialising a resource state with a description builds the described kind (else the default) with the defaults overridden by the given arguments and leaves the given description unchanged; an object of a wrong kind is refused. A second assignment raises and keeps the first resource.",
  ["inputs"], "every description and class",
  "tests build a few",
  ["states.py"], [("ResourceState/CommunicationStore/MultiStoreState", "states.py")])
p("C39", "Interchangeable earth models and managers offer the same operations",
  "Each operation of the earth protocol is in both earth models and takes the arguments that the protocol and the package give it, by place and by the protocol's names, with the same defaults; for pairs of degrees (latitude first) and for locations, both give results of the same shape, in degrees, latitude first, and in the units asked for. Both motion managers take the notices of moving and detectable states and the same sensors (by parameter name), and call a sensor with the mover alone, on entry and exit. The intersection models take the same five arguments in the same order, by place or name, and answer with the same kinds of intersections, places and times, and the time of the leg.",
  ["configurations"], "every sibling pair and operation",
  "tests exercise one sibling in most places",
  ["geography/spherical.py", "geography/wgs84.py", "motion/motion.py", "motion/stepped_motion.py"], [("EarthProtocol", "geography/geo_types.py")])
p("C40", "A clone equals its actor and shares no mutable record with it",
  "Cloning any actor succeeds and gives an actor of the same class with the same state values, knowledge, queues and histories plus the requested overrides, whose later changes never alter the original. The original is changed in nothing but its clone count.",
  ["programs", "histories"], "every actor class and state history",
  "tests clone simple actors once",
  ["actor.py"], [("Actor.clone", "actor.py")])

p("C41", "A named event succeeds once and is reset only when allowed",
  "Succeeding an event that has completed, or has been succeeded already, raises and keeps its payload; otherwise the event succeeds and its payload is exactly the one given. Waiting on an event that has not completed waits on the same occurrence; on a completed one it waits for a new occurrence if the event may reset itself, else it raises. Outside rehearsals every event counts as complete exactly when its simulation event has been processed.",
  ["histories", "schedules"], "every sequence of succeed, wait, reset and cancel by any processes",
  "tests succeed and wait in a fixed order",
  ["events.py"], [("Event", "events.py"), ("is_complete methods", "events.py")])
p("C42", "A wait lasts exactly the time asked for, in the stage's unit",
  "A wait whose unit and the stage's unit are both known lasts the given time converted from its unit to the stage's, else the given time as it is; a negative time raises. A random wait draws once, uniformly between its bounds, from the stage's generator and treats the draw as the time given, passing on its unit and rehearsal time.",
  ["inputs", "configurations"], "every time, unit, stage unit and pair of bounds",
  "tests sample a few unit pairs",
  ["events.py"], [("Wait", "events.py")])

p("C43", "A dictionary or dataclass state reads as what it holds",
  "What is read from a dictionary or dataclass state answers every read (item or field, membership, length, order, keys, values, items, default, equality) from what the state holds at that moment, also when it was read earlier. Writing a fitting value stores it under its key or field and changes nothing else. A missing key or field, a value of a wrong type and a second object for the state are refused and change nothing.",
  ["inputs", "histories"], "every dictionary or dataclass, key or field and value",
  "tests read and write a few keys",
  ["states.py", "state_proxies.py"], [("_DictionaryProxy/_DataclassProxy", "state_proxies.py"), ("DictionaryState/DataclassState", "states.py")])
p("C44", "The debug log keeps each message, in order, with its time",
  "With debug logging on, each message given to an actor's log is kept once, at the end, with the simulation time, also an empty text; with it off nothing is kept. The text starts with the written time if the actor's debug_log_time, else the stage's, asks for it (it does by default). Asking for the log gives all of it, unchanged. The written time is day and time of day when the stage's unit is known as seconds, minutes or hours, else the number with the unit, split into days by the stage's daily count if given.",
  ["histories", "configurations"], "every sequence of messages, time, unit and stage setting",
  "tests look at one log text",
  ["actor.py", "base.py"], [("Actor.log/get_log", "actor.py"), ("UpstageBase.pretty_now", "base.py")])
p("C45", "A task network is made of exactly the tasks and links described",
  "The factory helpers describe the given tasks by name, linked as the helper's name says: one task looping on itself or terminating, an ordered chain ending in a terminal task or leading back to its first. Each network made from a factory is new and idle, with the factory's tasks and links and the name asked for, else the factory's. An actor keeps an added network under its name with an empty queue and refuses a name it has. A suggested name is the factory's if the actor has none so named, else one the actor does not have. Starting runs the named network on that actor from the given first task.",
  ["programs"], "every list of different task classes and names",
  "tests build a few networks",
  ["task_network.py", "actor.py"], [("TaskNetworkFactory", "task_network.py"), ("Actor.add_task_network/suggest_network_name/start_network_loop", "actor.py")])
p("C46", "Questions about an actor or task are answered from what it declares and holds",
  "An actor's states are named in declared order, its state values in that order with the values of now. The matching state is the first declared of the kind with all attributes asked for, else none; the detectability state is the only one, none if there is none, and an error if there are two. The activation shortcuts activate exactly what they are given; remaining waypoints are the state's own; the nucleus is the one attached, and asking for none raises. A task's marker and its time are those last set, none if cleared. A finished store Get gives the item it got; any other Get asked for its value raises.",
  ["programs", "histories"], "every set of declared states and sequence of markers and gets",
  "tests ask a few actors",
  ["actor.py", "task.py", "events.py"], [("Actor.states/state_values/_get_matching_state", "actor.py"), ("Task markers", "task.py"), ("Get.get_value", "events.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            fh.write(json.dumps(x) + "\n")
    print(len(P), "properties")
