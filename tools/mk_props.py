#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as data here because the file is one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": hook}})
CM = "controller_manager/src/controller_manager.cpp"; CMH = "controller_manager/include/controller_manager/controller_manager.h"
CB = "controller_interface/include/controller_interface/controller_base.h"
RH = "hardware_interface/include/hardware_interface/robot_hw.h"
TI = "transmission_interface/include/transmission_interface/"; TS = "transmission_interface/src/"
JL = "joint_limits_interface/include/joint_limits_interface/"
HI = "hardware_interface/include/hardware_interface/"
CR = "combined_robot_hw/src/combined_robot_hw.cpp"
WHYCM = "The manager's tests need a live ROS system, run one fixed scenario each, and sample the states they happen to reach; they cannot quantify over request histories, hardware behaviours and control-cycle placements. None of them runs in the reliable baseline."

p("C01", "Controllers are driven strictly in lifecycle order, once per control cycle",
  "For every history of service requests and control cycles, a controller is only started when it is not running, only stopped when it is running, and never receives any run-time callback before it was initialised successfully. In every control cycle each controller that is running when the cycle begins is updated exactly once, with exactly that cycle's time and period, and no other controller is updated in that cycle. Start, update, stop, wait and abort callbacks happen only inside the manager's control-cycle call (receiving that cycle's time), never from within a service request.",
  ["histories", "schedules"], "all interleavings of load/unload/switch/list/reload requests with control cycles, including duplicate and redundant names, waiting and aborted controllers, and resets", WHYCM,
  [CM, CB], [("update/startRequest/stopRequest state machine", CB), ("double-buffered list walked by the control cycle", CM)], [("state_", "execution state of one controller", CB)], ["controller callbacks", "manager update() boundary"])
p("C02", "Two running controllers never claim the same resource",
  "At no moment, including in the middle of a control cycle, are two controllers running that both claim the same hardware resource, and a controller whose own claims name one resource twice is never running. A switch request whose resulting set of running controllers would contain such a conflict is refused; a refused request changes no controller's state, calls no controller, and commits no hardware switch.",
  ["histories", "inputs"], "all sets of claims, all histories of switch requests (strict and best-effort, overlapping start and stop lists, stale names)", WHYCM,
  [CM, RH], [("resource check over the would-be running set before the switch is committed", CM), ("checkForConflict", RH)], [], ["controller callbacks", "switch response", "hardware prepare/commit calls"])
p("C03", "Switch requests obey STRICT and BEST_EFFORT exactly",
  "A strict request is refused as a whole, without any effect, if any name is not loaded, a controller to stop is not running, or a controller to start is already running; a request that both starts and stops one running controller is refused at either strictness. A best-effort request (also the default when no strictness is given) ignores exactly those entries and carries out the rest. When an accepted request completes without hardware error or timeout, it is answered positively and exactly the effective entries have been started and stopped, once each whatever duplicates were listed, and every other controller keeps its state.",
  ["histories", "inputs"], "all start/stop lists (unknown, duplicate, overlapping, already running, not running) against all reachable manager states, both strictness levels", WHYCM,
  [CM, CMH, "controller_manager_msgs/srv/SwitchController.srv"], [("list building and strictness filtering", CM)], [], ["switch response", "controller callbacks", "listed states after the request"])
p("C04", "Hardware is prepared and switched once, before any controller moves",
  "Every accepted switch asks the hardware exactly once, outside the control cycle, to prepare the effective start and stop lists (each controller's name, type and claims, disjoint lists), and if the hardware refuses, the request fails with no effect. Otherwise the hardware switch is committed exactly once, inside one control cycle, with the same two lists, before any controller of the request is stopped or started. All controllers to stop are stopped in that cycle before any is started, and if the hardware reports completion immediately all starts happen in that same cycle.",
  ["histories", "fault_sequences"], "all switch histories against hardware that accepts or refuses preparation", WHYCM,
  [CM, RH], [("prepareSwitch then do_switch flag then doSwitch", CM)], [], ["hardware prepare/commit calls", "controller callbacks"])
p("C05", "Pending starts wait for, and abort with, the hardware",
  "In the default mode no controller of a pending switch is started while the hardware reports the switch ongoing: each gets one waiting callback per control cycle, all are started together in the first cycle that reports completion, and all are aborted (none started) in the first cycle that reports an error or in which more than the requested non-zero timeout has passed since the request. In as-soon-as-possible mode each pending controller is, in every cycle, individually started, aborted or kept waiting by the hardware's report for that controller and the timeout, and the switch ends once every one has been started or aborted. Controllers not named in the request are unaffected throughout.",
  ["fault_sequences", "schedules"], "all per-cycle sequences of hardware reports (done/ongoing/error, global and per controller), timeouts and cycle times, both start modes", WHYCM + " The hardware-switch tests script a single sequence per mode.",
  [CM], [("startControllers / startControllersAsap", CM)], [("switch_params_", "the pending switch", CMH)], ["controller callbacks per cycle", "listed states"])
p("C06", "Requests finish in bounded time; an expired switch is fully withdrawn",
  "While the control loop runs and no other request is in progress, every load, unload and list request returns within a bounded number of control cycles, and so does a switch or reload request once the hardware has reported a final result. A switch with a non-zero timeout returns in bounded time even if the control loop stalls or the hardware never finishes, and after it has returned failure for that reason no later control cycle starts, stops, waits or aborts any controller on its behalf or commits its hardware switch. A switch request that returns success has been completely processed: no later cycle acts on it.",
  ["schedules", "fault_sequences"], "all placements of control cycles relative to requests, including loops that stall or resume at any point", WHYCM + " Stalled control loops are never exercised.",
  [CM], [("handshake flag between service thread and control loop", CM), ("wall-clock limit in switchController", CM)], [("do_switch", "a switch is pending", CMH)], ["request return", "controller and hardware callbacks after the return"])
p("C07", "Loading is all-or-nothing and names stay unique",
  "A load request succeeds exactly when the name is valid and not yet loaded, its configured type exists and can be instantiated, and the controller's initialisation returns success; it then appears at the end of the loaded list, initialised, not running, owning exactly the claims its initialisation reported. Loaders are consulted in registration order and the first one declaring the type at that time provides the instance, which is constructed once and initialised once with the manager's hardware, the root namespace and the controller's own namespace. A load that fails for any reason, including exceptions out of construction or initialisation, is reported as failure, leaves every loaded controller and the list untouched, and its instance never receives a callback.",
  ["histories", "fault_sequences"], "all histories of load requests over good, missing, unknown, failing and throwing controllers, with any number of loaders and between any control cycles", WHYCM,
  [CM, "controller_manager/include/controller_manager/controller_loader.h", "controller_manager/include/controller_manager/controller_loader_interface.h"], [("build the spare list, then publish it", CM)], [("controllers_lists_", "double-buffered controller list", CMH)], ["load response", "list response", "instance construction and initialisation"])
p("C08", "Unloading removes one stopped controller and frees it exactly once",
  "An unload request succeeds exactly when the named controller is loaded and not running; it removes exactly that controller and keeps all others loaded, in order, with the same instance and state. Its instance is destroyed exactly once, never while the control loop may still call it and no later than the return of the successful request; no instance of a loaded controller is ever destroyed. After the manager itself is destroyed every instance it ever created has been destroyed exactly once.",
  ["histories", "schedules"], "all histories of load, unload, switch, reload and control cycles", WHYCM,
  [CM], [("publish the reduced list, wait for the control loop to move off the old one, clear it", CM)], [("used_by_realtime_", "list index held by the control loop", CMH)], ["instance destruction", "list response", "callbacks after destruction (sanitizer)"])
p("C09", "Listings report exactly what is loaded, in which state, with which claims",
  "After any history, the controller listing contains exactly the loaded controllers in load order, each once, with its name, its type, the claims reported by its initialisation (per hardware interface, unaltered), and its true state: initialized, running, stopped, waiting or aborted. The type listing contains exactly the types every registered loader declares at that time (which a reload of its libraries may change), paired with that loader's name, and lookup by name returns the instance listed under that name and nothing for other names.",
  ["histories"], "all manager histories and claim sets", WHYCM,
  [CM, "controller_manager_msgs/msg/ControllerState.msg", "controller_manager_msgs/srv/ListControllers.srv", "controller_manager_msgs/srv/ListControllerTypes.srv"], [("listControllersSrv / listControllerTypesSrv", CM)], [], ["list responses", "getControllerByName"])
p("C10", "Library reload never happens under loaded controllers",
  "A reload request without force is refused, without any effect, while any controller is loaded. With force, every running controller is stopped in the control cycle, every controller is unloaded and destroyed, and only then is every registered loader reloaded exactly once, unless the hardware refuses the stop, which fails the request with no effect; the answer is positive exactly when the loaders were reloaded.",
  ["histories"], "all manager states at the time of the request, with any number of loaders", WHYCM,
  [CM], [("reloadControllerLibrariesSrv", CM)], [], ["reload response", "loader reload calls", "instance destruction"])
p("C11", "A reset cycle restarts every running controller before updating it",
  "In a control cycle with the reset flag every controller running at its beginning is stopped once and started once, in that order, before its update in the same cycle, and it is running afterwards. Controllers that are not running see nothing of the reset, and a cycle without the flag never restarts anything on its own.",
  ["histories", "schedules"], "all manager states, reset flags on any subset of cycles, also while a switch is pending", WHYCM,
  [CM, CMH], [("reset branch of update", CM)], [], ["controller callbacks"])
p("C12", "Control loop and services can run concurrently without corruption",
  "With one thread running control cycles continuously and any number of threads issuing load, unload, switch, list and reload requests, there is no data race, use of freed memory, or deadlock in the manager. Concurrent requests behave as if executed one after another: each accepted switch is performed exactly once, and the final listing equals the outcome of some order of the requests. All this also holds when ROS is shut down while requests are pending: they end, even if the control loop has ended, and report success only for what was carried out.",
  ["schedules"], "all thread interleavings of the control loop with concurrent requests", WHYCM + " A race needs a specific interleaving that a functional test never provokes.",
  [CM, CMH, CB], [("services and controllers locks", CM), ("double-buffered list and handshake flags", CMH)], [("current_controllers_list_/used_by_realtime_", "list hand-over", CMH)], ["race and address sanitizers over the real threads", "request responses"])
p("C13", "Real-time paths neither allocate nor block",
  "A control cycle of the controller manager (updating, switching, waiting, aborting and resetting included), the enforcement of joint limits, the propagation of transmissions, reading or commanding through handles, and committing, polling, reading and writing on a combined robot never allocate or free memory, take a blocking lock, sleep, or make other blocking system calls of their own. This holds whatever switch or service request is pending and whatever values are processed.",
  ["histories", "inputs"], "all control cycles of all manager histories; all enforce/propagate/handle/combined-robot operations", "A functional test cannot see an allocation or a lock; it must be observed from outside the code.",
  [CM, CMH, JL + "joint_limits_interface.h", TI + "transmission_interface.h", RH, "combined_robot_hw/src/combined_robot_hw.cpp"], [("lists are prepared by the service thread; the loop only walks them", CM)], [], ["malloc/free/mutex/sleep interposition during real-time calls"])

WHYHI = "Needs ROS headers, so none of its tests runs in the baseline; the tests that exist check a handful of fixed names and values."
p("H01", "Named-resource registries behave as maps from name to latest handle",
  "Looking up a registered name returns a handle carrying exactly the data of the latest handle registered under that name, and the listing contains exactly the registered names, each once. Looking up any other name fails with the interface's documented exception type and changes nothing. Registering or looking up one name never affects another.",
  ["histories", "inputs"], "all sequences of registrations, replacements and lookups over arbitrary names, for every hardware, limits and transmission interface type", WHYHI,
  [HI + "internal/resource_manager.h", HI + "internal/hardware_resource_manager.h", JL + "joint_limits_interface.h", TI + "transmission_interface.h"], [("resource map", HI + "internal/resource_manager.h")], [], ["getHandle/getNames results", "exception types"])
p("H02", "Handles validate their data pointers and are live views of them",
  "Constructing a joint, actuator, command or mode handle with a required data pointer missing always fails with the hardware-interface exception, and optional sensor data that was not supplied is reported as absent and fails on access. A successfully constructed handle, and every copy of it, always reads the current value of exactly the variable it was built on, and a command write changes exactly its own command variable, bit for bit, and nothing else.",
  ["inputs", "histories"], "all handle types and constructors, all combinations of present and missing pointers, all double values including NaN and infinities, all orders of writes", WHYHI,
  [HI + f for f in ("joint_state_interface.h", "joint_command_interface.h", "actuator_state_interface.h", "actuator_command_interface.h", "posvel_command_interface.h", "posvelacc_command_interface.h", "position_velocity_torque_gains_command_interface.h", "joint_mode_interface.h", "imu_sensor_interface.h", "force_torque_sensor_interface.h")],
  [("constructor checks and raw pointers", HI + "joint_state_interface.h")], [], ["exceptions", "values read", "memory outside the commanded variable"])
p("H03", "Command interfaces claim exactly the handles taken; others claim nothing",
  "After any sequence of operations, the claims of a joint command interface are exactly the set of names whose handles were successfully obtained from it since the claims were last cleared. Failed lookups, listings and registrations claim nothing, and state, sensor, mode and actuator interfaces never claim anything.",
  ["histories"], "all sequences of lookups, failed lookups, registrations and clears on every interface type", WHYHI,
  [HI + "hardware_interface.h", HI + "internal/hardware_resource_manager.h"] + [HI + f for f in ("joint_command_interface.h", "actuator_command_interface.h", "joint_mode_interface.h")], [("claim policy", HI + "internal/hardware_resource_manager.h")], [("claims_", "claimed names", HI + "hardware_interface.h")], ["getClaims"])
p("H04", "Hardware-interface lookup finds, replaces and combines by type",
  "Looking up an interface type returns the one registered instance of that type among a robot and its nested robots, nothing if there is none, and, if several nested robots provide it, one combined interface whose handles are exactly the union of theirs when it was formed, operating on the same data; several instances of a type that cannot be combined yield nothing. Registering the same type again replaces the earlier instance in all later lookups, and repeated lookups without registrations in between return the same interface. The list of interface names has every registered type exactly once, the resource names of a type are those its instances have, and combined interfaces are released with their owner.",
  ["histories", "configurations"], "all trees of nested robots, interface types, registration, replacement and lookup orders", WHYHI,
  [HI + "internal/interface_manager.h", HI + "internal/demangle_symbol.h"], [("typed map plus combination cache", HI + "internal/interface_manager.h")], [("interfaces_combo_", "cached combined interfaces", HI + "internal/interface_manager.h")], ["get<T>() results", "getNames", "getInterfaceResources", "leak sanitizer"])
p("H05", "Conflict detection is exact and order-independent",
  "The default resource check reports a conflict for a set of controllers exactly when some resource name occurs more than once among all their claims taken together, whatever hardware interface each claim belongs to. The answer does not depend on the order of controllers, interfaces or resources, does not modify its input, and is the same when asked again.",
  ["inputs"], "all lists of controllers with arbitrary claim sets (empty, shared, repeated, similar names)", WHYHI,
  [RH, HI + "controller_info.h", HI + "interface_resources.h"], [("resource multimap", RH)], [], ["checkForConflict result"])
p("H06", "A robot without hooks of its own works end to end",
  "A robot that registers its interfaces and overrides none of the initialisation, switching, reading and writing hooks initialises, accepts to prepare every switch, and reports every switch as done at once, as a whole and for each controller; its default hooks change no variable and no interface. Hence, on such a robot (alone, with nested robots, or as part of a combined robot), every valid switch request without resource conflicts succeeds within a single control cycle, without any controller waiting or being aborted. In every cycle running controllers read the current state of the robot's joints, and exactly what they command arrives in the robot's command variables; nothing else in them changes.",
  ["histories", "configurations"], "all robots, sets of typed controllers and sequences of switches and cycles", WHYHI,
  [RH, "controller_interface/include/controller_interface/controller.h", "controller_interface/include/controller_interface/multi_interface_controller.h", CM], [("joint variables of the robot", RH)], [], ["robot variables around each cycle", "controller callbacks", "switch results"])
p("K01", "Typed controllers get exactly their interfaces and report exactly their claims",
  "Initialising a single- or multi-interface controller succeeds only if the hardware provides every interface it requires (optional ones excepted) and its own initialisation hooks succeed, and only for a freshly constructed controller; otherwise it fails, stays unstartable (start, stop, wait and abort are refused) and reports no claims. During initialisation the controller sees only the interfaces it asked for. On success it reports, for each of its interfaces and nothing else, exactly the handles it took during its initialisation, untouched by claims left over from before, and leaves no claims behind on the hardware.",
  ["histories", "configurations"], "all combinations of provided, missing, required and optional interfaces, all subsets of handles taken, hook outcomes and pre-existing claims", WHYHI,
  ["controller_interface/include/controller_interface/controller.h", "controller_interface/include/controller_interface/multi_interface_controller.h", "controller_interface/include/controller_interface/internal/robothw_interfaces.h", CB], [("initRequest", "controller_interface/include/controller_interface/multi_interface_controller.h")], [], ["initRequest result and claims", "interfaces visible to init", "state queries"])

WHYT = "The baseline tests check a few hand-picked ratios and a short random sweep of a round trip; they do not cover extreme ratios and offsets, exact agreement with the documented formulas, aliasing between quantities, or partial data."
p("T01", "Transmissions compute the documented maps and their exact inverses",
  "For every valid transmission (simple, differential, four-bar linkage) and all finite inputs, actuator-to-joint and joint-to-actuator maps for effort, velocity and position, and the absolute-position and torque-sensor maps where offered, equal the documented formulas for its reductions and offsets up to rounding. Joint-to-actuator maps undo actuator-to-joint maps and vice versa, and for simple and differential transmissions mechanical power is the same on both sides. Results depend only on the parameters and the current inputs, never on earlier calls.",
  ["inputs", "configurations"], "all non-zero reductions of either sign and any magnitude, all offsets, all finite inputs", WHYT,
  [TI + "simple_transmission.h", TI + "differential_transmission.h", TI + "four_bar_linkage_transmission.h", TI + "transmission.h"], [("map functions", TI + "differential_transmission.h")], [], ["mapped values"])
p("T02", "A transmission map touches only its own quantity",
  "Each map reads only its input quantity and writes only its own output quantity: inputs, other quantities, and neighbouring memory stay bit-identical, and all outputs are written. It works with the data of every other quantity absent, in either space, as documented. Using a transmission never modifies the transmission itself.",
  ["inputs", "configurations"], "all maps of all transmissions, all subsets of supplied quantities, all values", WHYT,
  [TI + "simple_transmission.h", TI + "differential_transmission.h", TI + "four_bar_linkage_transmission.h"], [("per-quantity map functions", TI + "transmission.h")], [], ["guarded raw data", "address/undefined-behaviour sanitizers"])
p("T03", "Invalid transmission parameters are always refused",
  "A transmission can be constructed exactly when every actuator reduction, and where documented every joint reduction, is non-zero, and, for two-degree-of-freedom transmissions, reductions and offsets have the documented number of entries; otherwise construction fails with the transmission exception. A constructed transmission reports the number of actuators and joints of its kind and returns exactly the parameters it was given.",
  ["inputs", "configurations"], "all parameter vectors of any length with zeros (also negative zero) in any place", WHYT,
  [TI + "simple_transmission.h", TI + "differential_transmission.h", TI + "four_bar_linkage_transmission.h", TI + "transmission_interface_exception.h"], [("constructor checks", TI + "differential_transmission.h")], [], ["construction outcome", "getters"])
p("T04", "Transmission handles validate their data and propagate every registered map",
  "A transmission handle can be created exactly when it names a transmission, has some position, velocity or effort data, and every supplied data vector of any quantity has the transmission's size and no null pointer; otherwise creation fails with the transmission-interface exception. Propagating an interface applies to every registered handle exactly its own map (state handles: all three quantities, plus absolute position and torque sensor when supplied and supported), so that afterwards each output equals the transmission's own map of the current inputs and nothing else changed.",
  ["inputs", "configurations"], "all handle types, transmissions, subsets and sizes of data vectors, null placements, and numbers of registered handles", "These tests need ROS headers and do not run in the baseline; they check one transmission per case.",
  [TI + "transmission_interface.h"], [("handle constructor checks and propagate", TI + "transmission_interface.h")], [], ["construction outcome", "propagated values", "sanitizers"])
p("T05", "The transmission parser is total and faithful",
  "Parsing any text terminates without crashing or invalid memory access and never yields a transmission lacking a name, a type, joints or actuators, each joint with at least one hardware interface. Every well-formed transmission description comes out once, in document order, with exactly its name, type, joints (name, role, hardware interfaces in order) and actuators (name and hardware interfaces in order), along with its XML content, and a malformed one is skipped without affecting the others. The parser reports failure exactly when the text is not XML or has no root element.",
  ["inputs"], "all strings, and all documents built from well-formed and malformed transmission elements", "Tests use two fixed files and do not run in the baseline.",
  [TS + "transmission_parser.cpp", TI + "transmission_parser.h", TI + "transmission_info.h"], [("XML walk", TS + "transmission_parser.cpp")], [], ["parse result", "address sanitizer"])
p("T06", "Transmission loaders build exactly what the description says",
  "For every description, the loader of a given transmission type yields a transmission whose reductions and offsets are exactly the described ones, matched to actuators and joints by their declared roles regardless of order, with the documented defaults for omitted optional values. Descriptions with a wrong number of actuators or joints, missing, unknown or duplicate roles, missing or non-numeric required values, non-numeric optional values, or values the transmission refuses yield no transmission, without crashing.",
  ["inputs", "configurations"], "all descriptions, well formed and mutated, for the three loaders", "Tests use fixed files and do not run in the baseline.",
  [TS + "simple_transmission_loader.cpp", TS + "differential_transmission_loader.cpp", TS + "four_bar_linkage_transmission_loader.cpp", TS + "transmission_loader.cpp", TI + "transmission_loader.h"], [("load() and the element parsers", TS + "transmission_loader.cpp")], [], ["loaded parameters or null"])
p("T07", "Loaded transmissions connect each joint to its own actuators end to end",
  "After transmissions with distinct names, joints and actuators are loaded into a robot, propagating them makes every joint state read through the robot's joint interfaces equal the described transmission's map of its own actuators' states, and makes every joint command reach its own actuators' command variables through the inverse map, separately for position, velocity and effort as declared, with joints and actuators matched by their declared roles; no other joint or actuator variable changes. Interfaces that are unsupported or whose actuators are not available are left out; loading fails, without crashing or throwing, when none is left, when the transmission type is unsupported, when the description is not loadable or contains no transmission, or when joints of one transmission declare different interface sets, and transmissions loaded before keep working. The robot then offers exactly the connected joints, each through exactly the interfaces that were connected; a refused transmission adds none. Joints the robot already provides itself keep their own variables.",
  ["configurations", "inputs"], "all sets of transmission descriptions over simple, differential and four-bar kinds, interface subsets including the bidirectional ones, and robots with or without pre-registered joints", "The loader tests use four fixed files and do not run in the baseline.",
  [TS + "transmission_interface_loader.cpp", TI + "transmission_interface_loader.h", TS + "joint_state_interface_provider.cpp", TS + "position_joint_interface_provider.cpp", TS + "velocity_joint_interface_provider.cpp", TS + "effort_joint_interface_provider.cpp", "transmission_interface/ros_control_plugins.xml"], [("requisite providers", TS + "joint_state_interface_provider.cpp")], [("raw_joint_data_map", "joint-side raw variables", TI + "transmission_interface_loader.h")], ["joint handle values", "actuator command variables", "load result"])

WHYJ = "The existing tests check a few fixed commands and do not run in the baseline; effort soft limits are noted as untested in the code itself."
p("J01", "Position saturation keeps commands inside position and velocity limits",
  "For every sequence of commands and cycle periods starting inside the limits, each enforced position command lies within the position limits if given and moves from the previous enforced command (initially, or after a reset, from the measured position) by at most maximum velocity times period if a velocity limit is given. A command that already satisfies both passes unchanged, bit for bit; any other non-NaN command becomes the nearest value that satisfies both.",
  ["histories", "inputs"], "all limit specifications, command sequences, periods and reset points", WHYJ,
  [JL + "joint_limits_interface.h"], [("PositionJointSaturationHandle::enforceLimits", JL + "joint_limits_interface.h")], [("prev_cmd_", "last enforced command", JL + "joint_limits_interface.h")], ["command variable after enforcement"])
p("J02", "Soft position limits never let a command past hard limits",
  "For every sequence of commands, periods and soft-limit parameters, starting inside the hard limits, each enforced position command lies within the hard position limits and changes per cycle by at most maximum velocity times period, and it is the value nearest to the request that also respects the documented soft velocity bound (position gain times distance to each soft limit) wherever the hard limits allow. Enforcement starts from the measured position, initially and after a reset. Creating such a limit without a velocity limit is refused with the joint-limits exception.",
  ["histories", "inputs"], "all limits, soft limits inside, crossing or beyond the hard ones, gains, commands, periods and reset points", WHYJ,
  [JL + "joint_limits_interface.h"], [("PositionJointSoftLimitsHandle::enforceLimits", JL + "joint_limits_interface.h")], [], ["command variable after enforcement", "exceptions"])
p("J03", "Effort commands respect effort limits and never push further out of bounds",
  "Every enforced effort command is within plus/minus the maximum effort; with plain saturation it never pushes further outward when the joint is beyond a position limit or faster than the velocity limit, and with soft limits it equals the request clamped to the documented soft bounds (velocity gain times distance to the position-dependent velocity bounds). A request satisfying the bounds passes unchanged. Creating such a limit without velocity and effort limits is refused with the joint-limits exception.",
  ["inputs"], "all limits, gains, measured states (also outside the limits) and commands", WHYJ,
  [JL + "joint_limits_interface.h"], [("EffortJoint*Handle::enforceLimits", JL + "joint_limits_interface.h")], [], ["command variable after enforcement", "exceptions"])
p("J04", "Velocity commands respect velocity, acceleration and soft position bounds",
  "Every enforced velocity command is within plus/minus the maximum velocity if one is given, whatever the measured state; with saturation it also differs from the previous enforced command (initially zero) by at most maximum acceleration times period if given. With soft limits it also respects the documented position-dependent velocity bounds, and an acceleration limit relative to the measured velocity as far as the other bounds allow. A request satisfying all bounds passes unchanged, any other becomes the nearest value that does, and saturation without a velocity limit is refused with the joint-limits exception.",
  ["histories", "inputs"], "all limits, soft limits, measured states including velocities beyond the limit, commands and periods", WHYJ,
  [JL + "joint_limits_interface.h"], [("VelocityJoint*Handle::enforceLimits", JL + "joint_limits_interface.h")], [], ["command variable after enforcement", "exceptions"])
p("J05", "Limit interfaces enforce every registered joint, each cycle, on its own state",
  "Enforcing an interface applies to every registered joint exactly once its own limits with the given period, keeping each joint's history separate, so the outcome equals enforcing each joint alone and no other command changes. Resetting a position interface makes every registered joint restart from its measured position.",
  ["histories", "configurations"], "all sets of joints and limits in one interface, interleaved enforcement, replacement and reset", WHYJ,
  [JL + "joint_limits_interface.h"], [("JointLimitsInterface::enforceLimits", JL + "joint_limits_interface.h")], [], ["command variables"])
p("J06", "Limits are read faithfully from parameters",
  "Reading limits from the parameter server overwrites exactly the limits that are switched on with their values present, switches off exactly those explicitly switched off, and leaves every other field as it was (the wrap-around flag is read exactly when position limits are explicitly switched off); it reports whether the joint has any specification. Soft limits are overwritten as a whole only by a complete, well-typed, enabled specification, otherwise they stay entirely unchanged and failure is reported. Invalid joint names are reported as failure without an exception.",
  ["inputs", "configurations"], "all subsets of parameters, present, absent or of the wrong type, and all prior contents", WHYJ,
  [JL + "joint_limits_rosparam.h", JL + "joint_limits.h"], [("getJointLimits/getSoftJointLimits", JL + "joint_limits_rosparam.h")], [], ["returned structures"])
p("J07", "Limits are read faithfully from the robot description",
  "Reading limits from a URDF joint copies its velocity and effort limits, copies position limits exactly for revolute and prismatic joints, marks continuous joints as wrapping around, clears the acceleration-limit flag, and leaves all other fields as they were; without a limit specification it reports failure and changes nothing. Soft limits are copied exactly from the joint's safety specification, or reported missing with nothing changed.",
  ["inputs", "configurations"], "all joint types, with and without limits and safety data, all values and prior contents", WHYJ,
  [JL + "joint_limits_urdf.h", JL + "joint_limits.h"], [("getJointLimits/getSoftJointLimits", JL + "joint_limits_urdf.h")], [], ["returned structures"])

WHYR = "Tests need a live ROS system with plugins and use one fixed set of four robots; none runs in the baseline."
p("R01", "A combined robot hands each part exactly its share of a switch",
  "For every switch, a combined robot asks each part in order to prepare, with the request's controllers reduced to the claims on interfaces and resources that part owns: controllers keep name, type and order, claims keep their interface and order, and a claiming controller with nothing left for a part is not shown to it, while a controller without claims is shown to all. Preparation fails if and only if some part refuses. Committing the switch hands every part exactly once the same reduced lists.",
  ["inputs", "configurations"], "all partitions of interfaces and resources over the parts, and all start and stop lists", WHYR,
  [CR, "combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h"], [("filterControllerList", CR)], [], ["lists received by the parts"])
p("R02", "A combined robot comes up with all its parts and drives them in order",
  "Initialising a combined robot loads and initialises exactly the listed parts in list order, each with the root namespace and its own one, and succeeds only if the list is present and every part's type exists and initialises without failing or throwing; it never lets such an exception escape. Afterwards its interfaces are the combination of its parts' interfaces. Each read and each write reaches every part exactly once, in that order, with the given time and period.",
  ["configurations", "fault_sequences", "histories"], "all part lists, parts failing or throwing at any position, all read/write sequences", WHYR,
  [CR], [("loadRobotHW", CR)], [("robot_hw_list_", "the parts", CR)], ["parts' init/read/write calls", "init result", "combined interfaces"])
p("R03", "A combined robot reports a switch done only when all its parts are done",
  "While any part reports its hardware switch as ongoing the combined robot never reports it as done, and an error of any part is reported as an error; it reports done exactly when all parts do. The same holds for the report on a single controller with respect to the parts that own its claims. A part is asked about a controller in the form in which it was given to it for the switch: limited to the claims on that part. Hence no controller is started on a combined robot before its hardware is ready.",
  ["fault_sequences", "configurations"], "all assignments of switch states to the parts, for all controllers", WHYR + " Hardware that takes time to switch is not exercised with the combined robot at all.",
  [CR, RH], [("switchResult delegation", CR)], [], ["switchResult values", "controller starts"])

WHYP = "The script tests need a live ROS system and do not run in the baseline (its Python check is a syntax parse only); they sample a few fixed situations."
p("P01", "Controller filters select exactly the matching controllers",
  "Filtering a controller list by name, type, state or hardware interface returns exactly the matching controllers, in order, by equality or, on request, by substring. Filtering by resources returns exactly the controllers of which some claim set (of the given hardware interface, if any) contains all, or, on request, at least one, of the given resources, each at most once. Filters never modify their input or raise on any well-formed list, and work on empty lists, claims and queries.",
  ["inputs"], "all controller lists and queries", WHYP,
  ["controller_manager_msgs/src/controller_manager_msgs/utils.py"], [("filter_by_*", "controller_manager_msgs/src/controller_manager_msgs/utils.py")], [], ["returned lists"])
p("P02", "Discovery finds exactly the active managers and configured controllers",
  "The list of controller managers contains, sorted and once each, exactly the namespaces that currently expose the complete manager service interface with the right types, and repeated lookups keep up with managers appearing and vanishing; a service that cannot be contacted hides no other manager, and an unreachable master yields an empty list. The list of configured controllers of a namespace is exactly the sorted names of its direct children that have a type parameter. The controller lister recovers from one failed call by reconnecting and otherwise returns an empty list, never raising.",
  ["histories", "configurations"], "all sets of services and parameters over namespaces (root, nested, similar names), all sequences of appearance and disappearance, failing calls", WHYP,
  ["controller_manager_msgs/src/controller_manager_msgs/utils.py"], [("get_controller_managers / get_rosparam_controller_names / ControllerLister", "controller_manager_msgs/src/controller_manager_msgs/utils.py")], [], ["returned lists"])
p("P03", "The spawner brings up what it can and takes down all it brought up",
  "The spawner loads the listed controllers (given directly or through configuration files) in order in the requested manager namespace, starts exactly those that loaded, together and strictly, unless told to leave them stopped, and loads nothing before its wait-for topic said true or without a complete manager interface. On shutdown, between whichever of its requests, it stops those of its controllers that are running and unloads all of them in reverse order, so that none stays loaded or running even if others were started, stopped or failed meanwhile, and it touches no controller it did not load. It gives up by itself, without loading anything, when the manager has not appeared within the given timeout, otherwise stays until it is shut down, and always ends when it is. No combination of its documented options makes it fail.",
  ["histories", "fault_sequences", "configurations"], "all option combinations, controller lists, load outcomes, service failures and changes made by others before shutdown", WHYP,
  ["controller_manager/scripts/spawner"], [("main/shutdown", "controller_manager/scripts/spawner")], [], ["service calls observed by a model manager"])
p("P04", "The unspawner and group tools leave exactly the requested controllers running",
  "The unspawner keeps stopping those of its named controllers that are found running, touches no others, and on exit restarts exactly the controllers it stopped. Switching to a controller group loads the missing ones and, in a single strict request, starts exactly the group's controllers that are not running and stops exactly the running controllers that belong only to other groups; if a load fails or the group is undefined or empty, nothing is started or stopped. Spawning a group loads and starts exactly its controllers.",
  ["histories", "configurations"], "all group definitions, manager states, load outcomes and polling histories", WHYP,
  ["controller_manager/scripts/unspawner", "controller_manager/scripts/controller_group"], [("stop/restart callbacks; set arithmetic on groups", "controller_manager/scripts/controller_group")], [], ["service calls observed by a model manager"])
p("P05", "The command-line client issues exactly the requested operations",
  "Each client operation (load, unload, start, stop, spawn, kill, list, list types, reload) issues exactly the corresponding service requests, for every given controller in order, with strict switching, and reports success or failure to its caller exactly as the manager answered. Spawn loads all before starting, kill stops all before unloading. Reload with restore reloads the libraries by force, then loads every controller that was loaded before and restarts exactly those that were running.",
  ["inputs", "histories"], "all commands, controller lists, manager states and answers", WHYP,
  ["controller_manager/src/controller_manager/controller_manager_interface.py", "controller_manager/scripts/controller_manager"], [("service wrappers", "controller_manager/src/controller_manager/controller_manager_interface.py")], [], ["service calls observed by a model manager", "return values"])
p("P06", "The graphical manager shows the true controllers and issues the chosen action",
  "The graphical front end lists every loaded controller with its reported state plus every configured but not loaded controller as uninitialized, each once, and can display every state a manager may report. Each menu action sends exactly the corresponding requests, strictly, for the selected controller to the selected manager, resolving the manager's and its controllers' namespaces correctly, also at the root. The details window shows the type and claims of the controller clicked on. Refreshing the list of managers keeps the current selection whenever it is still available, a saved selection is restored, and no user action fails.",
  ["inputs", "histories"], "all manager lists, controller lists and states, parameter sets and user actions", "No test covers the graphical front end.",
  ["rqt_controller_manager/src/rqt_controller_manager/controller_manager.py", "rqt_controller_manager/src/rqt_controller_manager/update_combo.py"], [("_list_controllers, _on_ctrl_menu, ControllerTable, update_combo", "rqt_controller_manager/src/rqt_controller_manager/controller_manager.py")], [], ["service calls and table model, with stand-in widgets"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for q in P: assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
open(out, "w").write("".join(json.dumps(q) + "\n" for q in P))
print(len(P), "properties")
