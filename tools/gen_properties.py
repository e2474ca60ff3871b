#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

CM = "controller_manager/src/controller_manager.cpp"
CMH = "controller_manager/include/controller_manager/controller_manager.h"
CB = "controller_interface/include/controller_interface/controller_base.h"
CTRL = "controller_interface/include/controller_interface/controller.h"
MIC = "controller_interface/include/controller_interface/multi_interface_controller.h"
RIF = "controller_interface/include/controller_interface/internal/robothw_interfaces.h"
HI = "hardware_interface/include/hardware_interface/"
RM, HRM, IM, RHW = HI + "internal/resource_manager.h", HI + "internal/hardware_resource_manager.h", HI + "internal/interface_manager.h", HI + "robot_hw.h"
CRH = "combined_robot_hw/src/combined_robot_hw.cpp"
JL = "joint_limits_interface/include/joint_limits_interface/"
TI = "transmission_interface/include/transmission_interface/"
TS = "transmission_interface/src/"

# ---------------------------------------------------------------- controller manager
prop("C01", "Running controllers never share a claimed resource",
     "At every moment, no two running controllers managed by the controller manager claim the same hardware resource. "
     "A switch request whose outcome would make two running controllers claim a common resource is refused and leaves every controller in the state it was in.",
     ["histories", "inputs", "configurations"],
     "every sequence of loads, switches (any start/stop name lists, either strictness, either start mode), unloads and update cycles, every claim pattern of the controllers",
     "Tests switch a handful of fixed controllers with fixed claims; exclusivity must hold for every claim pattern, request list and history.",
     [CM, RHW], [("resource bookkeeping of switchController", CM), ("RobotHW::checkForConflict", RHW)],
     [("start_request_/stop_request_", "controllers to be started/stopped by the pending switch", CMH)],
     ["ControllerBase::isRunning of the loaded controllers", "return value of switchController"])
prop("C02", "A strict switch is carried out completely or not at all",
     "Under strict switching, a request that names an unknown controller, stops a controller that is not running, or starts one that is already running without also stopping it, is refused; a refused request changes no controller's state and calls neither the controllers nor the hardware's switch. "
     "An accepted strict request ends with every listed stop controller stopped and (unless the hardware switch itself fails or times out) every listed start controller running, and with no other controller touched.",
     ["inputs", "histories", "configurations"],
     "every start/stop list (unknown names, duplicates, empty lists included) against every combination of controller states",
     "The rostests try a few lists from a few states; the rule has to hold for every list from every state.",
     [CM], [("validation loops of switchController", CM), ("stopControllers/startControllers in the update cycle", CM)], None,
     ["switchController return value", "controller states", "calls received by the controllers and by the hardware"])
prop("C03", "A best-effort switch does what is possible and disturbs nothing else",
     "Under best-effort switching (also the default when no strictness is given), names that are not loaded, stop entries that are not running and start entries that are already running are skipped without affecting the rest of the request. "
     "When the switch is reported successful every other listed controller has been stopped or started exactly once as requested, and a controller that was skipped or not listed receives no start, stop, wait or abort call at all.",
     ["inputs", "histories", "configurations"],
     "every start/stop list against every combination of controller states, all hardware switch results",
     "Tests only check that success is reported for one list with an unknown name.",
     [CM], [("best-effort branches of switchController", CM)], None,
     ["calls received by the controllers", "controller states", "hardware start/stop lists"])
prop("C04", "Controllers start only once the hardware switch is done, else wait or abort",
     "When the start mode waits for all resources, no requested controller is started in an update cycle unless the hardware reports its switch done; while it is ongoing they are kept waiting, and if it fails or the given (positive) timeout has elapsed since the request they are aborted and not started. "
     "In as-soon-as-possible mode the same rule applies to each requested controller separately, according to the hardware's result for that controller. "
     "The request completes only when every controller to be started has been started or aborted.",
     ["inputs", "fault_sequences", "schedules"],
     "every sequence of hardware switch results and update times, every timeout, both start modes",
     "The existing tests use hardware that is immediately done or a fixed delay.",
     [CM, RHW], [("manageSwitch, startControllers, startControllersAsap", CM)], None,
     ["calls received by the controllers per update cycle", "state after the switch returns"])
prop("C05", "The update cycle drives exactly the running controllers",
     "In every update cycle each running controller is updated exactly once with the time and period passed in, in the order of loading, and no controller that is not running is updated. "
     "When a reset is requested, each running controller is first stopped and started again exactly once, before it is updated, and controllers that are not running are left alone.",
     ["histories", "inputs", "configurations"],
     "every number of controllers within the bound, every combination of controller states, with and without reset and pending switches",
     "No test observes which controllers receive which calls; only end states are compared.",
     [CM, CB], [("ControllerManager::update", CM), ("updateRequest", CB)], None, ["calls received by the controllers"])
prop("C06", "Loading and unloading keep the set of controllers consistent",
     "A load succeeds only if no controller of that name is loaded, its type parameter exists, a loader offers that type and the controller initializes without failing or throwing; otherwise the set of loaded controllers, their order, states and claims are unchanged. "
     "After a successful load exactly that controller is added, initialized and not running; an unload succeeds exactly for a loaded controller that is not running, removes exactly that one, and destroys it.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of loads/unloads/switches with arbitrary names, missing parameters, unknown types, failing or throwing initialization and throwing loaders",
     "Tests exercise a few fixed failing loads; consistency must hold after any failure at any point of any history.",
     [CM], [("loadController/unloadController copy-on-write lists", CM)],
     [("controllers_lists_", "double-buffered list of loaded controllers", CMH)],
     ["list_controllers service", "getControllerByName", "lifetime of the controller objects"])
prop("C07", "The hardware is told exactly which controllers are switched",
     "For every accepted request the hardware is asked once to prepare, with exactly the controllers that will newly start and exactly those that will stop (disjoint, with their claims), and then told once, in the first following update cycle and before any controller is stopped or started, to perform the switch with those same lists. "
     "If the hardware refuses to prepare or fails with an exception, the request fails, no switch is performed, no controller changes state and later requests are not affected; a request that gave up waiting for the update thread is not carried out afterwards.",
     ["inputs", "histories", "fault_sequences"],
     "every request and controller state combination, every hardware answer",
     "Tests use one hardware mock with a fixed list of known claims and cannot see ordering across all requests.",
     [CM, RHW], [("switch_start_list_/switch_stop_list_", CM), ("manageSwitch", CM)], None,
     ["arguments of prepareSwitch/doSwitch and their order relative to controller callbacks"])
prop("C08", "Loading, unloading and switching never corrupt a concurrent update cycle",
     "While service calls load, unload, list or switch controllers or reload their libraries, a concurrently running update cycle never reads a controller list that is being modified and never calls a controller that has been destroyed, whatever the interleaving of the two threads. "
     "A service call only finishes removing a controller after the update thread has stopped using the list that contains it, and concurrent calls do not disturb each other's switch; no library is reloaded while a controller from it exists. All this holds too when ROS shuts down in the middle of a call, which may then fail but reports no success for what it did not do.",
     ["schedules"],
     "every interleaving (sequentially consistent memory) of one update thread with one service thread within the context bound",
     "Unit tests run one arbitrary schedule; the race windows are a few instructions wide.",
     [CM, CMH], [("double-buffered lists and used_by_realtime_ handshake", CM)],
     [("current_controllers_list_/used_by_realtime_", "which buffer is current / in use by the update thread", CMH)],
     ["memory accesses of both threads", "lifetime of controllers"])
prop("C09", "Services report the true controllers, states, claims and types",
     "The controller listing returns exactly the loaded controllers in loading order, each with its real name, type, claimed resources per hardware interface and current state (initialized, running, stopped, waiting or aborted). "
     "The type listing returns exactly the types declared by every registered loader together with that loader's base class, and each load, unload and switch service answers with the result of the operation it performed.",
     ["histories", "configurations"],
     "every history of operations within the bound; every state of every controller; arbitrary claims",
     "Tests compare listings for a few fixed set-ups.",
     [CM], [("listControllersSrv, listControllerTypesSrv and the other service callbacks", CM)], None, ["service responses"])
prop("C10", "Libraries are reloaded only when no controller is left",
     "A library reload is refused, changing nothing, while any controller is loaded unless a forced kill is requested. "
     "With a forced kill every controller is stopped (if running) and unloaded before any loader is reloaded; if that fails no loader is reloaded and failure is reported, and success is reported only after every registered loader was reloaded exactly once.",
     ["histories", "configurations", "fault_sequences"],
     "every set of loaded controllers and states, both values of the kill flag, hardware refusing the switch",
     "Only the plain success/refusal case is tested.",
     [CM], [("reloadControllerLibrariesSrv", CM)], None, ["loader reload calls", "controller lifetimes", "service response"])
# ---------------------------------------------------------------- controller interface
prop("C11", "Controller life-cycle requests follow the state machine",
     "A controller that has not been initialized refuses start, stop, wait and abort requests without any callback or state change; in every other state each such request calls exactly the corresponding callback once with the given time, then moves to running, stopped, waiting or aborted respectively and reports success. "
     "Exactly one of the state predicates holds after initialization, and an update request invokes the update callback once, with the given arguments, exactly when the controller is running.",
     ["histories", "inputs"],
     "every sequence of requests within the bound from every reachable state",
     "Tests do not enumerate request sequences; they must hold from any state.",
     [CB], [("startRequest/stopRequest/waitRequest/abortRequest/updateRequest", CB)],
     [("state_", "life-cycle state", CB)], ["callbacks", "isRunning()/isStopped()/..."])
prop("C12", "Controller initialization reports exactly the resources it claimed",
     "Initializing a controller succeeds only from the freshly constructed state, only if the robot exposes every required hardware interface and both user initialization hooks succeed, and only then is the controller initialized. "
     "On success the reported claims are, for each requested interface that exists, exactly the resources the controller itself claimed during initialization, with nothing left over from other controllers and nothing left claimed in the robot's interfaces for the next one. "
     "A multi-interface controller sees only the interfaces it asked for, and may lack some of them only if it declared them optional.",
     ["inputs", "configurations", "histories"],
     "every subset of interfaces exposed by the robot, every set of claimed resources, failing initialization, initialization of several controllers one after the other",
     "Tests cover a few fixed interface/claim combinations.",
     [CTRL, MIC, RIF], [("Controller::initRequest", CTRL), ("MultiInterfaceController::initRequest", MIC)], None,
     ["claimed_resources output", "getClaims() of the robot's interfaces", "isInitialized()"])
# ---------------------------------------------------------------- hardware interface
prop("C13", "Resource registries return exactly what was last registered under a name",
     "A resource registry returns, for every name, the handle registered last under that name, lists every registered name exactly once in sorted order, and throws for a name that was never registered. "
     "Merging several registries yields a registry with exactly the union of their names.",
     ["inputs", "histories"],
     "every sequence of registrations and lookups with arbitrary names within the bound",
     "Tests register two fixed names.",
     [RM, HRM], [("ResourceManager::registerHandle/getHandle/getNames/concatManagers", RM)], None, ["getHandle, getNames"])
prop("C14", "Claims record exactly the exclusive resources that were acquired",
     "Getting a handle from an exclusive interface claims exactly that resource and getting one from a read-only interface claims nothing; a failed lookup throws the hardware-interface exception and claims nothing. "
     "Claims accumulate without duplicates until cleared, clearing leaves none; the joint command interfaces (effort, velocity, position and the combined position/velocity/acceleration/gains ones) are exclusive, the state, sensor, mode and actuator interfaces never claim.",
     ["inputs", "histories"],
     "every sequence of lookups, claims and clears with arbitrary names",
     "Tests claim two fixed names on one interface type.",
     [HRM, HI + "hardware_interface.h", HI + "joint_command_interface.h", HI + "actuator_command_interface.h"],
     [("HardwareResourceManager::getHandle with its claim policy", HRM)], None, ["getClaims()"])
prop("C15", "The robot exposes every registered interface, combined across parts",
     "Requesting an interface type returns the instance registered last for that type, nothing if no part has it, and, if several parts of a combined robot provide it, one combined interface that contains exactly the resources of all of them and stays the same object until an interface is added or replaced (nothing is returned for several instances of a type that cannot be combined). "
     "The listed interface names are exactly the registered types without duplicates, and the listed resources of a type are exactly those registered to it in all parts, whether before or after the interface itself was registered.",
     ["inputs", "configurations", "histories"],
     "every assignment of interfaces and resources to up to three nested parts and every order of registration and lookup within the bound",
     "Tests build two or three fixed combinations.",
     [IM], [("InterfaceManager::get/getNames/getInterfaceResources/registerInterface", IM)],
     [("interfaces_combo_/num_ifaces_registered_", "cache of combined interfaces", IM)], ["get<T>(), getNames(), getInterfaceResources()"])
prop("C16", "Handles reject missing storage and read and write only their own",
     "Every joint, actuator and mode handle constructor that is given a null data pointer throws the hardware-interface exception, and accepts all non-null pointers (sensor handles may lack data). "
     "A constructed handle reports its own name, each getter returns the current value of exactly the storage it was given for that quantity, each setter changes exactly the storage of that command and nothing else, and reading an optional sensor the handle lacks throws.",
     ["inputs", "configurations"],
     "every combination of null/non-null pointers and every bit pattern of the stored values, for the joint, actuator, position/velocity/acceleration, gains, mode, force-torque and IMU handles",
     "Tests use one value per field and check few null combinations.",
     [HI + f for f in ("joint_state_interface.h", "joint_command_interface.h", "actuator_state_interface.h", "actuator_command_interface.h", "posvel_command_interface.h", "posvelacc_command_interface.h", "position_velocity_torque_gains_command_interface.h", "joint_mode_interface.h", "force_torque_sensor_interface.h", "imu_sensor_interface.h")],
     [("handle constructors and accessors", HI)], None, ["thrown exceptions, getter results, raw storage"])
prop("C17", "Conflict detection is exact",
     "For any list of controllers with any claims, the robot's default conflict check answers true if and only if some resource name is claimed more than once in the list, i.e. by two controllers or through two interfaces of one controller. "
     "The check does not modify anything it is given.",
     ["inputs"],
     "every list of up to three controllers with up to two interfaces and arbitrary resource sets over arbitrary names",
     "Tests check a few fixed lists.",
     [RHW], [("RobotHW::checkForConflict", RHW)], None, ["return value"])
prop("C18", "A combined robot delegates to every part with the part's own share",
     "A combined robot's initialization succeeds only if every listed part has a known type and initializes without failing or throwing; reading and writing reach every part exactly once, in order, with the given time and period. "
     "Preparing or performing a switch reaches the parts in order, each with exactly those controllers that claim something the part provides (or claim nothing) and exactly those of their claimed resources that the part provides, and preparation fails as soon as one part refuses. "
     "The switch result it reports is the worst of the parts' results (error before ongoing before done); for one controller, of the parts that took part in its switch.",
     ["inputs", "configurations", "fault_sequences"],
     "every assignment of resources to two parts, every start/stop list of up to two controllers with arbitrary claims, every refusal or initialization failure",
     "Tests use a fixed set of four robots with fixed claims.",
     [CRH, "combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h"],
     [("filterControllerList, prepareSwitch, doSwitch, loadRobotHW", CRH)], None, ["calls received by the parts"])
# ---------------------------------------------------------------- joint limits
prop("C19", "Position commands stay inside position and velocity limits",
     "For a position-controlled joint whose previous command (or measured position at the first step) respects its position limits, every non-NaN command is replaced by the nearest one that is inside the position limits and differs from the previous command by at most the velocity limit times the period; with soft limits the step is additionally bounded by the soft-limit velocity as far as the position limits allow. "
     "A command that already satisfies these bounds is left unchanged, and a reset makes the next step start from the measured position.",
     ["inputs", "histories"],
     "every command, state, limit specification (each limit present or absent) and period, over consecutive enforcement steps, for all doubles",
     "Tests sample a few commands around the limits with exact periods.",
     [JL + "joint_limits_interface.h"], [("PositionJointSaturationHandle/PositionJointSoftLimitsHandle::enforceLimits, reset", JL + "joint_limits_interface.h")],
     [("prev_cmd_", "previous command", JL + "joint_limits_interface.h")], ["command read back from the joint handle"])
prop("C20", "Velocity commands stay inside velocity and acceleration limits",
     "For a velocity-controlled joint every non-NaN command is replaced by one whose magnitude does not exceed the velocity limit, whatever was commanded or measured before; it is the nearest one that also changes from the previous command (or measured velocity, with soft limits) by at most the acceleration limit times the period and, with soft limits, lies within the soft-limit velocity bounds, whenever those bounds are compatible. "
     "A command that already satisfies these bounds is left unchanged.",
     ["inputs", "histories"],
     "every command, measured state, limit specification and period, over consecutive enforcement steps, for all doubles",
     "Tests sample a few commands.",
     [JL + "joint_limits_interface.h"], [("VelocityJointSaturationHandle/VelocityJointSoftLimitsHandle::enforceLimits", JL + "joint_limits_interface.h")], None,
     ["command read back from the joint handle"])
prop("C21", "Effort commands stay inside effort limits and never push past a violated limit",
     "For an effort-controlled joint every non-NaN command is replaced by the nearest one whose magnitude does not exceed the effort limit, that is not negative beyond the negative velocity limit and not positive beyond the positive one; without soft limits it is also not negative below the minimum position and not positive above the maximum one, and with soft limits it lies within the soft-limit effort bounds. "
     "A command that already satisfies these bounds is left unchanged.",
     ["inputs"],
     "every command, position, velocity and limit specification, for all doubles",
     "Tests sample a few commands; the soft-limit effort handle is untested.",
     [JL + "joint_limits_interface.h"], [("EffortJointSaturationHandle/EffortJointSoftLimitsHandle::enforceLimits", JL + "joint_limits_interface.h")], None,
     ["command read back from the joint handle"])
prop("C22", "Limit handles demand the limits they need and interfaces enforce all joints",
     "Constructing a limit handle throws exactly when a limit its control mode requires is missing from the specification. "
     "Enforcing (or resetting) a limits interface enforces (or resets) every registered joint's handle exactly once with the given period and leaves joints that are not registered alone; looking up an unknown joint throws the joint-limits exception.",
     ["inputs", "configurations"],
     "every combination of present/absent limits for every handle type; every registered set of up to three joints",
     "Tests construct each handle with one missing limit.",
     [JL + "joint_limits_interface.h", RM], [("handle constructors", JL + "joint_limits_interface.h"), ("JointLimitsInterface::enforceLimits/reset/getHandle", JL + "joint_limits_interface.h")], None,
     ["exceptions", "commands of all joints"])
prop("C23", "Limits loaded from parameters or URDF override exactly what they specify",
     "Loading limits from the parameter server or a URDF joint sets exactly the limits that are completely specified there, clears those explicitly disabled (a URDF joint disables the position limits its type does not have, and may disable acceleration limits, which it cannot state), and leaves every other field of the given limits unchanged; soft limits are only accepted, and only then modified, when completely specified. "
     "The result is true exactly when a limits specification for that joint exists (for soft limits: a complete one).",
     ["inputs", "configurations"],
     "every subset of parameters present with arbitrary values and arbitrary previous limits; every joint type and presence of limit and safety elements",
     "Tests load a few fixed parameter sets.",
     [JL + "joint_limits_rosparam.h", JL + "joint_limits_urdf.h"], [("getJointLimits/getSoftJointLimits", JL + "joint_limits_rosparam.h")], None,
     ["returned limits and result"])
# ---------------------------------------------------------------- transmissions
prop("C24", "Transmission maps between actuator and joint space are mutually inverse",
     "For the simple, differential and four-bar-linkage transmissions with any non-zero reductions and any offsets, mapping effort, velocity or position from actuator to joint space and back (or the other way round) returns the original values, up to floating-point rounding. "
     "Each map writes only its own output values and never its inputs.",
     ["inputs"],
     "all real actuator/joint values, non-zero reductions and offsets",
     "Tests check a handful of numeric examples.",
     [TI + f for f in ("simple_transmission.h", "differential_transmission.h", "four_bar_linkage_transmission.h")],
     [("actuatorToJoint*/jointToActuator* maps", TI)], None, ["output data of the maps"])
prop("C25", "Transmissions conserve power, and position and velocity maps agree",
     "For every transmission the mechanical power (sum of effort times velocity) computed in actuator space equals that computed in joint space, for all values. "
     "The velocity map is the derivative of the position map (position differences map like velocities), and at the joint offset the actuators are at zero.",
     ["inputs"], "all real values, non-zero reductions and offsets",
     "Power conservation relates two maps for all values; tests only check single maps on examples.",
     [TI + f for f in ("simple_transmission.h", "differential_transmission.h", "four_bar_linkage_transmission.h")],
     [("effort, velocity and position maps", TI)], None, ["output data of the maps"])
prop("C26", "Absolute encoder and torque sensor maps follow position and effort maps",
     "For every transmission the joint absolute positions are computed from the actuator absolute positions exactly as joint positions are from actuator positions, and joint torque-sensor values from actuator torque-sensor values as joint efforts are from actuator efforts, using only those data. "
     "A differential transmission told to ignore itself for absolute encoders instead passes the encoder values through, first joint from second actuator and second joint from first.",
     ["inputs", "configurations"], "all values, non-zero reductions and offsets, data sets that omit the other quantities",
     "These maps are not covered by the existing tests.",
     [TI + f for f in ("simple_transmission.h", "differential_transmission.h", "four_bar_linkage_transmission.h")],
     [("actuatorToJointAbsolutePosition/actuatorToJointTorqueSensor", TI)], None, ["output data of the maps"])
prop("C27", "Invalid transmission parameters and data are rejected at construction",
     "Constructing a transmission throws exactly when a reduction is zero or a parameter list has the wrong length, and its accessors return the given parameters otherwise. "
     "Constructing a transmission handle throws exactly when the transmission is missing, all regular data are empty, a non-empty data list has the wrong length for the transmission, or a listed pointer is null.",
     ["inputs", "configurations"], "every double (including -0, denormals, NaN, infinities), list lengths 0..3, every null/length pattern in every data list",
     "Tests cover one bad list at a time for some lists only.",
     [TI + "transmission_interface.h", TI + "simple_transmission.h", TI + "differential_transmission.h", TI + "four_bar_linkage_transmission.h"],
     [("transmission constructors", TI), ("TransmissionHandle constructor", TI + "transmission_interface.h")], None, ["exceptions"])
prop("C28", "Propagation moves exactly the intended quantities of every transmission",
     "Propagating a transmission interface applies, for every registered transmission, exactly the maps of that handle type (position, velocity, effort or full state, in the handle's direction) to that transmission's own data, including absolute position and torque sensors when present. "
     "No other data is modified.",
     ["inputs", "configurations"], "all data values, one or two registered transmissions of any type, each handle type",
     "Tests propagate one fixed set of values.",
     [TI + "transmission_interface.h"], [("propagate() of the handle and interface types", TI + "transmission_interface.h")], None, ["raw data before and after"])
prop("C29", "Transmission loaders build exactly the described transmission or fail",
     "A transmission loader returns a transmission exactly when the description has the right number of joints and actuators, valid and distinct roles where roles are required, every required reduction, only numeric values and no zero reduction; otherwise it returns nothing and throws nothing. "
     "The transmission has exactly the reductions and offsets of the description, assigned by role regardless of element order, with reduction one and offset zero for omitted optional values.",
     ["inputs", "configurations"], "every presence/absence, order, role and number text of the elements within the bound",
     "Tests load about a dozen fixed URDFs.",
     [TS + f for f in ("simple_transmission_loader.cpp", "differential_transmission_loader.cpp", "four_bar_linkage_transmission_loader.cpp", "transmission_loader.cpp")],
     [("load, getActuatorConfig, getJointConfig and TransmissionLoader helpers", TS)], None, ["returned transmission and its parameters"])
prop("C30", "Loading a transmission wires joint handles to the propagated data",
     "After a transmission was loaded for a hardware interface, commands written through the robot's joint handle reach the right actuator's command and actuator state reaches the right joint's handle, each through that transmission when the robot's transmission interfaces are propagated, and joints that already existed are not replaced. "
     "A transmission whose actuators, type or interfaces are missing or whose joints name different interfaces is refused without adding any joint, and loading a list stops at the first failure.",
     ["inputs", "configurations", "histories"], "every presence/absence of actuators and interfaces, every supported joint interface, one or two transmissions, all values",
     "Tests check a few fixed robots.",
     [TS + "transmission_interface_loader.cpp", TI + "transmission_interface_loader.h"] + [TS + p + "_joint_interface_provider.cpp" for p in ("position", "velocity", "effort", "bidirectional_position", "bidirectional_velocity", "bidirectional_effort")] + [TS + "joint_state_interface_provider.cpp"],
     [("RequisiteProvider::loadTransmissionMaps and the providers", TS)], None, ["values seen through joint and actuator handles after propagation"])
prop("C31", "The transmission parser keeps exactly the well-formed transmissions",
     "Parsing a robot description fails exactly for malformed documents; otherwise it yields, in document order, exactly those transmissions that have a non-empty name, a non-empty type, at least one joint with a name and a hardware interface and at least one named actuator, with all of their joints, roles, interfaces and actuators. "
     "No document makes the parser crash.",
     ["inputs"], "every document tree up to the stated size (elements present, absent, repeated, empty, unnamed)",
     "Tests parse about ten fixed documents.",
     [TS + "transmission_parser.cpp"], [("TransmissionParser::parse/parseJoints/parseActuators", TS + "transmission_parser.cpp")], None, ["parsed transmission infos"])
# ---------------------------------------------------------------- python
MU = "controller_manager_msgs/src/controller_manager_msgs/utils.py"
prop("C32", "Controller list filters return exactly the matching controllers",
     "Filtering a controller list by name, type, state, hardware interface or resources returns exactly the controllers that match the criterion, in their original order and unmodified, with exact or substring matching as selected and with the 'any' or 'all' rule as selected for resources. "
     "No filter modifies its input.",
     ["inputs"], "every list of up to two controllers with up to two interfaces and two resources with arbitrary names, every criterion and match mode",
     "There are no unit tests for most of these functions.",
     [MU], [("filter_by_* functions", MU)], None, ["returned lists"])
prop("C33", "Controller manager discovery and clients act on exactly what they were asked",
     "Discovery returns exactly the namespaces whose advertised services form a complete controller manager API with the right types, and configured controller names exactly the parameter namespaces (below the given one) that carry a type. "
     "The command-line client functions call the matching service with the given controller name, succeed only if it answered ok, and the group switcher loads exactly the missing controllers of the requested group and then, in one strict request, stops exactly the running controllers of the other groups and starts exactly those of the group that are not running. "
     "Reloading the libraries with restore loads again exactly the controllers that were loaded and starts those that were running.",
     ["inputs", "configurations"], "every set of up to three advertised services/parameters over arbitrary names, every service answer, every assignment of controller states and groups",
     "There are no unit tests for these scripts.",
     [MU, "controller_manager/src/controller_manager/controller_manager_interface.py", "controller_manager/scripts/controller_group"],
     [("is_controller_manager, get_controller_managers, get_rosparam_controller_names", MU), ("client functions", "controller_manager/src/controller_manager/controller_manager_interface.py"), ("controller_group switch", "controller_manager/scripts/controller_group")], None,
     ["returned lists", "service calls made"])
prop("C34", "The controller manager panel always shows and commands the real controllers",
     "The graphical panel lists exactly the controllers that are loaded or configured, with their real state, for the selected one of the controller managers that exist, and follows their changes, keeping the selection while that manager is there. "
     "Each menu action issues exactly the corresponding load, unload, start or stop requests for the controller the menu was opened on, also after the controller manager was restarted.",
     ["inputs", "histories"], "every controller list and every user action",
     "There are no GUI tests.",
     ["rqt_controller_manager/src/rqt_controller_manager/controller_manager.py"], [("ControllerManager widget", "rqt_controller_manager/src/rqt_controller_manager/controller_manager.py")], None, ["table model", "service calls"])
prop("C35", "The spawner and the unspawner manage exactly the controllers they were given",
     "The spawner waits for the controller manager (and, if asked to, for a topic) as long as it was told to, then loads each given controller once and in order (those of a given configuration file after putting the file on the parameter server), and starts exactly those that were loaded with one strict request, unless it was told not to or is being shut down; without a controller manager it does nothing. "
     "At shutdown it stops exactly the controllers it loaded and then unloads them, last first. "
     "The unspawner keeps stopping exactly those of its controllers that are running, even after the controller manager could not be reached for a while, and at shutdown starts again exactly the controllers it stopped.",
     ["inputs", "histories", "fault_sequences"], "every combination of options, every answer of the controller manager, a shutdown at any point and every state of the controllers over two rounds",
     "There are no unit tests for these scripts.",
     ["controller_manager/scripts/spawner", "controller_manager/scripts/unspawner"], [("main and shutdown", "controller_manager/scripts/spawner"), ("main, timer callback and shutdown", "controller_manager/scripts/unspawner")], None, ["service calls made"])
prop("C36", "Real-time functions never wait, lock or use the heap",
     "An update cycle of the controller manager takes no lock, never sleeps and completes whatever service call is in progress and wherever that call is suspended; apart from what controllers and hardware do themselves it neither obtains nor gives back heap memory. "
     "The same holds for propagating a transmission interface and for enforcing or resetting a joint limits interface.",
     ["schedules", "inputs", "configurations"], "every controller state, pending request, hardware result and reset flag, every point at which a service call can be suspended, every interface type and all data values",
     "No test runs an update cycle beside a suspended service call, and none looks at locks or at the heap.",
     ["controller_manager/src/controller_manager.cpp", "transmission_interface/include/transmission_interface/transmission_interface.h", "joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h"],
     [("ControllerManager::update and what it calls", "controller_manager/src/controller_manager.cpp"), ("propagate of interfaces and handles", "transmission_interface/include/transmission_interface/transmission_interface.h"), ("enforceLimits and reset of interfaces and handles", "joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h")], None, ["locks taken, sleeps and allocations inside these functions", "completion of the update cycle"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
