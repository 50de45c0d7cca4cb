"""Source of properties.jsonl and of the check list in MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CM = 'controller_manager/src/controller_manager.cpp'; CMH = 'controller_manager/include/controller_manager/controller_manager.h'
CI = 'controller_interface/include/controller_interface/'; HI = 'hardware_interface/include/hardware_interface/'
TI = 'transmission_interface/include/transmission_interface/'; TS = 'transmission_interface/src/'; JL = 'joint_limits_interface/include/joint_limits_interface/'
CB = 'combined_robot_hw/src/combined_robot_hw.cpp'; CMS = 'controller_manager/scripts/'; CMI = 'controller_manager_msgs/src/controller_manager_msgs/utils.py'
PY = 'controller_manager/src/controller_manager/'
P = []
def prop(id, title, statement, over, quant, why, mech, level_note, technique='stateful property-based testing against a reference model'):
    files = []
    for n, w in mech:
        f = w.split(':')[0]
        if f not in files: files.append(f)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None), _note=level_note, _tech=technique))

NOROS = 'the gtest suites of this package need ROS and cover a fixed script'

# ---- controller manager
prop('C01', 'Running controllers never share an exclusively claimed resource',
     'At every control cycle, under the default resource policy, no resource is claimed by two controllers that run at the same time, counting every claim each controller made on any hardware interface. A switch request whose outcome would make two running controllers claim one resource is refused and changes nothing.',
     ['histories', 'schedules', 'inputs'], 'every history of load, unload, switch and update calls over any set of controllers and claims', 'The rostests load four fixed controllers and try two conflicting pairs; they cannot range over sets of claims or histories.',
     [('conflict check of the post-switch controller set', CM + ':switchController'), ('default conflict policy', HI + 'robot_hw.h:checkForConflict')],
     'Random histories with a checker that looks at the controllers updated in each cycle; trusts the ROS stand-in headers of /verif/shim.')
prop('C02', 'Switch requests are accepted or refused as their strictness says',
     'A strict switch request is refused when it names an unknown controller, stops one that is not running, or starts one that is already running; a best-effort request leaves out exactly the parts that do not apply, and strictness 0 means best effort. Any request is refused that both stops and starts a running controller, that leads to a resource conflict, or that the hardware refuses to prepare. A refused request changes no controller and sends no switch to the hardware; an accepted one with ready hardware ends with exactly the requested controllers started and stopped, each once, and every other controller left alone.',
     ['histories', 'inputs'], 'every set of loaded controllers in any state, and any start and stop lists, with duplicates and unknown names', 'The rostests exercise a handful of lists on a fixed robot.',
     [('request validation', CM + ':switchController'), ('execution', CM + ':startControllers, stopControllers')], 'Compared with a reference model of the switch request after every call.')
prop('C03', 'A switch runs once, in the control loop, with stops before starts',
     'The hardware is told about an accepted switch exactly once to prepare it, outside the control loop, and exactly once to perform it, in the control cycle, before any controller is stopped or started; both calls get exactly the controllers that really stop and start, with their claims. In that cycle every stop comes before every start, all of them with the time of the cycle, and the request returns only after the switch is finished; a request that gives up waiting for a stalled or slow loop fails, and its switch never happens, then or later.',
     ['histories', 'schedules'], 'every accepted switch under every interleaving of the service thread with the control loop', 'No test observes the order of calls on the hardware and controllers.',
     [('switch execution', CM + ':manageSwitch, stopControllers, startControllers'), ('request side', CM + ':switchController')], 'Order of all callbacks is recorded and compared with the model; schedules at the granularity of the yield points listed in DESIGN.md.')
prop('C04', 'Controllers wait for hardware that is not ready, and abort on error or timeout',
     'While the hardware reports that a switch is in progress the controllers to start are waiting and are not updated; when it reports completion they start, and when it reports an error or the requested timeout passes they are aborted. With start-as-soon-as-possible each controller follows the answer for its own resources, and the request finishes when all of them are started or aborted.',
     ['histories', 'fault_sequences', 'schedules'], 'every sequence of hardware answers, timeouts and start modes', 'Existing tests use a hardware that answers done, or one fixed delay.',
     [('all-together start', CM + ':startControllers'), ('as soon as possible start', CM + ':startControllersAsap')], 'Generated hardware answer sequences; model of the waiting set checked every cycle.')
prop('C05', 'Each cycle updates every running controller once, and no other',
     'In each control cycle every controller that runs at its beginning is updated exactly once with the time and period of the cycle, in a cycle with a reset after being stopped and started again once. Controllers that are not running get no update, start or stop calls unless a switch asks for it.',
     ['histories', 'schedules'], 'every history and every cycle, with or without reset', NOROS, [('update loop', CM + ':update'), ('state guard', CI + 'controller_base.h:updateRequest')], 'Callback log of each cycle compared with the model.')
prop('C06', 'Loading a controller is all or nothing and keeps names unique',
     'A load request succeeds only if its name is new, its type parameter names an available class, and the controller constructs and initialises without failure or exception; it then appears once, not running, with its type and claims. A load that fails for any reason reports failure and leaves the set of loaded controllers, their states and their order as they were.',
     ['histories', 'fault_sequences', 'inputs'], 'every set of parameters, loader and initialisation failures, in any order', 'Tests try a few bad names and types, no construction or initialisation faults in combination with other operations.',
     [('load', CM + ':loadController'), ('class lookup', 'controller_manager/include/controller_manager/controller_loader.h:createInstance')], 'Faults injected in class lookup, construction and initialisation; listing compared with the model after every call.')
prop('C07', 'Unloading removes only stopped controllers, and for good',
     'An unload request is refused for unknown and for running controllers and then changes nothing. After a successful unload the controller is destroyed, is never called again, its name may be loaded again, and all other controllers keep their order and state.',
     ['histories', 'schedules'], 'every history of loads, switches and unloads', NOROS, [('unload', CM + ':unloadController')], 'Each controller object is tracked; a call after destruction or a leak past unload is an error.')
prop('C08', 'The control loop never touches a controller list being modified',
     'However load, unload, switch and list requests interleave with the control loop, the loop never waits for a request, never updates a destroyed controller, and in every cycle sees one consistent set of controllers. A request that replaces the set returns only after the loop has moved to the new one.',
     ['schedules', 'histories'], 'every interleaving of the control loop with a requesting thread at the synchronisation points of the code', 'Tests run one schedule chosen by the operating system.',
     [('double buffer of controller lists', CM + ':loadController, unloadController, update'), ('buffer indices', CMH + ':current_controllers_list_, used_by_realtime_')],
     'Schedules are chosen by the generator at sleeps, locks, callbacks, clock reads and log calls; races inside one statement are out of reach.', 'property-based testing with a controlled scheduler')
prop('C09', 'Concurrent requests behave as if made one after another',
     'When several threads make requests at the same time, through services or directly, every reply and the final state agree with some order of executing the requests one at a time, and every request gets a reply as long as the control loop runs.',
     ['schedules', 'histories'], 'every interleaving of two or three request threads with the control loop', 'No test issues concurrent requests.',
     [('service lock', CM + ':services_lock_'), ('controller lock', CM + ':controllers_lock_')], 'Linearisability of replies and final state against the sequential model, over generated schedules.', 'property-based testing with a controlled scheduler')
prop('C10', 'Listing services report the true set of controllers, states, claims and types',
     'Listing the controllers reports exactly the loaded ones in load order, each with its type, its true state and exactly the claims it made, interface by interface, and looking a controller up by name finds exactly those. Listing the types reports exactly the classes that can be loaded, with their base class.',
     ['histories', 'inputs'], 'every reachable state of the manager', NOROS, [('listing', CM + ':listControllersSrv'), ('types', CM + ':listControllerTypesSrv')], 'Reply compared field by field with the model.')
prop('C11', 'Reloading libraries is refused or leaves no old controller behind',
     'A library reload without force is refused while any controller is loaded and then changes nothing. Otherwise unless the hardware refuses the stop, every controller is stopped and destroyed before any loader is reloaded, every registered loader is reloaded once, and the types it offers afterwards can be loaded.',
     ['histories', 'fault_sequences'], 'every set of loaded and running controllers and loaders', NOROS, [('reload', CM + ':reloadControllerLibrariesSrv'), ('loader', 'controller_manager/include/controller_manager/controller_loader.h:reload')], 'Order of destruction and reload events compared with the model.')
# ---- controller interface
prop('C12', 'Controllers follow one lifecycle and callbacks run only in the right state',
     'For any sequence of initialise, start, stop, update, wait and abort requests a controller takes only the documented transitions, each transition runs its callback exactly once with the given time, updates run only while it runs, and a request that does not apply reports failure and changes nothing.',
     ['histories'], 'every sequence of requests in any state', 'The unit test of this class drives two fixed sequences.', [('state machine', CI + 'controller_base.h:startRequest, stopRequest, updateRequest, waitRequest, abortRequest')], 'Reference state machine, random request sequences.')
prop('C13', 'Initialisation reports exactly the claims made and the interfaces asked for',
     'A controller gets exactly the hardware interfaces it asked for, is refused when a required one is missing, and may lack optional ones. A successful initialisation reports, per interface, exactly the resources the controller claimed during it and leaves no claim behind for the next controller; a failed one leaves the controller uninitialised and reports nothing usable.',
     ['inputs', 'fault_sequences', 'configurations'], 'every set of provided, required and optional interfaces, claims and initialisation outcomes', 'Tests use one robot and fixed controllers.',
     [('single interface', CI + 'controller.h:initRequest'), ('several interfaces', CI + 'multi_interface_controller.h:initRequest'), ('claims', HI + 'internal/hardware_resource_manager.h')], 'Generated robots and controllers for one to four interfaces, required or optional.')
# ---- hardware interface
prop('C14', 'The default conflict check reports exactly the doubly claimed resources',
     'For every set of controllers with any claims, the default check reports a conflict exactly when some resource name is claimed more than once in total, on whatever interfaces, and the answer does not depend on the order of controllers or claims.',
     ['inputs'], 'every list of controller claims', 'The unit test checks nine fixed lists.', [('conflict check', HI + 'robot_hw.h:checkForConflict')], 'Differential against a direct count.', 'property-based testing against a reference model, with metamorphic reordering')
prop('C15', 'Named handles are registered, replaced, returned and claimed as documented',
     'After any sequence of registrations the names of an interface are exactly those registered, a lookup returns the last handle registered under the name and throws for an unknown one, and interfaces of the claiming kind record exactly the names looked up since the last clearing while read-only ones record nothing.',
     ['histories'], 'every sequence of register, lookup, combine and clear operations', 'Unit tests register two handles.', [('registry', HI + 'internal/resource_manager.h'), ('claims', HI + 'internal/hardware_resource_manager.h'), ('claims', HI + 'hardware_interface.h')], 'Model of the registry, random operation sequences over several interface types.')
prop('C16', 'A robot looks up interfaces by type across everything registered with it',
     'Asking a robot for an interface type returns the interface registered for it, a combination with all handles when several nested managers provide it, and nothing when none does; registered names and per-interface resources list exactly what is there, whatever the order of registrations and nesting.',
     ['histories', 'configurations'], 'every tree of interface managers and registration order', 'Unit tests use two fixed managers.', [('lookup and combination', HI + 'internal/interface_manager.h:get'), ('registration', HI + 'internal/interface_manager.h:registerInterface, registerInterfaceManager')], 'Model over generated registration sequences and manager trees.')
prop('C17', 'Handles read and write exactly the storage they were made with',
     'A handle reads and writes exactly the memory it was created with, for its own quantity only and also after being copied; creation with a missing pointer and use of an absent optional quantity are refused with an exception.',
     ['inputs', 'histories'], 'every handle type, every combination of present, missing and optional pointers', 'Unit tests check a few constructors with one null each.', [('handles', HI + 'joint_state_interface.h'), ('handles', HI + 'joint_command_interface.h'), ('handles', HI + 'actuator_state_interface.h'), ('handles', HI + 'posvel_command_interface.h'), ('handles', HI + 'posvelacc_command_interface.h'), ('handles', HI + 'imu_sensor_interface.h'), ('handles', HI + 'force_torque_sensor_interface.h'), ('handles', HI + 'joint_mode_interface.h')], 'All handle types, random pointer presence and access sequences against a memory model.')
# ---- combined robot hardware
prop('C18', 'A combined robot drives every component robot, in order, every cycle',
     'Initialisation creates, initialises and combines exactly the components listed in the configuration and fails if any of them cannot be loaded, configured or initialised. Afterwards every read and write reaches every component exactly once, in configured order, with the given time and period.',
     ['configurations', 'fault_sequences', 'histories'], 'every list of components, failing anywhere', 'The rostest uses one working configuration.', [('init', CB + ':init, loadRobotHW'), ('cycle', CB + ':read, write')], 'Generated configurations and faults with recording components.')
prop('C19', 'A combined robot splits switches by component and needs all of them to agree',
     'Each component gets, in prepare and perform calls, every switching controller that claims resources of it, with exactly its own interfaces and resources in the claims, together with the controllers that claim nothing; controllers foreign to it are not shown to it. Preparing succeeds exactly when every component accepts; a conflict in any component is a conflict of the robot; the reported switch result is an error when a component reports one, and done only once every component is.',
     ['inputs', 'histories'], 'every set of components, resources and controllers', 'One fixed pair of components is tested.', [('filtering', CB + ':filterControllerList'), ('switching', CB + ':prepareSwitch, doSwitch, checkForConflict')], 'Generated components and claims; reference filter.')
# ---- transmissions
prop('C20', 'Transmission maps invert each other',
     'For every valid transmission, mapping position, velocity or effort from actuators to joints and back, or from joints to actuators and back, returns the original values up to rounding.',
     ['inputs', 'configurations'], 'every transmission type, ratios of either sign, offsets and values', 'Unit tests check some twenty fixed value sets per transmission.', [('simple', TI + 'simple_transmission.h'), ('differential', TI + 'differential_transmission.h'), ('four-bar linkage', TI + 'four_bar_linkage_transmission.h')], 'Millions of random transmissions, error bounded by the conditioning of the map.', 'property-based testing (round trip)')
prop('C21', 'Transmission maps compute the documented relations and write nothing else',
     'Every transmission map, including those for absolute encoders and torque sensors, computes the documented relation between actuator and joint values, needs only the data of its own quantity, and changes nothing but its outputs.',
     ['inputs', 'configurations'], 'every transmission, quantity, direction and value', 'Unit tests do not touch absolute encoders and torque sensors, and check few values.', [('simple', TI + 'simple_transmission.h'), ('differential', TI + 'differential_transmission.h'), ('four-bar linkage', TI + 'four_bar_linkage_transmission.h')], 'Differential against the documented formulas in extended precision; guard values around all data.', 'property-based testing (differential against documented formulas)')
prop('C22', 'Transmissions conserve power',
     'For every transmission the sum over actuators of effort times velocity equals the sum over joints, in both directions.',
     ['inputs', 'configurations'], 'every transmission and values', 'No test looks at power.', [('simple', TI + 'simple_transmission.h'), ('differential', TI + 'differential_transmission.h'), ('four-bar linkage', TI + 'four_bar_linkage_transmission.h')], 'Random search; the four-bar linkage is a known finding, for it the check falls back to the deviation its documented maps have.', 'property-based testing (invariant)')
prop('C23', 'Transmissions accept exactly the valid parameters',
     'A transmission is created exactly when all parameter lists have the right length and no ratio is zero, otherwise an exception is thrown; a created one reports the parameters it was given.',
     ['inputs'], 'every combination of list lengths and zero values', 'Unit tests try a few of the combinations.', [('simple', TI + 'simple_transmission.h'), ('differential', TI + 'differential_transmission.h'), ('four-bar linkage', TI + 'four_bar_linkage_transmission.h')], 'Random parameters against the stated precondition.', 'property-based testing')
prop('C24', 'Transmission interfaces propagate exactly the registered, consistent data',
     'A transmission handle is created exactly when its transmission exists, some data are given, and every given vector has the size of its side and no missing entry. Propagating through a handle or an interface applies exactly the maps of that kind to the data of each registered transmission, once, and touches nothing else.',
     ['inputs', 'configurations'], 'every mix of transmissions and data vectors, for all eight interface kinds', 'Unit tests cover a few invalid sizes and a fixed set of transmissions.', [('validation and propagation', TI + 'transmission_interface.h')], 'Random data shapes and mixed sets of transmissions; compared with direct application.', 'property-based testing (differential)')
prop('C25', 'Transmission descriptions are parsed faithfully, malformed ones refused safely',
     'From a well-formed robot description exactly the transmissions in it are returned in order, with their types, joints, actuators, interfaces and embedded elements. A transmission without name, type, joints or actuators, or with a part that lacks its name, is left out without affecting the others; joints without a hardware interface and parts with an empty name are left out of their transmission; only direct children of the root element count. A description without root element is refused, and no input, however broken, crashes the parser.',
     ['inputs'], 'every document: generated valid, mutated and arbitrary bytes', 'Unit tests use a dozen fixed documents.', [('parser', TS + 'transmission_parser.cpp')], 'Structured generation with a model, mutation, and coverage-guided fuzzing in the thorough tier.', 'structured generation, mutation and coverage-guided fuzzing')
prop('C26', 'Transmission loaders build what the description says, or refuse it',
     'A transmission description with the right numbers of joints and actuators and valid ratios, offsets and roles yields a transmission with exactly those parameters, whatever the order of the parts; any missing, unparsable or out of range piece, a role that is unknown or given twice, or a wrong number of parts, yields no transmission and no exception.',
     ['inputs'], 'every description of the three types', 'Unit tests use fixed files.', [('simple', TS + 'simple_transmission_loader.cpp'), ('differential', TS + 'differential_transmission_loader.cpp'), ('four-bar linkage', TS + 'four_bar_linkage_transmission_loader.cpp'), ('parsing helpers', TI + 'transmission_loader.h')], 'Generated descriptions with injected faults; the loaded transmission is probed through its maps.', 'structured property-based testing')
prop('C27', 'Loading transmissions wires actuators to joints end to end',
     'After a successful load every joint of the description is available on exactly the joint interfaces it asks for, states propagate from the actuators and commands to the actuators through the described transmission, each part in its role whatever the order in the description, and existing joint interfaces of the robot are reused. A transmission none of whose joint interfaces can be served, or whose type, joints or actuators do not fit, makes loading fail without changing what was loaded before; a transmission loaded under the name of an earlier one replaces it.',
     ['configurations', 'fault_sequences'], 'every robot, actuator interfaces and set of transmissions', 'Unit tests use fixed files with one robot.', [('interface loader', TS + 'transmission_interface_loader.cpp'), ('providers', TS + 'joint_state_interface_provider.cpp'), ('providers', TS + 'bidirectional_effort_joint_interface_provider.cpp'), ('providers', TS + 'effort_joint_interface_provider.cpp')], 'Generated robots and descriptions; values pushed through both directions.', 'structured property-based testing (end to end)')
# ---- joint limits
prop('C28', 'Position commands never leave the position limits nor outrun the velocity limit',
     'Starting from within the limits, after enforcement a position command lies within the position limits and differs from the previous one by no more than the velocity limit allows in the period; with soft limits the allowed velocity shrinks near them as documented. A command that respects the limits passes unchanged. Cycles in which nothing is commanded (NaN) lift no limit.',
     ['histories', 'inputs'], 'every sequence of commands, measured positions, periods and resets, for every limit specification', 'Unit tests check a few commands for one specification.', [('saturation', JL + 'joint_limits_interface.h:PositionJointSaturationHandle'), ('soft limits', JL + 'joint_limits_interface.h:PositionJointSoftLimitsHandle')], 'Histories against safety bounds and a reference model.')
prop('C29', 'Velocity commands never exceed velocity and acceleration limits',
     'After enforcement a velocity command stays within the velocity limit and, when acceleration limits are given, within the change they allow in the period; with soft limits it also stays within the position-dependent bound. A command that respects the limits passes unchanged. Cycles in which nothing is commanded (NaN) lift no limit.',
     ['histories', 'inputs'], 'every sequence of commands, states and periods, for every limit specification', 'Unit tests check a few commands.', [('saturation', JL + 'joint_limits_interface.h:VelocityJointSaturationHandle'), ('soft limits', JL + 'joint_limits_interface.h:VelocityJointSoftLimitsHandle')], 'Histories against safety bounds and a reference model.')
prop('C30', 'Effort commands never push beyond the limits',
     'After enforcement an effort command is within the effort limit and never pushes a joint further outside its position limits or beyond its velocity limit; with soft limits it also stays within the documented velocity and position dependent bounds. A command that respects the limits passes unchanged.',
     ['inputs', 'histories'], 'every command, measured state and limit specification', 'Unit tests check a few commands.', [('saturation', JL + 'joint_limits_interface.h:EffortJointSaturationHandle'), ('soft limits', JL + 'joint_limits_interface.h:EffortJointSoftLimitsHandle')], 'Random states and commands against safety bounds and a reference model.')
prop('C31', 'Limit interfaces enforce and reset every joint, and refuse incomplete limits',
     'Enforcing limits through an interface applies them to every registered joint, once, and changes no other command; a reset makes the next enforcement independent of earlier commands. A handle is refused when its specification lacks the limits its kind needs, and looking up an unknown joint throws.',
     ['configurations', 'histories'], 'every set of joints, limit specifications and histories', 'Unit tests use two joints.', [('interfaces', JL + 'joint_limits_interface.h:JointLimitsInterface'), ('constructors', JL + 'joint_limits_interface.h')], 'Interface enforcement compared with enforcing each handle alone.')
prop('C32', 'Joint limits from parameters override exactly what is configured',
     'Reading joint limits from parameters sets exactly the limits that are switched on and complete, switches off exactly those switched off, and leaves everything else as it was; soft limits are read all or nothing. Nothing is changed when the joint has no configuration.',
     ['configurations', 'inputs'], 'every combination of present, missing and ill-typed parameters', 'One fixed parameter file is tested.', [('parameters', JL + 'joint_limits_rosparam.h')], 'Random parameter trees against a reference model.', 'property-based testing against a reference model')
prop('C33', 'Joint limits from a robot description are transferred faithfully',
     'Limits and soft limits read from a joint description equal the described ones for each joint type, angle wraparound exactly for continuous joints; absent parts leave the output untouched and report failure.',
     ['inputs', 'configurations'], 'every joint description', 'One joint of each kind is tested.', [('description', JL + 'joint_limits_urdf.h')], 'Random joints against a reference model.', 'property-based testing against a reference model')
# ---- the whole
prop('C34', 'A complete robot does what its controllers command, every cycle',
     "On a robot whose components are loaded from transmission descriptions, combined into one, limited according to the parameters and run by a controller manager, every cycle holds together, whatever is loaded, switched or unloaded meanwhile: each running controller is updated once and sees the joint states that the actuators' readings of this very cycle amount to; each actuator is told exactly what the running controllers' latest commands amount to within the limits of their joints, and no other command of any actuator is touched; every component is told of every switch. A switch is accepted exactly when no joint would be claimed twice.",
     ['configurations', 'histories', 'schedules'], 'every robot description, set of controllers, history of requests and readings', 'The existing tests exercise each package alone, most of them with ROS only; none joins them.', [('transmissions', 'transmission_interface/src/transmission_interface_loader.cpp'), ('combination', 'combined_robot_hw/src/combined_robot_hw.cpp'), ('limits', JL + 'joint_limits_interface.h'), ('control loop', 'controller_manager/src/controller_manager.cpp:update')], 'Generated robots, controllers, requests and schedules; the oracle computes states and commands from the description with the documented formulas.', 'model-based property testing over generated robots, histories and schedules')
prop('C44', 'The control loop neither allocates nor frees memory',
     'Once a robot is set up, reading it, running a control cycle of the controller manager and writing to it never allocate or free heap memory, so that they can run in a realtime thread: neither the manager while it updates, starts, stops, aborts, awaits or restarts controllers, whatever requests are made meanwhile, nor the propagation of transmissions, the enforcement of joint limits, the access through handles and the reading and writing of a combined robot. Only a combined robot that performs a switch or is asked for the progress of a single controller may allocate, as it filters the claims for its components.',
     ['histories', 'schedules', 'configurations'], 'every robot, history of requests and interleaving', 'No test looks at the memory the loop uses; one cycle that allocates in a rare state is not visible in any result.', [('control loop', 'controller_manager/src/controller_manager.cpp:update, manageSwitch'), ('controllers', 'controller_interface/include/controller_interface/controller_base.h:updateRequest, startRequest, stopRequest, waitRequest, abortRequest'), ('transmissions', 'transmission_interface/include/transmission_interface/transmission_interface.h:propagate'), ('limits', JL + 'joint_limits_interface.h:enforceLimits'), ('combination', 'combined_robot_hw/src/combined_robot_hw.cpp:read, write')], 'Generated robots, controllers, requests and schedules; the allocations and releases of the thread that runs the loop are counted in every cycle.', 'property-based testing of an invariant over generated robots, histories and schedules')
prop('C45', 'Requests and the control loop share no data without synchronisation',
     'However requests of one or several threads and the control loop interleave, there is no data race between them in the sense of the C++ memory model, inside the controller manager and in what it calls: what prepareSwitch and the construction and initialisation of a controller have written is seen by the control cycle that performs the switch or runs the controller, what the control cycle has written while it switched is seen by the request that returns, and a controller is destroyed only after the last use of it in the control loop is known to be over.',
     ['schedules', 'histories'], 'every history of requests, interleaving and memory order the C++ memory model allows', 'Races do not show in results on the processors tests run on.', [('shared state', 'controller_manager/include/controller_manager/controller_manager.h:switch_params_, controllers_lists_, current_controllers_list_, used_by_realtime_'), ('control loop', 'controller_manager/src/controller_manager.cpp:update, manageSwitch'), ('requests', 'controller_manager/src/controller_manager.cpp:switchController, loadController, unloadController')], 'Generated histories and schedules of requests and control loop, on simple and combined robots, under ThreadSanitizer, with a scheduler whose hand-over ThreadSanitizer does not see.', 'property-based testing over generated histories and schedules with a happens-before race detector as oracle')
# ---- python tools
prop('C35', 'Controller manager discovery finds exactly the running managers',
     'Searching for controller managers returns exactly the namespaces, below the one asked for, in which a complete set of manager services of the right types exists, each once and whatever other services exist or have died; a caller-provided guess only saves the check of its own members.',
     ['configurations'], 'every set of services on the master', 'There is no test.', [('discovery', CMI + ':get_controller_managers, is_controller_manager')], 'Generated service graphs against a reference model.', 'property-based testing with Hypothesis against a reference model')
prop('C36', 'Controller filters select exactly the matching controllers',
     'Filtering a list of controllers by type, state, claimed interface or resource returns exactly the controllers that match, in order, exact or by substring, under both the any and the all reading, without changing the list; the controller lister returns what the manager reports and nothing when there is none, and recovers when the manager comes back.',
     ['inputs'], 'every list of controllers and filter', 'There is no test.', [('filters', CMI + ':filter_by_name, filter_by_type, filter_by_state, filter_by_hardware_interface, filter_by_resources')], 'Generated lists against comprehension oracles.', 'property-based testing with Hypothesis against a reference model')
prop('C37', 'Controllers on the parameter server are found by their type parameter',
     'Listing the configured controllers of a namespace returns, sorted, exactly the names directly under it that have a type parameter.',
     ['configurations'], 'every parameter tree', 'There is no test.', [('parameters', CMI + ':get_rosparam_controller_names')], 'Generated parameter trees.', 'property-based testing with Hypothesis against a reference model')
prop('C38', 'The command line tool sends the requested operation and reports its outcome',
     'Each command of the command line tool sends exactly the corresponding requests for the named controllers to the selected manager, and what it prints and returns reports success exactly when the manager did. Unknown commands do nothing but explain the usage. Reloading with restore brings back every controller that can still be loaded, and runs those that ran.',
     ['inputs', 'fault_sequences'], 'every command line and manager answers', 'There is no test.', [('operations', PY + 'controller_manager_interface.py'), ('command line', CMS + 'controller_manager')], 'Fake manager with recorded requests and injected failures.', 'property-based testing with Hypothesis and fault injection')
prop('C39', 'The spawner starts what it was asked to and brings down what it loaded',
     'The spawner waits for the manager (no longer than it was told to) and for its go-ahead topic, loads exactly the listed controllers in order, puts the parameters of controller files in place first, starts those it loaded unless told not to, and when it ends, whenever that is, stops and unloads exactly the controllers it loaded, whatever failed or was changed in between.',
     ['inputs', 'fault_sequences', 'histories'], 'every argument list and every sequence of manager answers', 'One happy path rostest.', [('spawner', CMS + 'spawner')], 'Fake manager with recorded requests and injected failures.', 'property-based testing with Hypothesis and fault injection')
prop('C40', 'The unspawner stops the listed controllers and restarts them at exit',
     'As long as it runs, the unspawner stops exactly those of the listed controllers that are running, and, when it ends, starts exactly the ones it stopped again.',
     ['inputs', 'fault_sequences'], 'every argument list and manager answers', 'There is no test.', [('unspawner', CMS + 'unspawner')], 'Fake manager with recorded requests.', 'property-based testing with Hypothesis and fault injection')
prop('C41', 'Controller group switching moves exactly the difference between groups',
     'Switching to a controller group loads the missing controllers of the group, then in one strict request starts exactly those of the group that are not running and stops exactly the running ones of other groups that are not in it; nothing is switched when a load fails. Spawning a group loads and starts each of its controllers and no other. Failures are reported and unknown groups change nothing.',
     ['configurations', 'fault_sequences'], 'every group configuration and manager state', 'There is no test.', [('groups', CMS + 'controller_group')], 'Fake manager with generated groups.', 'property-based testing with Hypothesis against a reference model')
RQT = 'rqt_controller_manager/src/rqt_controller_manager/'
prop('C42', 'The manager selection survives updates of the list of managers',
     'Updating a selection box with new values shows exactly those; a selected value that is still among them stays selected without any signal, one that is not is unselected with a signal, and nothing is ever selected by itself.',
     ['histories'], 'every sequence of updates and selections', 'There is no test.', [('selection box', RQT + 'update_combo.py:update_combo')], 'Random histories on a stand-in for QComboBox that keeps its documented selection and signal behaviour.', 'stateful property-based testing with Hypothesis')
prop('C43', 'The graphical tool shows every controller and does exactly what is chosen',
     'Whatever managers come and go and whatever states their controllers are in, the table shows the controllers of the selected manager in order, followed by the configured ones that are not loaded; the operation chosen from the menu sends exactly its requests for that controller to that manager, and nothing else sends any.',
     ['histories', 'configurations'], 'every history of selections, menu choices and changes in the managers', 'There is no test.', [('plugin', RQT + 'controller_manager.py:ControllerManager, ControllerTable')], 'Random histories on stand-ins for Qt with fake managers that record requests.', 'stateful property-based testing with Hypothesis')

def main():
    from harnesses import HARNESSES, PYTHON
    done = set(PYTHON) | {p for h in HARNESSES.values() for p in h['properties']}
    cur = [p for p in P if p['id'] in done]
    missing = done - {p['id'] for p in P}; assert not missing, missing
    with open(V + '/properties.jsonl', 'w') as f:
        for p in cur:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    m = dict(version=1, setup_cmd='python3 setup.py', checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
             technique=p['_tech'], level='exploration', level_note=p['_note']) for p in cur], not_applicable=[])
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
    for p in cur:
        for f in p['anchors']['files']:
            for g in f.split(', '):
                if not os.path.exists('/repo/' + g): print('missing anchor', p['id'], g)

if __name__ == '__main__': main()
