#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,quant,why,files,mech,state=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=quant),why_tests_cant=why,
        anchors=dict(files=["src/dg_commons/"+f for f in files],
                     mechanism=[dict(name=n,where="src/dg_commons/"+w) for n,w in mech],
                     **({"state":[dict(name=n,meaning=m) for n,m in state]} if state else {}))))
I=["inputs"];H=["histories"];C=["configurations"];IC=["inputs","configurations"];IH=["inputs","histories"]

prop("P01","All agents of a tick act on one common snapshot",
"Whenever agents are asked for commands, every agent's sensor is given one and the same observation: the state and footprint of exactly the players still active, all read before any model is stepped in that tick, stamped with the current simulation time. The snapshot is rebuilt from scratch at every tick at which agents are queried, so no player sees the effect of another player's command of the same tick or a player that has already left.",
H,"every number, order and mix of players, every step and command period, every episode length",
"tests run a few short scenarios with fixed player order; an order-dependent read would only show up as slightly different numbers",
["sim/simulator.py"],[("Simulator.pre_update / update","sim/simulator.py"),("SimModel.get_state","sim/simulator_structures.py")],
[("last_observations","snapshot handed to all sensors"),("last_get_commands_ts","time of the last query")])

prop("P02","Agents are queried on schedule and commands are held in between",
"All active agents are queried together, at the first tick and then at every tick at which at least the command period has elapsed since the last query, and never in between. Between queries each model keeps receiving the last command its own agent returned; every active model is stepped exactly once per tick, by exactly the simulation step, with the command of its own agent.",
H,"every combination of step and command period, every player set",
"the tests use periods that divide evenly and look at end states only",
["sim/simulator.py"],[("Simulator.update","sim/simulator.py"),("Simulator._need_to_update_commands","sim/simulator.py")])

prop("P03","The simulation clock advances once per step by exactly the step size",
"Each simulation step observes, then steps the models, then post-processes, and the clock moves forward by exactly the configured step once per iteration, before goals, termination and collisions are evaluated at the new time. Finished players are removed first, then termination is decided, and collisions are checked only if the simulation goes on; nothing else in the package moves the clock or ends the simulation.",
H,"every episode","an extra or missing clock update, or a different order, shifts outcomes by one step, which sampled scenarios with tolerant assertions do not see",
["sim/simulator.py"],[("Simulator.run / post_update","sim/simulator.py")],[("SimContext.time","simulation clock"),("SimContext.sim_terminated","end flag")])

prop("P04","A simulation ends exactly when one of the documented conditions holds",
"After each step the simulation is marked terminated if and only if the time exceeds the maximum time, or exceeds the first collision time plus the configured grace time, or no active player is left, or there are missions and every player that has one has left. Otherwise the simulation goes on.",
IH,"every combination of times, grace period, active players and missions",
"tests exercise one or two ways of ending; a wrong boundary or a missing disjunct only matters for particular combinations",
["sim/simulator.py"],[("Simulator._maybe_terminate_simulation","sim/simulator.py")])

prop("P05","Players leave exactly when their own goal is fulfilled, after being logged",
"After each step an active player that has a mission is removed if and only if its own goal holds for its own current state at the current time; its state at that time is added to its log before it leaves. Players without a mission are never removed, and removing one player affects no other player's models, logs or mission.",
H,"every set of missions (also none or partial), every history","needs goals reached at particular times by particular subsets of players; tests use at most one or two missions",
["sim/simulator.py","sim/goals.py"],[("Simulator._remove_finished_players","sim/simulator.py")])

prop("P06","Logs record what actually happened",
"For each active player every step logs the state before the step at the current time, and every query logs the very command that is applied, the time it took and, only when the agent provides it, the extra object, all at the current time and under that player's own name. When the run ends, the result contains one log for every player that took part, built from that player's own recorder only.",
H,"every episode and player set","tests check that logs exist and have plausible length, not that each entry is the right value at the right time for the right player",
["sim/simulator.py","sim/simulator_structures.py"],[("Simulator.update / run","sim/simulator.py"),("PlayerLogger.as_sequence","sim/simulator_structures.py")])

prop("P07","Episodes are independent of earlier ones",
"Running an episode depends only on the context it is given: a simulator that has already run starts again from a clean state (no previous commands, observations, query times or logs). No object of the package keeps mutable data shared between instances, such as a mutable container at class or module level or as a default argument, that any of its functions modifies.",
H,"every sequence of episodes and every number of simulators or objects in one process","tests create a new simulator each time and run one episode per process and configuration",
["sim/simulator.py","sim/simulator_structures.py","sim/agents/lane_follower.py","controllers/pure_pursuit.py"],[("Simulator.run","sim/simulator.py")])

prop("P08","Agents and logs never get hold of live simulation state",
"What an agent or a sensor receives (states in observations, the scenario and goal at episode start) and what is logged as a state is an independent copy, so that changing it cannot change the simulation or the log, and the simulation going on cannot change it afterwards. A model's state object is only replaced or modified by that model's own methods, and stepping a model does not modify the command object it is given.",
H,"every agent behaviour, including agents that keep or modify what they are given","the test agents are well behaved and never modify their inputs, so aliasing is invisible",
["sim/simulator.py","sim/simulator_structures.py","sim/models/"],[("SimModel.get_state deepcopy","sim/simulator_structures.py"),("Simulator.run deepcopies","sim/simulator.py")])

prop("P09","Sensors only ever remove information",
"A sensor's output contains the observer itself and otherwise only players present in the full observation, each with its own unmodified state (an occupancy may only be replaced by its validity-repaired version), and keeps the observation time unless it is a delay. The field-of-view sensor keeps another player if and only if the visible region intersects that player's occupancy, where the visible region is computed from the observer's own pose, all static obstacles and the occupancies of all other players; along every ray of a line-of-sight sensor it reaches to the closest obstacle hit and at most to the sensor's range. No sensor modifies the full observation, which all players share.",
IH,"every observation, observer and wrapping of sensors","tests check one filter on one scene with two or three players",
["sim/sim_perception.py"],[("FovObsFilter.sense, IdObsFilter.sense","sim/sim_perception.py")])

prop("P10","Delayed and ghosting sensors transform the wrapped sensor's output as documented",
"Wrapper sensors sense through the sensor they wrap, exactly once per call, for the same scenario, observation and observer. The delay keeps every sensed observation in order, re-stamped with its time plus the latency, and returns the first one whose new time stamp is not earlier than now; the ghosting sensor hides exactly the ghost, from everyone but the ghost itself, if and only if its distance to the observer exceeds the given distance.",
IH,"every latency, sampling pattern, distance and observer","the tests use one latency that is a multiple of the period",
["sim/sim_perception.py"],[("DelayedObsFilter.sense, GhostObsFilter.sense","sim/sim_perception.py")])

prop("P11","Every contact of a step is examined, resolved at most once and reported",
"After each step that does not end the simulation, every unordered pair of distinct active players with intersecting footprints and every active player with every static obstacle its footprint intersects is handed to collision resolution exactly once. Every resolution that returns a report adds exactly that report to the collision log and moves the first collision time to the current time if that is earlier; a resolution that fails adds an empty report naming the players involved at the current time, and one that returns nothing adds nothing. Dynamic obstacles hitting the environment are not reported.",
IH,"every number of players and obstacles and every contact pattern","tests have at most a few contacts; a skipped pair or a lost report needs particular player counts or failing geometry",
["sim/simulator.py"],[("Simulator._check_collisions_among_players / _check_collisions_with_environment","sim/simulator.py")])

prop("P12","Collision impulses conserve momentum and respect restitution",
"Resolving a contact between two bodies changes their velocities by equal and opposite impulses along the contact normal and their spins by the torque of that same impulse about each centre of mass, so total linear momentum and angular momentum about any point are unchanged. The normal relative velocity of the contact points after the impact is minus the smaller of the two restitution coefficients times the one before. A static obstacle acts as a body at rest with its own mass, (infinite) inertia and restitution.",
I,"every pair of masses, inertias, restitutions, velocities, contact points and normals","tests check that a collision is reported; the algebraic identity must hold for all real inputs",
["sim/collision.py","sim/collision_utils.py"],[("compute_impulse_response, velocity_after_collision, rot_velocity_after_collision","sim/collision_utils.py"),("resolve_collision","sim/collision.py")])

prop("P13","Collision resolution is all-or-nothing and its report matches what was applied",
"If the bodies are already separating at the contact, resolution returns nothing and leaves both bodies untouched; if it fails with a collision error, it also leaves them untouched; otherwise every simulated body involved is marked as collided and receives its new velocity exactly once. The report names each participant with its own footprint, impact locations, velocity before, velocity actually set, and the change of translational kinetic energy between the two, at the current time; against the environment, whatever geometric shape the obstacle has, the player is at fault and the environment never is.",
IH,"every geometry, velocity and failure of the contact computation","needs failing geometry or separating overlap, and a field-by-field comparison of report and model state",
["sim/collision.py","sim/collision_structures.py"],[("resolve_collision, resolve_collision_with_environment","sim/collision.py")])

prop("P14","Imposing a velocity and reading it back agree in every frame",
"For every model with a full planar velocity in its state, setting a linear and angular velocity in the body or in the global frame and then reading them in the same frame gives back the same values, and the body and global readings differ by exactly the rotation by the heading. Setting a velocity changes no other part of the state. The kinematic vehicle takes over just the longitudinal component.",
I,"every heading, velocity, spin and model type","only collisions of cars are tested; the identity must hold for all headings and all model classes",
["sim/models/vehicle.py","sim/models/vehicle_dynamic.py","sim/models/pedestrian.py","sim/models/spacecraft.py","sim/models/spaceship.py","sim/models/rocket.py","sim/models/obstacles_dyn.py"],[("set_velocity / get_velocity of each model","sim/models/")])

prop("P15","Reported velocities are the ones the dynamics integrates",
"For every model except the differential drive (whose velocity is not part of its state) the time derivative of the position given by its dynamics is the global velocity the model reports for the same state, and (pedestrians aside, whose heading is steered directly) the time derivative of the heading is the angular velocity it reports; below walking pace the dynamic vehicle moves like the kinematic one instead. The rates of a differential drive follow from its wheel speeds, wheel radius and wheel base.",
I,"every state and every model type","numerical comparison at sampled states with heading zero hides frame mistakes",
["sim/models/"],[("dynamics and get_velocity of each model","sim/models/")])

prop("P16","Commands act on a model only within its actuation and state limits",
"In every model with limits the part of the state derivative that is driven by a command (acceleration, thrust or force, steering, nozzle or turning rate, wheel speed) never leaves the corresponding limits of the model's parameters, whatever value is commanded, and equals the command when it is within limits and no state limit is active (for dynamic obstacles the limited quantity is the commanded acceleration including the rotation of the body frame). Where a model limits the corresponding state (speed, steering or nozzle angle, spin) and it is at or beyond a limit, the command cannot push it further out but can still bring it back; a spaceship or rocket without fuel produces no thrust.",
I,"every real command, state and valid parameter set","tests sample a few commands; off-by-one-branch errors appear only at particular orderings of command, state and limits",
["sim/models/model_utils.py","sim/models/vehicle_utils.py","sim/models/pedestrian_utils.py","sim/models/"],[("apply_*_limits, *_constraint","sim/models/model_utils.py"),("dynamics of each model","sim/models/")])

prop("P17","A model step integrates its own dynamics over exactly one time step",
"Stepping a model integrates the model's own dynamics, evaluated at each instant for the state of that instant (the friction after a collision aside), starting at the current state with the given command held constant, over exactly the given time step, and replaces the state by the final value only if the integration succeeded, else it raises and the state is unchanged. Once a model has collided, its commands are ignored (taken as zero) for bicycles, trucks, pedestrians, differential drives, spacecraft, spaceships and rockets, but not for cars and dynamic obstacles.",
IH,"every state, command, time step and model type","packing mistakes between state and command vectors or an ignored failure flag only show for particular values or failing integrations",
["sim/models/","dynamics/bicycle_dynamic.py"],[("update of each model","sim/models/")])

prop("P18","State and command vectors convert and combine component by component",
"For every state and command type, converting to a vector and back gives the same values, with each component at the position its index table says. Adding, subtracting, scaling by and dividing by a number act on every component separately and leave non-numeric fields (such as lights) of the left operand unchanged.",
I,"every state and command type and all values","a swapped or forgotten component is invisible unless a test uses distinct non-zero values in exactly that component",
["sim/models/"],[("as_ndarray, from_array, __add__, __mul__, idx of each class","sim/models/")])

prop("P19","Pose, footprint and impact mesh of a model describe the same body",
"A model's pose is made of its own position and heading, its footprint is its body outline moved by that pose, and every piece of its impact mesh is cut from that footprint. The pieces together touch the whole boundary of the footprint, so every contact with the footprint has an impact location, and left, right, front and back name the matching sides of the outline.",
I,"every state, geometry and model type","tests look at one model at the origin",
["sim/models/","geo.py"],[("get_pose, get_footprint, get_mesh","sim/models/"),("apply_SE2_to_shapely_geo","geo.py")])

prop("P20","Invalid parameters and inconsistent contexts are rejected on construction",
"Every parameter type rejects limits whose minimum is not below its maximum and maxima that are not positive, including those it inherits. A simulation context is rejected unless models and players have the same names, every mission belongs to one of them and is a goal, and models, agents and scenario have the right types; a scenario is rejected if one of its obstacles is not a static obstacle or, where road boundaries are generated, their buffer is negative; a controller is rejected if one of its ranges is empty, a sensor if its field of view exceeds a full circle or its range is negative. Configurations that meet these conditions are accepted.",
C,"every configuration","tests only construct valid configurations",
["sim/models/model_structures.py","sim/simulator.py","sim/scenarios/structures.py","controllers/pid.py","perception/sensor.py"],[("__post_init__ checks","sim/")])

prop("P21","Sampled sequences are valid, immutable and never look ahead",
"A sampled sequence can only be built from equally many time stamps and values with strictly increasing real time stamps of compatible kinds, and its time stamps and values cannot be replaced or extended afterwards. Reading at-or-previous returns the value of the latest sample not later than the requested time and fails if there is none; interpolated reading returns the linear interpolation of the two neighbouring samples and holds the first and last value outside. A builder refuses a time stamp that does not increase and leaves its content unchanged when it does.",
IH,"every sequence and query time","tests query a handful of times of one sequence; off-by-one errors at sample times or between samples need particular queries",
["seq/sequence.py"],[("DgSampledSequence, DgSampledSequenceBuilder","seq/sequence.py")])

prop("P22","Operations deriving sequences preserve alignment and bounds",
"A subsequence holds exactly the samples whose time stamps lie in the closed requested interval, a shifted sequence has every time stamp moved by the same amount and the same values, and transforming values keeps each value at its own time stamp. Integration is the cumulative trapezoidal rule and differentiation the difference quotient of consecutive samples placed at the midpoint; iteration yields each pair of consecutive samples with their true time difference. Accumulating gives the running sum, up-sampling a trajectory keeps its samples and inserts evenly spaced interpolated ones, and merging trajectories appends the second one without its connecting sample.",
I,"every sequence","the tests use one short sequence with regular spacing",
["seq/sequence.py","seq/seq_op.py"],[("get_subsequence, shift_timestamps, transform_values, iterate_with_dt","seq/sequence.py"),("seq_integrate, seq_differentiate","seq/seq_op.py")])

prop("P23","PID controllers always stay within their saturation ranges",
"On every call the returned control lies within the output range, the stored integral contribution within the anti-windup range and a reference that is set within the set-point range, and within those ranges the control is the sum of the proportional, integral and derivative terms. A call without elapsed time neither integrates nor divides by zero, each call measures time and error differences to the immediately preceding call, and the controller holds no state beyond these.",
IH,"every gain set, reference, measurement and call timing","saturation and first-call behaviour depend on call histories tests do not enumerate",
["controllers/pid.py"],[("PID","controllers/pid.py")])

prop("P24","Controllers and planners derived from vehicle parameters use its limits",
"A speed controller built for a vehicle has the vehicle's speed limits as set-point range and its acceleration limits as output range; a steering controller has the steering angle limits as set-point range and the steering rate limits as output range. Command samplers built from vehicle parameters sample accelerations and steering rates within that vehicle's acceleration and steering rate limits, motion primitive generators sample speeds and steering angles within its speed and steering angle limits; a pure pursuit controller built for a vehicle uses that vehicle's wheel base and rear length.",
C,"every vehicle parameter set","tests build from the default car only and do not compare limits",
["controllers/speed.py","controllers/steer.py","controllers/pure_pursuit.py","planning/commands_sampler.py","planning/motion_primitives.py"],[("from_vehicle_params / from_vehicle_parameters","controllers/")])

prop("P25","Lane poses classify every position exactly once",
"For every lane pose exactly one of laterally inside, outside left and outside right holds and exactly one of longitudinally inside, before and after; inside means inside both ways. The distances to the left and right boundary and to the centre are the absolute lateral differences to them, and the direction is correct exactly if the relative heading is at most a right angle either way.",
I,"every lateral and longitudinal position, lane radius and length","boundary positions have measure zero for sampled inputs",
["maps/lanes.py"],[("DgLanelet.lane_pose","maps/lanes.py")])

prop("P26","Light commands have complete, immutable and side-correct definitions",
"Every light command has a phase sequence made of light commands, every phase has colours, turn signals light up on their own side only and hazard on both. Computing the displayed colours never changes the shared definitions: brake lights replace the normal rear red by bright red exactly while braking, and what is displayed for one vehicle or instant has no effect on another.",
IH,"every light command, time, acceleration and history of earlier calls","tests compute colours once; the effect of an earlier call needs a sequence of calls",
["sim/models/vehicle_ligths.py","sim/simulator_animation.py"],[("phase2colors, lightscmd2phases, get_phased_lights","sim/models/vehicle_ligths.py"),("lights_colors_from_lights_cmd","sim/simulator_animation.py")])

prop("P27","Simulations are reproducible",
"Nothing that influences states, commands, collisions or termination depends on unseeded randomness, the wall clock, object identity or the iteration order of sets; measured computation times end up in the logs only. Two runs of the same context with the same agents therefore give the same result in any process.",
["histories","schedules"],"every process, hash seed and machine load","a test process runs with one fixed hash seed and compares nothing across processes",
["sim/","agents","controllers/","planning/"],[("Simulator.update","sim/simulator.py"),("LFAgent","sim/agents/lane_follower.py")])

prop("P28","Planners only emit dynamically feasible, consistently timed trajectories",
"Every motion primitive starts in the requested initial state (or a sampled one at the origin), applies one constant command whose acceleration and steering rate are the difference quotients over the whole horizon and lie within the vehicle's limits, and has one state per step at multiples of the step, each obtained from the previous one by the vehicle dynamics. The commands sampler emits, for every sampled command, the two-point trajectory from the initial state to its successor, and refuses samples outside the vehicle's limits. The command plan derived from a trajectory consists of the difference quotients of consecutive states, and the discrete bicycle dynamics saturate commands, speed and steering.",
I,"every vehicle, horizon, sampling and initial state","tests count trajectories for one parameter set",
["planning/motion_primitives.py","planning/commands_sampler.py"],[("MotionPrimitivesGenerator.generate / check_input_constraints","planning/motion_primitives.py"),("CommandsSampler","planning/commands_sampler.py")])

prop("P29","Safety metrics report the true extremum together with its owner",
"Minimum distance, minimum time to collision and maximum required deceleration are reported together with the agent and time at which they occur, starting from the neutral value, over all other agents still active and all times logged for the ego within the closed requested range, never including the ego itself. An agent counts as finished only if it has a mission and fulfils it at the evaluated time; agents without a mission are always considered. Distances are those between the two footprints at their own poses. The time to collision is the first time step at which the footprints, moving on with their current velocities, touch (infinite beyond three seconds); only agents moving away, or whose centre would need more than five seconds to meet the ego's, are left out of it. The required deceleration stops the ego within its distance to collision, and is infinite if there is none left.",
I,"every log, mission set and time range","tests have one pair of vehicles with missions for all",
["eval/safety.py"],[("get_min_dist*, get_*ttc*, _remove_finished_players","eval/safety.py")])

prop("P30","Obstacle lookups by spatial index refer to the right obstacle",
"The spatial index of a scenario contains the shape of every static obstacle, including generated road boundaries, in the same order as the scenario's obstacle sequence, and neither is changed afterwards, so an index returned by a query denotes the obstacle at that position. Road boundaries are obstacles if and only if requested and a scenario is given.",
IC,"every scenario and set of extra obstacles","tests use scenarios in which mixing up obstacles has no visible consequence",
["sim/scenarios/structures.py","sim/simulator.py"],[("DgScenario.__post_init__","sim/scenarios/structures.py")])

prop("P31","Goals are pure predicates consistent with the geometry they show",
"Whether a goal is fulfilled depends only on the goal, the position and heading of the given state and the given time, and evaluating or drawing it changes nothing. A polygon goal is fulfilled exactly inside its polygon, a reference lane goal exactly inside its goal region once the required progress is reached, a pose goal exactly within its tolerance of the goal pose; the geometry shown is that same polygon, region or pose marker.",
I,"every state, time and goal","tests check one goal of one kind",
["sim/goals.py"],[("is_fulfilled / get_plottable_geometry of each goal","sim/goals.py")])

prop("P32","Vehicle dynamics are independent of the choice of world frame",
"No model's state derivative depends on the absolute position, its body-frame rates do not depend on the heading, and the velocity in the world frame turns with the heading. Mirroring the state and the command about the longitudinal axis mirrors the derivative, and a spacecraft, spaceship or rocket without thrust moves with constant world velocity.",
I,"every state and command of every model","these are identities over all real inputs; sampled comparisons with tolerances miss small or rarely active terms",
["sim/models/","dynamics/bicycle_dynamic.py"],[("dynamics of each model","sim/models/")])

prop("P33","Options and arguments given by the caller take effect",
"Every parameter of a public constructor, factory or function with an effect or result in the package influences that effect or result; in particular values passed to constructors reach the object and defaults apply only when nothing was passed. Parameters that exist only to satisfy an interface may be ignored.",
C,"every call","tests use default options almost everywhere",
["sim/","controllers/","planning/","maps/","eval/"],[("constructors and factories","sim/agents/lane_follower.py")])

prop("P34","Rigid transformations of points, shapes and poses agree",
"Moving a shape, a list of points or a single point by a pose applies the same rotation and translation, for every pose. The relative pose of a pose with respect to a base composed with the base gives back the pose, and converting a pose from and to its matrix form keeps position and heading. Moving a trajectory moves the pose of every state and nothing else, and interpolating between two poses moves along their relative motion.",
I,"every pose and geometry","tests use axis-aligned poses, where swapped or sign-flipped coefficients coincide",
["geo.py"],[("apply_SE2_to_shapely_geo, transform_xy, SE2_apply_T2, relative_pose, SE2Transform","geo.py")])

prop("P35","Combining collision reports keeps the accident's history in order",
"Two reports are only combined if they concern the same players. The combination keeps time, point and normal of the earlier one, and for each player the earlier velocity before the impact, the later velocity after the impact, all impact locations and the total energy change; reports of different times may be given in either order.",
IH,"every pair of reports in any order","tests combine reports in time order only",
["sim/collision_structures.py"],[("combine_collision_reports","sim/collision_structures.py")])

prop("P36","Every supported state type is drawn by its own routine with its own data",
"For every state type of the package the renderer dispatches to a drawing routine for exactly that type, and passes it that player's state, geometry, command and colours; unknown types are rejected. Subtypes are never shadowed by an unrelated earlier case. A redraw moves the patches of the first draw, and a frame of an animation shows every player as logged at that frame's time, from the beginning of the log in steps of the frame interval.",
IC,"every model type","rendering tests cover few model types and do not compare pictures",
["sim/simulator_visualisation.py","sim/simulator_animation.py"],[("SimRenderer.plot_player","sim/simulator_visualisation.py"),("create_animation","sim/simulator_animation.py")])

prop("P37","The numerical integration of a step is accurate",
"The state after a step differs from the exact solution of the model's differential equation by no more than the integrator's tolerance, also when limits switch within the step.",
I,"every state and command","limits switch inside a step at arbitrary instants",["sim/models/"],[("solve_ivp calls","sim/models/")])

prop("P38","The closest point on a lane is the globally closest one",
"The closest point found on a lane's centre line is a global minimiser of the distance, up to the tolerance.",
I,"every lane and position","local searches fail for particular shapes only",["maps/lanes.py"],[("find_along_lane_closest_point","maps/lanes.py")])

prop("P39","The visible region of a ranged sensor is geometrically correct",
"A point belongs to the visible region of a ranged sensor exactly if it lies within range and field of view and the segment to the sensor crosses no obstacle, up to the angular resolution.",
I,"every arrangement of obstacles","needs arbitrary geometry",["perception/sensor.py"],[("VisRangeSensor.fov_as_polygon","perception/sensor.py")])

prop("P40","Contact normals are unit vectors pointing out of the first body",
"For overlapping shapes the contact normal has length one and is perpendicular to the chord joining the two points where the outlines cross (or, if the second shape lies inside the first, parallel to the line between the centroids), and it never points from the contact back towards the first body's centroid. The contact point is the middle of that chord (or the centroid of the contained shape). Shapes that only touch, or whose outlines do not yield exactly two such points, are refused with a collision error.",
I,"every pair of overlapping footprints","sign and scaling mistakes show only for chords of particular direction and length",["sim/collision_utils.py"],[("compute_impact_geometry","sim/collision_utils.py")])

prop("P41","A lane's coordinates are consistent",
"For every lane, progress measured in control points and progress measured in metres convert into each other without loss, on every segment and, at one metre per unit, beyond both ends; segment lengths are the distances between consecutive control points and the lane's length is their sum. The centre point at a given progress lies between the two neighbouring control points in proportion (straight ahead of the end point beyond the ends), the half width is interpolated likewise, and the fast centre point agrees with it in heading along the shorter turn, however the headings are written. The lane's outline consists of the points half a width to either side of the centre points from the first to the last control point, in order up one side and back down the other. The closest point search minimises the distance to the centre point and reports the pose belonging to the parameter found; a position is inside exactly if that parameter lies within the lane and the distance within the half width. Control points made from boundary vertices sit at the centre vertices, head along the lane with the left boundary on the left, and carry half the width.",
I,"every lane and position on or beyond it","mistakes at segment borders, beyond the ends and at heading wrap-around show only for particular lanes",["maps/lanes.py"],[("DgLanelet.along_lane_from_beta, beta_from_along_lane","maps/lanes.py"),("DgLanelet.center_point, center_point_fast_SE2Transform, radius","maps/lanes.py"),("DgLanelet.lane_profile, from_vertices","maps/lanes.py")])

prop("P42","Scenes are drawn completely",
"Every point, line and polygon of a drawn shape, single, multi-part or mixed, appears exactly once at its own coordinates in the requested style; holes are left out visibly, and empty shapes draw nothing. The arena shows every static obstacle in its own colour and every static goal in the colour of its player; a moving goal is shown where it is at the time of the frame, moving one patch. Planned trajectories are drawn through the positions of their states, by moving the same lines from frame to frame, in every frame they are logged for, also if the player only starts to log them later. The view contains every player, the followed player, or exactly the requested area.",
IC,"every shape, scene and log","rendering tests draw simple polygons and compare no pictures; swallowed errors hide missing elements",
["maps/shapely_viz.py","sim/simulator_visualisation.py","sim/simulator_animation.py"],[("ShapelyViz.add_shape","maps/shapely_viz.py"),("SimRenderer.plot_arena, plot_timevarying_goals, plot_trajectories","sim/simulator_visualisation.py"),("create_animation, adjust_axes_limits","sim/simulator_animation.py")])

prop("P43","Road boundaries close the road exactly",
"The boundary obstacles of a scenario are the outlines of the union of all its lanelets, widened by the buffer: every inner outline, and every outer outline except where the road may be entered or left, i.e. across the start of the lanelets without predecessor and across the end of those without successor. They are added, once, to the static obstacles of a scenario that asks for them, with its own buffer.",
IC,"every lanelet network","the tests build one network and do not compare geometry",
["maps/road_bounds.py","sim/scenarios/structures.py"],[("build_road_boundary_obstacle","maps/road_bounds.py")])

prop("P44","Replicated recordings put everything where the recording has it",
"The simulation context made from a recorded CommonRoad scenario contains every recorded obstacle that stands still as exactly one static obstacle, with its shape at its recorded pose and of its type, and every other obstacle that can be converted as one player and one model under the same name (the requested one as ego); obstacles that cannot be converted, e.g. pedestrians, are skipped without affecting the others. Each model starts at its obstacle's recorded position, heading and speed, with its axles within the recorded shape; its agent follows a lane leading from its first to its last recorded position (the one best aligned with it if there are several, the recorded trajectory itself if there is none), within the limits of its own model. The requested parameters, seed and description are used.",
IC,"every recorded scenario","the tests replicate a few recordings and do not compare poses, lanes or types",
["sim/scenarios/factory.py","sim/scenarios/convert_from_commonroad.py","sim/scenarios/model_from_dyn_obstacle.py","sim/scenarios/utils_dyn_obstacle.py"],[("get_scenario_commonroad_replica","sim/scenarios/factory.py"),("infer_model_from_cr_dyn_obstacle","sim/scenarios/model_from_dyn_obstacle.py"),("infer_lane_from_dyn_obs","sim/scenarios/utils_dyn_obstacle.py")])

prop("P45","The lane following agent steers to the lane and yields",
"The steering angle of the pure pursuit leads the rear axle on an arc to a goal point of the path that lies ahead of the own progress, at a look-ahead distance proportional to the speed within its limits; it turns to the side of the goal whatever way headings are written, and going straight is no division by zero. The reference speed is zero when yielding to someone near from the right and in an emergency (someone near from the left, or oncoming ahead), else the nominal speed or less behind a slower vehicle within the safety distance; only relative poses matter, every other player is considered whatever the order of players, and oneself never is. In each step the commands control the current own speed and steering angle to these references at the current pose and progress, within the vehicle's limits, and after an emergency the reference speed stays zero. Agents with a plan follow it by the time; agents with a policy apply it to their own state.",
IC,"every lane, pose, speed and set of players","tests only start the agent once and compare no commands",
["controllers/pure_pursuit.py","controllers/speed.py","sim/agents/lane_follower.py","sim/agents/agent.py"],[("PurePursuit.get_desired_steering","controllers/pure_pursuit.py"),("SpeedBehavior.get_speed_ref","controllers/speed.py"),("LFAgent.get_commands","sim/agents/lane_follower.py"),("NPAgent.get_commands, PolicyAgent.get_commands","sim/agents/agent.py")])

prop("P46","Evaluation metrics measure what they say",
"The distance travelled is the sum of the straight distances between consecutive logged positions; the maximal jerk is the largest absolute change of acceleration per time between consecutive commands within the time range; the comfort value is the root mean square of the ISO 2631 frequency weighted acceleration for any number of samples, even or odd, and any sampling step. A goal lane counts as reached when the goal is fulfilled or when the vehicle is laterally inside, close to the centre of and aligned with the lane itself or the lane connected to it on which it is; the search along the connected lanes always ends, also outside of bends, on rings and off the road. The time at which the lane is reached is the first logged time at which it is, and none if it never is.",
IC,"every log, time range and lane network","there are no tests of these metrics; faults show for odd numbers of samples, other sampling steps or particular road shapes",
["eval/efficiency.py","eval/comfort.py"],[("distance_traveled, desired_lane_reached, time_goal_lane_reached","eval/efficiency.py"),("get_max_jerk, get_acc_rms","eval/comfort.py")])

prop("P47","Fault of a collision falls on whoever was illegally on every lane of the impact",
"When two players collide in a scenario with a road network, each of them is reported at fault exactly if, in its own pose at that moment, it is outside of or driving against every lane at the impact point: off the road everyone involved is at fault, one legal lane exonerates, and the verdict on one player does not depend on the other or on the order of players or lanes. Without a road network nobody is at fault. The lanes are those of the scenario's network at the impact point, each built from its own lanelet's left and right boundary and centre line.",
IC,"every pose, overlap of lanes and impact point","the tests of collisions use single lanes or no road at all; overlapping lanes at intersections and impacts off the road are not sampled",["sim/collision.py","sim/collision_utils.py","maps/lanes.py"],[("resolve_collision","sim/collision.py"),("check_who_is_at_fault","sim/collision_utils.py"),("DgLanelet.from_commonroad_lanelet","maps/lanes.py")])

prop("P48","Accelerations follow from forces and moments",
"For rockets, spaceships and spacecraft the acceleration of the centre of mass is the sum of the thrusts, each within its limits and acting against the direction in which its nozzle points as drawn, over the current mass; the angular acceleration is the moment of these thrusts about the centre of mass over the inertia (for the rocket with the lever along its axis); fuel burns in proportion to the total thrust delivered, and without fuel there is neither thrust nor consumption. A drawn flame starts at the end of its nozzle, as wide, with a length proportional to that thruster's own thrust. For the dynamic vehicle above walking pace: the axle loads add up to the weight and shift rearwards with the acceleration; each tyre's lateral force is its load times the magic formula at its slip angle; the braking or driving force, split over the axles, less rolling resistance, is scaled by the friction that the lateral force leaves; drag is half of density times area times coefficient times speed squared; the yaw acceleration is the moment of the lateral forces. A vehicle or pedestrian that has collided is slowed down in proportion to each component of its velocity, one that has not is not.",
IC,"every state, command (within and beyond its limits) and parameter set","the tests run a few scenes and look at no forces; sign errors, swapped levers or exponents give trajectories that still look plausible",["sim/models/rocket.py","sim/models/spaceship.py","sim/models/spacecraft.py","sim/models/vehicle_dynamic.py","sim/models/tires.py","sim/models/rocket_structures.py","sim/models/spaceship_structures.py","sim/models/pedestrian.py"],[("RocketModel.dynamics","sim/models/rocket.py"),("SpaceshipModel.dynamics","sim/models/spaceship.py"),("SpacecraftModel.dynamics","sim/models/spacecraft.py"),("VehicleModelDyn.dynamics","sim/models/vehicle_dynamic.py"),("Pacejka.evaluate","sim/models/tires.py"),("flames_outline_in_body_frame","sim/models/rocket_structures.py")])

prop("P49","Bodies enclose their parts and are drawn as they collide",
"The outline of every geometry is the polygon that collides, the same on its left and right side, with the centre of mass inside, and exactly as long and wide as its stated measures: for vehicles the wheelbase plus both bumpers, and the width between the wheels plus one tyre; for differential drives twice the radius; for rockets and spaceships from the tail to the tip of the nose; for spacecraft from tail to front. Vehicles have four wheels (cars, trucks) or two (motorcycles, bicycles) at the ends of their axles, the front ones, listed first, turned by the steering angle about their own centre and the rear ones never; unsteered wheels lie within the body. The wheels of a differential drive are a wheelbase apart on one axle and have the wheel radius. The four lights lie on the front or rear edge, on the side they are named after, mirror-symmetrically; a spacecraft's two thrusters are at the tail, on either side.",
IC,"every value of the geometry's parameters, type of vehicle and steering angle","the tests use default sizes and compare no coordinates",["sim/models/vehicle_structures.py","sim/models/diff_drive_structures.py","sim/models/rocket_structures.py","sim/models/spaceship_structures.py","sim/models/spacecraft_structures.py","sim/models/pedestrian.py"],[("VehicleGeometry.outline","sim/models/vehicle_structures.py"),("get_rotated_wheels_outlines","sim/models/vehicle_structures.py"),("lights_position","sim/models/vehicle_structures.py"),("DiffDriveGeometry.wheels_outlines","sim/models/diff_drive_structures.py"),("RocketGeometry.outline","sim/models/rocket_structures.py")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
