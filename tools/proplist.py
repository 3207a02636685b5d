# -*- coding: utf-8 -*-
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (see mkmanifest.py)."""

def P(pid, title, statement, over, qtext, why, files, mech, note, state=None, tech=None, claimed=True):
    return dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=files, mech=mech, note=note, state=state, tech=tech, claimed=claimed)

HG = 'arboris/homogeneousmatrix.py'
CORE = 'arboris/core.py'
JT = 'arboris/joints.py'
CO = 'arboris/constraints.py'
COL = 'arboris/collisions.py'
OBS = 'arboris/observers.py'

PROPS = [
P('P01', 'Rigid-motion algebra is a faithful group representation',
  'For every rigid displacement, inverting, composing, applying it to points and vectors, and taking its 6x6 adjoint agree with each other: the inverse undoes the displacement, the adjoint of a product is the product of adjoints, the adjoint of the inverse is the inverse of the adjoint, and the adjoint conjugates twists as the displacement does. Points are rotated and translated, vectors only rotated, and the derivative of the adjoint is the adjoint times the adjacency of the body twist. Valid displacements and their adjoints are recognised as such, and matrices of another shape, with another last row or with a rotation part whose determinant is not one are refused.',
  ['inputs'], 'all rotations (including half turns, tiny and near-gimbal ones) and translations over twelve orders of magnitude, alone and in products',
  'Doctests evaluate each function on one or two printed matrices; the identities relate functions to each other over the whole group.',
  [HG, 'arboris/adjointmatrix.py', 'arboris/twistvector.py'],
  [('closed-form inverse, adjoint and adjoint derivative', HG), ('adjoint inverse and predicate', 'arboris/adjointmatrix.py')],
  'Randomised over SE(3), judged by an independent numpy model at tolerances scaled to the magnitude of the operands.',
  tech='runtime monitoring: algebraic-law monitors over generated displacements, independent reference model'),
P('P02', 'Rotation builders and angle extraction are right-handed and mutually inverse',
  'Every elementary or composed rotation builder yields the proper right-handed rotation about its axes in the order its name spells, and a pure translation leaves orientation untouched. The yaw-pitch-roll angles extracted from any rotation rebuild that rotation, including at and near gimbal lock, with pitch in [-90, 90] degrees wherever the extraction is regular. The frame aligned on a unit vector is a rotation whose z axis is that vector, for every direction, and vectors of another length are refused.',
  ['inputs'], 'all angle triples (multiples of quarter turns and near them included), all rotations, all unit vectors including the coordinate axes and near-ties between components',
  'Doctests print a few matrices and one angle triple far from gimbal lock.',
  [HG], [('rotation builders, zaligned, rotzyx_angles', HG)],
  'Randomised plus a full grid of special angles; oracle is Rodrigues rotation by the harness.',
  tech='runtime monitoring: reference-model comparison over generated and gridded angles'),
P('P03', 'Exponential map is the flow of a constant twist',
  'The exponential of any body twist is the displacement obtained by following that constant twist for one second: it is a proper rigid displacement, equals the matrix exponential of the twist, satisfies the one-parameter group law, and has the negated twist giving the inverse. This holds through the small-angle regime without a jump, at large angles and for pure translations and rotations. The adjacency operator is the matching Lie bracket.',
  ['inputs'], 'all twists: angles from 0 and 1e-12 to many turns, dense around the small-angle switch, any linear part and pitch',
  'One doctest evaluates the exponential once at a large angle; the small-angle branch is never executed by the tests.',
  ['arboris/twistvector.py'], [('exp, adjacency', 'arboris/twistvector.py')],
  'Compared with scaling-and-squaring Taylor exponential in long double.',
  tech='runtime monitoring: reference-model comparison (scaling-and-squaring exponential) and group-law monitors'),
P('P04', 'Joint kinematics: pose, velocity map and its rate are consistent',
  'For every joint type, the relative pose is the one its name spells (rotations and translations about or along the named axes, in order), the relative twist is the body twist of that pose when the coordinates move at the joint velocity, and the velocity map and its rate are the exact derivatives along that motion. The inverse pose, inverse twist, both adjoints, adjacencies and adjoint rates are those of the pose and twist. This holds at any coordinates and velocities, singular ones included.',
  ['inputs', 'configurations'], 'all thirteen joint types, any coordinate and velocity vector',
  'Only one joint type has a jacobian test at fixed coordinates; rates are doctested where they are zero.',
  [JT, 'arboris/rigidmotion.py', CORE], [('pose/jacobian/djacobian of each joint', JT), ('inverse and adjoint quantities', 'arboris/rigidmotion.py')],
  'Reference: chains of one-dof screws with analytic derivatives, cross-checked against finite differences of the observed pose.',
  tech='runtime monitoring: independent screw-theory reference model, finite-difference cross monitor'),
P('P05', 'Joint integration moves along the commanded velocity and stays on the group',
  'Integrating a joint over any time step sets its velocity to the commanded one and moves it accordingly: each scalar coordinate advances by velocity times step, and a free joint moves by the displacement its constant body twist generates. Splitting a step under constant velocity leads to the same position, stepping back with the opposite velocity undoes it, and a free joint pose stays a rigid displacement over arbitrarily long runs. Fixed joints never move, and no joint shares its position storage with the caller or with another joint.',
  ['inputs', 'histories'], 'all joint types, velocities, steps (1e-9..10 s), long step histories, and integer or float initial positions in any accepted shape',
  'Integration is only exercised through one short stable simulation of simple arms.',
  [JT, CORE, 'arboris/twistvector.py'], [('integrate', JT), ('linear configuration-space integrate', CORE)],
  'Reference exponential, plus long-run drift monitor on free joints.',
  tech='runtime monitoring: step-by-step reference integrator and drift monitor'),
P('P06', 'Forward kinematics composes every joint and attachment frame of the tree',
  'After a geometric or a dynamic update, the pose of every body, frame and moving frame relative to the ground is the composition of the constant attachment transforms and current joint poses along the path from the ground to it, and both updates agree. Two frames linked by a joint have exactly the relative pose of that joint. The result depends only on current joint positions, not on earlier updates or on the order in which branches were added. Frames that have never been updated say so instead of giving a pose, and attachment places that are not rigid displacements are refused.',
  ['inputs', 'configurations', 'histories'], 'all tree shapes, all joint types, attachment frames on either side, any joint positions, any sequence of moves and updates',
  'The stable test compares one three-joint planar arm with hand-written values.',
  [CORE], [('recursive geometric update', CORE), ('subframe pose', CORE)],
  'Random trees up to 16 bodies in quick tier, 40 in thorough; independent FK.',
  tech='runtime monitoring: reference-model comparison over random mechanisms'),
P('P07', 'Twists and jacobians are the true velocities of bodies and frames',
  'After a dynamic update, every body and frame jacobian maps the generalized velocity vector to its twist, and that twist is the true body velocity of its pose under the current joint velocities. Columns of joints which are not ancestors of a body are zero. A frame fixed to a body at an offset sees the same motion, transported to its own origin and axes.',
  ['inputs', 'configurations'], 'all trees, attachment frames, joint positions and velocities; bodies, subframes and moving subframes',
  'Tests check hand-written jacobians of one planar arm at one configuration.',
  [CORE], [('recursive dynamic update', CORE), ('subframe twist/jacobian', CORE)],
  'Independent screw jacobians, plus finite differences of observed poses along the flow.',
  tech='runtime monitoring: reference-model comparison and finite-difference monitor over random mechanisms'),
P('P08', 'Jacobian rates give the true acceleration bias',
  'After a dynamic update, the jacobian rate of every body and fixed frame is the time derivative of its jacobian along the current motion. Hence the rate times the velocities is the acceleration the frame has when generalized accelerations are zero.',
  ['inputs', 'configurations'], 'all trees with offset attachment frames on both sides of joints, any joint positions and velocities',
  'Tests check hand-written rates for one planar arm whose terms mostly vanish.',
  [CORE, JT, 'arboris/rigidmotion.py'], [('recursive jacobian rate', CORE)],
  'Analytic screw rate in the reference model, finite differences of observed jacobians along the flow.',
  tech='runtime monitoring: reference-model comparison and finite-difference monitor over random mechanisms'),
P('P09', 'Generalized mass and viscosity matrices represent energy and dissipation',
  'After a dynamic update, the mass matrix is symmetric positive semi-definite (definite when every joint moves mass) and half the velocity quadratic form equals the sum over bodies of kinetic energies computed from the motion of their mass distribution. The viscosity matrix likewise gives the power dissipated by body viscosities. Neither depends on joint velocities, on previous updates, or on which frames of a body are used for attachment.',
  ['inputs', 'configurations', 'histories'], 'all trees, mass distributions (off-centre, massless links included), viscosities, positions and velocities',
  'A single arm at one configuration is compared to fixed numbers.',
  [CORE, 'arboris/massmatrix.py'], [('sum over bodies of projected mass and viscosity', CORE)],
  'Energy oracle sums point-mass clouds with the same inertia, so it does not reuse 6x6 mass matrices.',
  tech='runtime monitoring: physical-energy oracle (point-mass clouds) over random mechanisms'),
P('P10', 'Velocity-dependent forces match Newton-Euler',
  'The nonlinear-effects matrix times the generalized velocity equals the generalized forces needed to hold generalized accelerations at zero, as given by Newton-Euler for each body. These forces have the power that balances the change of kinetic energy due to the configuration. They vanish at rest and are unchanged when all velocities are reversed.',
  ['inputs', 'configurations'], 'all trees, mass distributions with off-centre mass and products of inertia, joint positions and velocities',
  'Tests check one planar arm; wrong centripetal terms of off-centre or spatial bodies go unnoticed.',
  [CORE], [('body nonlinear effects and their projection', CORE)],
  'Independent recursive Newton-Euler; second oracle differentiates kinetic energy numerically.',
  tech='runtime monitoring: recursive Newton-Euler reference model and power-balance monitor'),
P('P11', 'Each time step solves the documented implicit equation of motion',
  'At every step of a simulation the new generalized velocity satisfies mass times velocity change over the step, plus nonlinear and viscous forces at the new velocity, equals the sum of all controller forces (their velocity-dependent parts taken at the new velocity) plus active constraint forces. Joint positions then advance with the new velocity, joint velocities and the world velocity vector stay the same data, and the clock advances by exactly the step. Contributions of all registered controllers add up whatever their number and order.',
  ['inputs', 'configurations', 'histories'], 'random mechanisms with any set of controllers and constraints, uniform and irregular time lines',
  'The integrate doctest is broken and the stable tests never look at the balance of a step.',
  [CORE], [('controllers update, constraint update, integrate', CORE)],
  'Online monitor hooked on every simulation step evaluates the residual of the documented equation from reference dynamics.',
  tech='runtime monitoring: online step-residual monitor on simulations'),
P('P12', 'Free motion conserves momentum and energy in the limit of small steps',
  'A mechanism floating freely, with no gravity, viscosity, controller or constraint, keeps its linear and angular momentum, and its kinetic energy, up to an error that vanishes with the time step. With gravity, mechanical energy of an undamped mechanism is conserved in the same sense. Viscosity or derivative gain alone never increases kinetic energy in that sense.',
  ['inputs', 'configurations', 'histories'], 'random floating and anchored trees, random initial states, two step sizes per history',
  'Energy drift is only tested against recorded numbers in a test that cannot run here.',
  [CORE, JT, 'arboris/controllers.py'], [('dynamic update and integration', CORE)],
  'Convergence oracle: halving the step must halve the drift measured by a separate physical model.',
  tech='runtime monitoring: conservation monitors over simulated histories'),
P('P13', 'Weight is the negative gradient of gravitational potential energy',
  'The gravity controller yields, for every configuration, the generalized force whose work rate is the power of weight: magnitude times mass along the down direction at each centre of mass. Massless bodies contribute nothing, the force depends neither on velocities nor on the step, and it scales linearly with the gravity magnitude and sign. A body released from rest falls with that acceleration, wherever its reference frame is.',
  ['inputs', 'configurations'], 'random trees, mass distributions, gravity magnitudes (negative, zero, positive) and configurations',
  'The doctest only calls the controller; simulations with weight are not compared to anything here.',
  ['arboris/controllers.py'], [('weight controller', 'arboris/controllers.py')],
  'Oracle differentiates total potential energy of point masses numerically.',
  tech='runtime monitoring: virtual-work oracle over random mechanisms'),
P('P14', 'PD controller delivers exactly the documented law on its own joints',
  'For any list of controlled joints, in any order, the controller produces the proportional-derivative force toward the desired position and velocity evaluated at the end of the step, acting on the controlled degrees of freedom only, with gains and targets attributed in the order of the given joints. In a step, applied force equals the gains times the errors at the end of the step. Default gains and targets are zero, and joints without linear coordinates are refused.',
  ['inputs', 'configurations', 'histories'], 'random trees, subsets and permutations of linear joints with mixed sizes, full gain matrices, targets, steps, worlds rebuilt after controller creation',
  'The pd test cannot run here; a doctest shows one scalar gain.',
  ['arboris/controllers.py', CORE], [('PD controller', 'arboris/controllers.py')],
  'Per-dof reference law plus end-of-step force recovery from the observed motion.',
  tech='runtime monitoring: reference control law, end-of-step force monitor'),
P('P15', 'Dynamics do not depend on how the same mechanism is described',
  'Describing the same mechanism differently leaves the simulated motion unchanged: adding branches in another order, moving the reference frame of a body (with mass, attachment frames and shapes re-expressed), inserting fixed joints or massless intermediate bodies, splitting a body into rigidly fixed parts, replacing a compound joint by a chain of elementary ones, renaming, or adding unused frames. Moving and turning the whole mechanism together with gravity-free forces moves and turns the motion.',
  ['inputs', 'configurations', 'histories'], 'pairs of worlds related by a random rewriting, run side by side under the same controllers',
  'No test compares two descriptions of one mechanism.',
  [CORE, JT, 'arboris/massmatrix.py'], [('frames, transport and recursive updates', CORE)],
  'Metamorphic: both runs are executions of the real code.',
  tech='runtime monitoring: metamorphic trace comparison of paired simulations'),
P('P16', 'World bookkeeping: tree, degrees of freedom and name lookups stay coherent',
  'After any sequence of link additions, registrations and initialisations, iteration visits every body, joint, frame, shape, constraint and controller of the world exactly once, bodies and joints in depth-first order, with parent and child links that mirror each other. Initialisation gives the joints contiguous, disjoint index ranges that cover the world velocity vector in that order, keeps velocities, and makes joint velocities live parts of it. Registering twice changes nothing, closing a loop, a malformed link among one or several, or registering a joint is refused without altering the world, and name lookups find exactly the elements bearing the name. Naming all elements keeps the names already given, gives each nameless element one of its own and, when asked to, refuses duplicates among elements of one kind.',
  ['histories', 'configurations'], 'random histories of construction operations including refused ones, repeated initialisation, duplicate and missing names',
  'Doctests build one arm and look up two names.',
  [CORE], [('add_link, register, init, iterators', CORE), ('named lists', CORE)],
  'Shadow model of the tree maintained by the harness and compared after every operation.',
  tech='runtime monitoring: shadow-state monitor over random construction histories'),
P('P17', 'Replacing a joint keeps the rest of the world intact',
  'Replacing a joint by another, or by a chain of joints and bodies between the same two bodies, gives the world one would have obtained by building it that way from the start, in the same sibling position. Everything else is untouched: other joints keep their position, velocity, order and parents, and the old joint is released. Malformed replacements are refused without altering the world. Afterwards indices, kinematics and dynamics are consistent without further action by the user.',
  ['histories', 'configurations'], 'random trees, any joint, replacement by a joint of any type and size or by a chain with extra bodies, repeated replacements',
  'One doctest replaces one hinge by another and checks nothing.',
  [CORE], [('replace_joint', CORE)],
  'Oracle is a freshly built world.',
  tech='runtime monitoring: differential monitor against a freshly built world'),
P('P18', 'Parsing a world visits every element once, parents first',
  'Parsing a world announces the ground first, then reports every link, body, frame, shape, constraint and controller exactly once. A link is reported when its parent frame is already known and its child body is not, each body follows its link, and frames and shapes follow the body or frame that carries them. The world itself is unchanged by being parsed.',
  ['configurations', 'histories'], 'random worlds with subframes, moving subframes, shapes on bodies and frames, constraints and controllers, before and after simulation',
  'No runnable test parses a world.',
  [CORE], [('parse', CORE)],
  'Trace automaton over the recorded callbacks.',
  tech='runtime monitoring: trace-automaton monitor over recorded parse callbacks'),
P('P19', 'Ball-and-socket constraints close loops and pull only along the constraint',
  'In a simulation where ball-and-socket constraints can be satisfied, the distance between each pair of anchor points is driven to zero and kept there, up to an error that vanishes with the time step. The force acts equally and oppositely at the two anchors: it exerts no net force or moment on a floating system. It does no work beyond that of closing the gap, so a consistent start neither gains nor loses energy in the limit of small steps.',
  ['inputs', 'configurations', 'histories'], 'pendulums, closed chains and floating pairs with one or several constraints, initially closed or slightly open, under gravity and initial motion',
  'The stable test holds one body at a fixed point in one configuration.',
  [CO, CORE], [('ball-and-socket constraint', CO), ('constraint solver', CORE)],
  'Loop-closure, action-reaction and energy monitors on simulated traces.',
  tech='runtime monitoring: online closure, momentum and energy monitors on simulations'),
P('P20', 'Joint limits are enforced by one-sided forces and only when reached',
  'With limits on a joint, no coordinate that starts a step within the activation distance of a limit, or beyond it, ends that step outside its limits by more than the solver tolerance allows, whatever pushes it, for one- and multi-coordinate joints. At each step and coordinate the force is zero strictly inside the limits, non-negative at the lower one and non-positive at the upper one; a coordinate that would leave by itself is not held. A start outside the limits is brought back.',
  ['inputs', 'configurations', 'histories'], 'random mechanisms with linear joints of 1 to 3 coordinates, random limits and pushes, both limits reached in the same step, several limited joints',
  'The stable tests push one scalar joint against one limit at a time.',
  [CO, CORE], [('joint limits', CO), ('constraint solver', CORE)],
  'Complementarity monitor on every step; solver tolerance is the documented convergence threshold.',
  tech='runtime monitoring: online complementarity monitor on simulations'),
P('P21', 'Collision distances are the true signed distances between the shapes',
  'For every supported pair of shapes the reported signed distance is the Euclidean distance between the two solids when they are apart, and minus the penetration depth when they overlap, wherever and however oriented the frames that carry them are. It does not depend on the order of the pair nor on a common displacement of both shapes. Pairs that are not supported are refused in both orders, and so are negative radii; a sphere without radius acts as a point, and dimensions which are not given are one.',
  ['inputs', 'configurations'], 'all supported pairs, random sizes and poses, near-touching, touching, overlapping, deep and lateral configurations',
  'Doctests use shapes attached to the ground frame with axis-aligned normals.',
  [COL, 'arboris/shapes.py'], [('collision solvers and their choice', COL)],
  'Oracle: closed-form or projected-point distance computed in the shape frame by the harness.',
  tech='runtime monitoring: geometric reference model over generated shape pairs'),
P('P22', 'Contact frames sit on the two surfaces, aligned with the common normal',
  'The two contact frames reported for a pair of shapes have the same orientation, their z axis is the unit normal pointing from the first shape to the second, and the second frame is the first one moved along that normal by the signed distance. Each origin lies on the surface of its own shape, at the point closest to (or deepest into) the other. All of this is expressed relative to the ground, whatever the pose of the carrying frames. A contact given its own collision solver asks it for its two shapes, in the order they were given, and uses its answer in the same way.',
  ['inputs', 'configurations'], 'all supported pairs, random poses of both carrying frames, separated, touching and overlapping; user-supplied solvers between any shapes',
  'Doctests never turn the carrying frame of a plane or box, nor let a sphere touch or penetrate a plane.',
  [COL], [('collision solvers', COL)],
  'Surface-membership and alignment monitors computed independently of the solver.',
  tech='runtime monitoring: geometric invariants checked on generated shape pairs'),
P('P23', 'A soft-finger contact obeys unilateral contact and the friction ellipsoid',
  'Solving one contact gives no force when the bodies would separate by themselves, otherwise a non-negative normal force that brings the predicted gap to zero. The tangential force and twist moment never exceed the friction coefficient times the normal force; when they are below it the contact does not slip, and when slip occurs they are exactly on that bound and oppose the slip velocities. The reported force change is the one actually applied to the stored force, whatever the previous iterate.',
  ['inputs', 'histories'], 'random contact admittances (well and badly conditioned, mildly asymmetric, rank deficient as those of mechanisms with few degrees of freedom), velocities, gaps, steps, friction coefficients and previous iterates',
  'No runnable test solves a contact.',
  [CO], [('soft-finger solve', CO)],
  'Contact law evaluated on the result of each call; admittances both random and observed in simulations.',
  tech='runtime monitoring: contact-law oracle on direct and in-simulation solver calls'),
P('P24', 'Simulated contacts do not sink, pull, or create energy',
  'In simulations with contacts, bodies do not end a step penetrating by more than the solver tolerance allows, contacts never pull, apply equal and opposite actions on the two bodies, and do not increase mechanical energy beyond the integration error. A contact acts only while the shapes are predicted to be within the activation distance, and a resting body stays at rest inside the friction cone and slides outside of it with the Coulomb deceleration.',
  ['inputs', 'configurations', 'histories'], 'spheres, points and boxes falling, sliding, rolling and stacking on planes, boxes and spheres at any pose, various friction and steps',
  'No runnable test simulates a contact.',
  [CO, CORE, COL], [('point contact update and soft-finger contact', CO), ('constraint solver', CORE)],
  'Step monitors on simulated traces plus analytic slope and sliding cases.',
  tech='runtime monitoring: online contact monitors on simulations, analytic scenarios'),
P('P25', 'Constraint solving is simultaneous, and inactive constraints have no effect',
  'After the constraint phase of a step every enabled, active constraint is satisfied at once by the predicted end-of-step motion, within the documented convergence tolerance. Disabled or inactive constraints leave the motion exactly as if they were absent; enabling them again makes them act from the next step, and the order of registration does not matter beyond the tolerance. The world force is the controllers force plus the active constraint forces, counted once.',
  ['inputs', 'configurations', 'histories'], 'random sets of coupled constraints of all kinds on one mechanism, random enable and disable histories, registration orders',
  'Stable tests register a single constraint.',
  [CORE, CO], [('Gauss-Seidel constraint solver', CORE), ('enable/disable', CORE)],
  'Post-solve monitor evaluates every constraint law at the predicted velocity; paired runs for inactivity.',
  tech='runtime monitoring: post-solve law monitor and paired-run monitor on simulations'),
P('P26', 'Automatic contact generation covers every eligible pair of shapes once',
  'Generating all contacts of a world returns exactly one contact for each unordered pair of registered shapes that belong to different bodies and whose pair has a collision solver, and none for the others. Each contact watches those two shapes, takes the requested parameters, and nothing is registered until the user does so. Registering a contact also registers the frames it moves.',
  ['configurations', 'histories'], 'random worlds with shapes of all kinds on bodies, subframes and the ground, default and custom contact classes',
  'No test generates contacts.',
  [CO, COL, CORE], [('get_all_contacts', CO)],
  'Independent pair enumeration.',
  tech='runtime monitoring: enumeration oracle over random worlds'),
P('P27', 'Mass matrices are those of the solids they describe, and transport correctly',
  'The mass matrix built for a box, ellipsoid, cylinder or sphere is that of the homogeneous solid with its dimensions and mass. Expressing a mass matrix in another frame keeps kinetic energy of every motion, composes, and undoes. The principal frame of any mass matrix is a right-handed frame centred on the centre of mass in which the matrix is diagonal, equal principal moments included. Valid mass matrices are recognised; asymmetric, indefinite or misshaped ones, or ones whose translational masses differ, are refused, by transport and principal frame too.',
  ['inputs'], 'random dimensions and masses over several decades, random displacements, mass distributions with equal and distinct principal moments',
  'Doctests show one value of each, and a principal frame for distinct moments along the axes.',
  ['arboris/massmatrix.py'], [('builders, transport, principalframe, ismassmatrix', 'arboris/massmatrix.py')],
  'Oracle: Gauss quadrature of the solids by the harness, point-mass energies, eigenvalue checks.',
  tech='runtime monitoring: quadrature and energy oracles over generated solids'),
P('P28', 'Recorders return, in order, the state each step started from',
  'Every recorder attached to a simulation yields one entry per step, in order, equal to the quantity it names (frame pose or twist, joint position or velocity, constraint force, distance between shapes, centre of mass position) as it was at the beginning of that step. Entries are snapshots that later steps do not alter, and a recorder used for a second simulation starts afresh. Attaching recorders does not change the motion.',
  ['configurations', 'histories'], 'random mechanisms, all recorders at once, several simulations in a row, irregular time lines',
  'No test runs the recorders.',
  [OBS], [('recorders', OBS)],
  'A shadow log taken by an independent observer during the same run.',
  tech='runtime monitoring: shadow-log comparison during simulations'),
P('P29', 'Simulation logs reproduce the simulated data on disk',
  'Files written by the pickle and HDF5 loggers hold, under the documented names, the time line, joint positions and velocities, transforms and dynamic model of every step with their documented shapes, equal to what the simulation went through, for every choice of what to save. In flat mode the transforms are the absolute poses of bodies and moving frames; otherwise composing the joint transforms along the tree gives the poses of the linked frames. Elements whose names would clash in the file are refused with a duplicate-name error. Both formats hold the same data, logging again replaces what the previous run left in the same place, and logging into a group of an existing file keeps the rest of it.',
  ['configurations', 'histories'], 'random mechanisms, all option combinations, unnamed and duplicate-named elements, moving frames, joints of every size, successive runs',
  'No runnable test writes a log; only transforms would be looked at.',
  [OBS], [('SaveLogger, PickleLogger, Hdf5Logger', OBS)],
  'Files are read back and compared with a shadow log; HDF5 fault: pre-existing groups and data.',
  tech='runtime monitoring: shadow-log comparison with files read back'),
P('P30', 'Energy monitor reports the physical energies at each step',
  'The energy monitor records, at each step, the time, the kinetic energy of all bodies, their gravitational potential energy for standard gravity, and the sum of both as mechanical energy. Bodies without mass are accepted and contribute nothing, the frame in which mass is expressed does not matter, and a new simulation starts new records, which the plot shows over time.',
  ['inputs', 'configurations', 'histories'], 'random mechanisms and mass distributions, several simulations in a row',
  'The doctest only runs it.',
  [OBS, 'arboris/massmatrix.py'], [('EnergyMonitor', OBS)],
  'Point-mass energy oracle during the same run.',
  tech='runtime monitoring: physical-energy oracle during simulations'),
P('P31', 'Centre-of-mass observer gives position, jacobian and its rate',
  'For any group of bodies, the observer gives the mass-weighted centre of mass in the ground frame, the matrix which maps generalized velocities to its velocity in ground axes, and the rate of that matrix along the motion. Bodies without mass are ignored and the result does not depend on the order of the bodies. Returned arrays are the caller\'s own.',
  ['inputs', 'configurations'], 'random mechanisms, random groups of bodies, random states',
  'No test runs it.',
  [OBS], [('CoMObserver', OBS)],
  'Point-mass positions, reference jacobians and finite differences along the flow.',
  tech='runtime monitoring: reference-model comparison over random mechanisms'),
P('P32', 'A simulation runs the documented protocol and is reproducible',
  'Running a simulation initialises the world then every observer, and for each interval of the time line performs dynamic update, controllers, constraints, observers, integration, in this order with the same step, then finishes every observer once; observers, controllers and constraints are taken in the order they were given. The clock reads the beginning of the interval for controllers, constraints and observers, and the last time at the end, whatever clock the world had before. The same world built twice and run twice gives bit-identical motion, and running a time line in two consecutive parts gives the same motion as running it at once. A time line which does not increase is refused at the first step which is not positive.',
  ['configurations', 'histories'], 'random mechanisms, observers given as list, tuple or dict, uniform and irregular time lines, one-point time lines, reuse of worlds',
  'The doctest calls it once without looking at anything.',
  [CORE], [('simulate', CORE)],
  'Event log of hooked world, controller, constraint and observer calls checked by an automaton; bit-wise replay.',
  tech='runtime monitoring: event-order automaton on hooked calls, replay comparison'),
P('P33', 'Looking at a world never changes it',
  'Reading poses, twists, jacobians, names, lists or model matrices that are handed out as the caller\'s own, running geometric or dynamic updates again, generating contacts, parsing or drawing a world do not change its state or its future motion. Repeated updates give identical results, and the poses, twists and jacobians read from frames and joints keep their values when the world moves on. Arrays given when creating frames, joints, planes, joint limits and PD controllers, and poses assigned to a moving frame, can be reused by the caller without affecting the world or another frame, and simulating does not write in them.',
  ['histories', 'configurations'], 'random worlds and random histories of queries and updates interleaved with simulation, with in-place modification of given and returned arrays',
  'Aliasing is invisible to tests which look at values once.',
  [CORE, JT, 'arboris/shapes.py'], [('accessors that return copies, subframe poses', CORE)],
  'State digests before and after, paired runs with and without queries.',
  tech='runtime monitoring: state-digest mutation monitor and paired runs'),
P('P34', 'Ready-made mechanisms have the requested structure, geometry and mass',
  'The simple arm, the snake and the primitive bodies are built with the requested number of links, joint types, lengths, masses, names and shapes: at rest the arm and snake are straight with each joint one link length after the previous one, total mass is the sum of the given masses (a floating snake adds a base as heavy as its first link), and inertia is that of the homogeneous solid at its place. Initial positions and velocities are honoured, inconsistent sizes are refused. They can be added several times to one world, without disturbing what is there, and then move as each would alone.',
  ['inputs', 'configurations'], 'random lengths, masses, numbers of links, shapes toggled, repeated additions',
  'Doctests build each mechanism once with default sizes.',
  ['arboris/robots/simplearm.py', 'arboris/robots/snake.py', 'arboris/robots/simpleshapes.py'], [('factories', 'arboris/robots')],
  'Observed kinematics and dynamics compared with harness-built expectations.',
  tech='runtime monitoring: reference-model comparison over generated parameters'),
P('P35', 'Human model scales with height and mass and is left-right symmetric',
  'For every height and mass, the human model has the requested total mass, the segment lengths and landmarks derived from the height (those of the HuMAnS reference at its size), and heights and lengths convert back and forth. It is symmetric: mirrored postures, and exchanged left and right lengths, give mirrored poses, landmarks and centres of mass, and mirrored inertia and kinetic energy but for the two hands, whose reference data differ. Inertia scales with mass and squared length. Given lengths are honoured, legs of different lengths are refused, names are prefixed consistently, several humans can share a world, and all inertias are physically valid.',
  ['inputs', 'configurations'], 'heights and masses over the human range and beyond, custom lengths, prefixes, mirrored random postures and velocities',
  'The stable test checks one height; symmetry and mass are not looked at.',
  ['arboris/robots/human36.py'], [('human36 factory', 'arboris/robots/human36.py')],
  'Metamorphic scaling and mirror monitors, mass bookkeeping.',
  tech='runtime monitoring: metamorphic scaling and mirror monitors'),
P('P36', 'iCub model is consistent with its own data in every variant',
  'For every combination of floating or fixed base, with or without shapes and contacts, the iCub model contains the joints, bodies, shapes and contact frames of its published tables, and its kinematics and inertia are the same in all variants. The fixed variant is the floating one with the base held. Left and right limbs mirror each other in pose, inertia and energy when their hinges have the same positions. Limit tables give every hinge a non-empty interval and a torque, the same on both sides, in degrees or radians; bodies have valid inertia; returned tables are the caller\'s own.',
  ['configurations', 'inputs'], 'all option combinations, random postures and velocities',
  'No test builds the model.',
  ['arboris/robots/icub.py'], [('icub factory and data tables', 'arboris/robots/icub.py')],
  'Cross-variant differential and mirror monitors.',
  tech='runtime monitoring: cross-variant differential and mirror monitors'),
P('P37', 'Drawn scenes place every element where it is',
  'Drawing a world creates, in flat or hierarchical form, one node for each linked frame, body, subframe and moving frame, such that composing transforms from the root gives the pose of that element, and attaches every shape and massive body inertia to the node of the frame that carries it with its dimensions and name. Moving elements are marked as non-constant and fixed offsets as constant. Colours: an element uses its own colour if one was set on it or its name, otherwise that of its body, and colour conversion covers the whole hue range. The sizes of drawn symbols are proportional to the scale.',
  ['configurations', 'inputs'], 'random worlds and postures, flat and hierarchical, colour maps by object or name, all hues',
  'The drawing tests need a viewer that is not available.',
  ['arboris/visu/world_drawer.py', CORE], [('Drawer, ColorGenerator, hsv_to_rgb', 'arboris/visu/world_drawer.py')],
  'A recording driver stands in for the graphic back-end; scene tree evaluated by the harness.',
  tech='runtime monitoring: recording back-end and scene-graph evaluation'),
P('P38', 'A robot read from URDF becomes the mechanism the file describes',
  'Loading a URDF robot in a world adds one body per link and one joint per URDF joint plus the root joint, with the given prefix and suffix, each joint (fixed, revolute or prismatic) linking the bodies it names about or along the axis of the file at the origin of the file, so that every link is where the file puts it for every joint position, at the initial pose and base type requested. Masses and inertias are those of the file (none when the link has none), so the kinetic energy is that of the described bodies. Collision shapes have the described type, size and place. Joint limits are those given, enforced as joint limits unless declined, and reported with efforts, velocities and shape tables under the names used in the world. Several robots can be loaded, what was in the world stays, and files which are not a tree of known joints are refused.',
  ['inputs', 'configurations'], 'random robot trees with every optional element present or left out, several spellings, all options, several robots in a world, random joint positions and velocities',
  'No stable test loads a robot.',
  ['arboris/robots/urdf/__init__.py', 'arboris/robots/urdf/urdf_parser.py'], [('URDFConverter', 'arboris/robots/urdf/__init__.py')],
  'The generator keeps the described robot; its own kinematics, mass and energy are compared with the world.',
  tech='runtime monitoring: reference-model comparison over generated robot descriptions'),
P('P39', 'URDF descriptions survive reading and writing',
  'Reading a URDF text gives exactly the elements written in it, whatever the order, the spacing and the optional parts left out; writing it gives well-formed XML which reads back as the same robot, with its elements in the same order, and so does a robot built by hand. Unknown elements are reported and skipped. Parents, children, the root and the chain between two links, with or without joints, links and fixed joints, follow the tree; a robot without a unique root has no root. Robots are independent of each other.',
  ['inputs'], 'random robots with all joint types and optional elements, shuffled and reformatted texts, unknown elements, hand-built objects',
  'No test of the parser runs.',
  ['arboris/robots/urdf/urdf_parser.py'], [('URDF parser and writer', 'arboris/robots/urdf/urdf_parser.py')],
  'Contents compared as plain values with the generated robot, before and after writing.',
  tech='runtime monitoring: round-trip monitor with generated contents as oracle'),
P('P40', 'COLLADA files show the world as it is and as it moved',
  'A scene written from a world, flat or hierarchical, by either writer, is a consistent COLLADA document (unique names, no dangling reference) in which every named frame, shape, massive body inertia, frame arrows and link line is where it is in the world at that moment with its dimensions, colour (its own for each body when none is asked) and the requested options, and writing it leaves the world as it was. A simulation recorded in HDF5 or pickle form and combined with the scene gives an animation in which, at each recorded time, every frame of the scene is where it was in the simulation, to the requested precision. Shapes of other files added to nodes appear there with their displacement and scale, the rest of the scene being kept, and unknown nodes or shapes are reported and skipped.',
  ['inputs', 'configurations', 'histories'], 'random worlds, postures, options, colours and simulations; random lists of added shapes',
  'The writers need packages which the tests do not use.',
  ['arboris/visu/dae_writer.py', 'arboris/visu/visu_collada.py', 'arboris/visu/world_drawer.py'], [('COLLADA drivers, animations, added shapes', 'arboris/visu/dae_writer.py'), ('daenim driver', 'arboris/visu/visu_collada.py')],
  'An independent reader of the written files evaluates the scene graph; the web viewer package is absent and replaced by a recording stand-in.',
  tech='runtime monitoring: written files evaluated by an independent reader against the world'),
P('P41', 'Viewers follow the simulation and never disturb it',
  'A simulation streamed to a viewer, over a socket or a web socket, sends at each step one transform for every frame the viewer has to move, so that the scene given to the viewer, moved as told, shows every frame where it is; the stream is closed at the end. A viewer which is missing, never connects, is slow or leaves, and a port already taken, do not stop the simulation nor change its motion, and are reported. Programs showing a world or a recorded simulation are given the right scene or animation and options, and nothing is left behind. The performance monitor accounts for, and plots, every step.',
  ['configurations', 'histories', 'faults'], 'random mechanisms and time lines, flat and hierarchical, viewers which stay, are slow, leave, never come or do not exist, busy ports',
  'No test opens a socket.',
  ['arboris/visu/visu_collada.py', 'arboris/visu/__init__.py', OBS], [('DaenimCom, view', 'arboris/visu/visu_collada.py'), ('pydaenimCom, view', 'arboris/visu/__init__.py'), ('SocketCom, PerfMonitor', OBS)],
  'Real loopback sockets and viewer processes with injected faults; the web socket package is absent and replaced by a recording stand-in.',
  tech='runtime monitoring: recorded streams replayed on the written scene, injected viewer faults'),
]
