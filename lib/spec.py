"""Source of properties.jsonl and MANIFEST.json (python3 lib/spec.py rewrites both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
T = "The 43 existing tests exercise only string helpers and a few Rational literals; "

def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  technique=technique, note=note))

prop("C01", "Text utilities split, trim, parse and count exactly",
     "Splitting a non-empty string at a delimiter yields exactly the pieces between delimiters, empty ones included (joining them restores the text); splitting at the last occurrence of a character, trimming and removing whitespace, trimming a trailing character and zero-padding do exactly that and nothing else; lists of scalars (infinities included) read from text succeed exactly when the count matches and every item starts with a number, and printed numbers and saved strings read back unchanged.",
     ["inputs"], "for every string, delimiter, number and width", "The tests sample a handful of literals; the statement is over all strings and numbers, including empty pieces, embedded signs, extreme values and trailing garbage.",
     ["scisim/StringUtilities.h", "scisim/StringUtilities.cpp"], [("tokenize / trim / extractFromString / computeNumDigits", "scisim/StringUtilities.cpp")],
     ["return values of the string helpers"], "property-based testing against independent reference implementations",
     "Generated strings biased to delimiters, whitespace, signs and extreme numbers, compared with reference implementations written from the statement.")
prop("C02", "Rational time steps are exact, canonical and consistent with text",
     "A rational built from a numerator and denominator or parsed from decimal or fraction text denotes exactly that number in lowest terms with a positive denominator; arithmetic, comparison, integrality and conversion agree with exact arithmetic, text that is not a rational (or has a zero denominator) is rejected, and saving and loading returns the same value.",
     ["inputs"], "for every numerator, denominator, operand pair and text within the 64-bit range", "The tests fix a few literals; sign, reduction and malformed text combinations are unbounded.",
     ["scisim/Math/Rational.h"], [("gcd reduction and text parser", "scisim/Math/Rational.h")],
     ["Rational API"], "property-based testing against exact 128-bit reference arithmetic",
     "Values are bounded so that the exact reference fits in 128 bits; overflow behaviour is outside the claim.")
prop("C03", "Saving an object to a binary stream and loading it restores it exactly",
     "For every object the simulators save in snapshots (numbers, strings, rationals, dense and sparse matrices, shapes, planes, portals, forces, integrators, solvers, impact and friction maps, cached impulses, and whole simulation states), loading what was saved yields an object that behaves identically and, saved again, produces the same bytes, while consuming exactly the bytes that were written.",
     ["inputs", "configurations"], "for every reachable value and configuration of those objects", T + "no test serializes anything.",
     ["scisim/Utilities.h", "scisim/Math/MathUtilities.cpp", "ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DState.cpp"],
     [("serialize/deserialize pairs and name dispatch", "ball2d/Ball2DUtilities.cpp, scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp, */…State.cpp")],
     ["byte streams, public accessors, subsequent steps"], "property-based round-trip testing (save, load, save, compare and step)",
     "Objects are generated over their whole configuration space; loaded objects are compared by bytes and by subsequent behaviour.")
prop("C04", "A resumed simulation continues bit-identically",
     "Resuming a command line run from any of its snapshots produces, for every later frame, exactly the same bytes of snapshot, configuration and force files, under the same names, as the uninterrupted run; running the same scene twice gives identical files.",
     ["crash_points", "histories", "configurations"], "for every scene, solver configuration and snapshot at which the run stops", T + "no test runs a simulation.",
     ["ball2dcli/ball2d_cli.cpp", "rigidbody2dcli/rigidbody2d_cli.cpp", "rigidbody3dcli/rigidbody3d_cli.cpp", "scisim/ConstrainedMaps/ImpactFrictionMap.cpp"],
     [("serializeSystem/deserializeSystem", "*cli/*_cli.cpp"), ("cached impulses saved with the state", "*/…Sim.cpp, */ConstraintCache.cpp")],
     ["serial_*.bin and config_*.h5 of the command line programs"], "model-free differential testing: generated scenes, the run is cut at generated snapshots and resumed, outputs compared byte for byte",
     "Runs the real command line programs in a scratch directory on generated scenes.")
prop("C05", "Swept ball collision detection is exact",
     "For two balls moving linearly over a step, the swept test reports a collision exactly when they start in contact or their centers come within the sum of their radii at some time of the step, and the reported time is the first such time; no pair is missed however fast it moves, and separating or grazing-miss motions are not reported.",
     ["inputs"], "for every pair of start and end positions and radii", T + "no test covers collision detection.",
     ["scisim/CollisionDetection/CollisionDetectionUtilities.cpp", "scisim/CollisionDetection/CollisionDetectionUtilities.h"],
     [("ballBallCCDCollisionHappens quadratic first root", "scisim/CollisionDetection/CollisionDetectionUtilities.cpp")], ["boolean and time returned"],
     "property-based testing against a long-double geometric oracle with a boundary band", "A relative band around exact grazing is not judged.")
prop("C06", "The broad phase loses no overlapping pair",
     "The uniform-grid broad phase reports every pair of axis-aligned boxes that overlap (touching counts), reports only pairs that do overlap, each once as two distinct indices in increasing order, never pairs a box with itself, and finds exactly the boxes overlapping a query set, in two and three dimensions, for any number, size and placement of boxes.",
     ["inputs"], "for every finite set of boxes", T + "no test covers the broad phase.",
     ["ball2d/SpatialGridDetector.cpp", "rigidbody2d/SpatialGrid.cpp", "rigidbody3d/SpatialGridDetector.cpp"], [("grid rasterisation and overlap filter", "*/SpatialGrid*.cpp")],
     ["returned pair sets"], "property-based testing against brute-force enumeration", "Box sets biased to touching, degenerate, duplicate and cell-aligned placements.")
prop("C07", "2D ball contacts: exactly the touching pairs and objects become active",
     "In the ball simulator a step's active set contains exactly one contact per pair of balls that meets during the step and per ball touching a static plane or lying against the inside of a static drum at the end of the step, with the right bodies, unit normal, contact point and penetration depth, and nothing else; balls that do not touch get no contact.",
     ["inputs", "configurations"], "for every start and end configuration of every set of balls, planes and drums", T + "no test builds a simulation.",
     ["ball2d/Ball2DSim.cpp", "ball2d/Constraints"], [("computeActiveSet", "ball2d/Ball2DSim.cpp")], ["active set returned for (q0,q1)"],
     "property-based testing against an all-pairs oracle with boundary bands", "Near-touching configurations within a relative band are not judged.")
prop("C08", "2D rigid body contacts: exactly the touching geometry becomes active",
     "In the 2D rigid body simulator a step's active set contains a contact for each pair of bodies (circle-circle, circle-box, box-box) and each body-plane combination that touches, with the right bodies, a unit normal separating them, contact points on the contacting geometry and correct penetration depth, and no contact for geometry that is apart or for two bodies that are both kinematically scripted.",
     ["inputs", "configurations"], "for every configuration of circles, boxes and planes", T + "no test builds a simulation.",
     ["rigidbody2d/RigidBody2DSim.cpp", "rigidbody2d/BoxBoxTools.cpp", "rigidbody2d/CircleBoxTools.cpp", "rigidbody2d/BodyBodyConstraint.cpp", "rigidbody2d/StaticPlaneBodyConstraint.cpp"], [("computeActiveSet", "rigidbody2d/RigidBody2DSim.cpp")], ["active set returned for (q0,q1)"],
     "property-based testing against an independent geometric oracle with boundary bands", "Separation is decided by an independent separating-axis test; a relative band is not judged.")
prop("C09", "3D rigid body contacts: exactly the touching geometry becomes active",
     "In the 3D rigid body simulator the contacts generated for a configuration are exactly those of the touching pairs (sphere-sphere, box-box, mesh-mesh) and of bodies touching static planes and cylinders, with the right bodies, unit normals that separate the bodies, contact points on the contacting geometry and correct penetration depth, and none for geometry that is apart or for two immovable bodies.",
     ["inputs", "configurations"], "for every configuration of supported bodies and static geometry", T + "no test builds a simulation.",
     ["rigidbody3d/RigidBody3DSim.cpp", "rigidbody3d/Geometry", "rigidbody3d/Constraints", "rigidbody3d/StaticGeometry"], [("computeActiveSet", "rigidbody3d/RigidBody3DSim.cpp")], ["active set returned for (q0,q1)"],
     "property-based testing against an independent geometric oracle with boundary bands", "Mesh contacts are judged against the mesh's own distance field on analytic shapes; box-box pairs whose best edge axis is within 5% of a face axis may use either.")
prop("C10", "Contact kinematics are mutually consistent",
     "For every contact type the relative contact velocity, its normal component, the contact Jacobian, the normal constraint gradient, the contact frame and the moment arms describe the same physics: the frame is orthonormal with the normal first, each representation predicts the same relative velocity of the touching material points (including moving obstacles), and the normal gradient is the derivative of the gap.",
     ["inputs"], "for every contact of every type at every configuration and velocity", T + "no contact type is instantiated.",
     ["scisim/Constraints/Constraint.cpp", "ball2d/Constraints", "rigidbody2d", "rigidbody3d/Constraints", "rigidbody3d/StaticGeometry"],
     [("evalNdotV / computeRelativeVelocity / evalgradg / evalH / computeBasis", "ball2d/Constraints/*.cpp, rigidbody2d/*Constraint.cpp, rigidbody3d/Constraints/*.cpp")], ["constraint interface"],
     "property-based testing of consistency relations and finite differences", "All concrete contact types are built directly with generated parameters.")
prop("C11", "Impact resolution leaves no approaching contact and only pushes",
     "For any velocities and any set of frictionless contacts, every impact operator returns non-negative impulses that change velocities only along the contacts' own normals and leave no contact approaching beyond the solver tolerance. For the LCP operator every contact ends at least at minus the restitution times its approach velocity, and pushes only if it ends exactly there; Gauss-Seidel and GR end with every contact non-approaching within their tolerance; the GRR operator returns exactly the restitution-weighted blend of the inelastic and the elastic response.",
     ["inputs", "configurations"], "for every set of contacts, masses, restitution, velocities and operator", T + "no impact is ever resolved.",
     ["scisim/ConstrainedMaps/ImpactMaps", "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.cpp", "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp", "scisim/ConstrainedMaps/ImpactMaps/GROperator.cpp", "scisim/ConstrainedMaps/ImpactMaps/GRROperator.cpp"],
     [("ImpactOperator::flow", "scisim/ConstrainedMaps/ImpactMaps/*.cpp")], ["impulses and post-impact velocities"],
     "property-based testing of the complementarity conditions on generated contact networks", "Judged at the tolerances the operators are given; iteration caps are set high enough to converge.")
prop("C12", "Collisions conserve momentum and never create energy",
     "Across an impact step among free bodies with restitution in [0,1], total linear and angular momentum are unchanged and kinetic energy does not increase (it is unchanged for a single elastic impact, and an isolated pair separates with exactly the restitution times its approach speed).",
     ["inputs", "histories", "configurations"], "for every system of bodies, contacts and restitution coefficient", T + "no simulation step is run.",
     ["scisim/ConstrainedMaps/ImpactMaps/ImpactMap.cpp", "ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody3d/RigidBody3DSim.cpp"],
     [("ImpactMap::flow", "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.cpp")], ["momentum and energy accessors before and after a step"],
     "property-based testing of conservation laws over whole simulation steps", "Gauss-Seidel, LCP, GR and GRR operators on all three simulators.")
prop("C13", "Friction obeys Coulomb's law and only dissipates",
     "After a step with friction every contact's normal impulse is non-negative, its friction impulse is no larger than the friction coefficient times the normal impulse, opposes the sliding direction when the contact slides and reaches that bound, contacts do not end up approaching, kinetic energy is not increased by zero-restitution contact, and momentum among free bodies is conserved.",
     ["inputs", "configurations"], "for every contact network, coefficient, map and solver", T + "no friction solve is run.",
     ["scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp", "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp", "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.cpp", "scisim/ConstrainedMaps/StaggeredProjections.cpp", "scisim/ConstrainedMaps/Sobogus.cpp"],
     [("ImpactFrictionMap::flow and the friction solvers", "scisim/ConstrainedMaps/*.cpp")], ["impulses and velocities after a step"],
     "property-based testing of Coulomb conditions on generated contact systems", "The third-party So-bogus block solver is replaced by an exact stand-in; the glue is the repository's.")
prop("C14", "2D integrators reproduce the exact discrete laws of motion",
     "One unconstrained step of each 2D integrator advances positions and velocities by its published update (symplectic Euler or velocity Verlet) for all bodies and forces, is exact for free flight and constant gravity as far as the scheme allows, velocity Verlet is time reversible, and kinematically scripted rigid bodies are not moved by it.",
     ["inputs", "histories"], "for every state, force set and step size", T + "no integrator is called.",
     ["ball2d/SymplecticEulerMap.cpp", "ball2d/VerletMap.cpp", "rigidbody2d/SymplecticEulerMap.cpp", "rigidbody2d/VerletMap.cpp"], [("flow", "*/…Map.cpp")], ["state after a step"],
     "property-based testing against independent reference integrators and reversibility", "Reference updates recomputed from the forces evaluated independently.")
prop("C15", "3D rotational integrators conserve momentum and keep rotations rigid",
     "In free flight every 3D integrator moves centers of mass in straight lines, keeps every orientation a proper rotation, leaves linear momentum unchanged, and the momentum-conserving ones leave each body's spatial angular momentum unchanged with energy that does not drift beyond the scheme's order; results converge to the exact rotation as the step shrinks, and fixed bodies stay put.",
     ["inputs", "histories"], "for every inertia, orientation, angular velocity and step size the scheme supports", T + "no integrator is called.",
     ["rigidbody3d/UnconstrainedMaps"], [("SplitHamMap, DMVMap, ExponentialEulerMap", "rigidbody3d/UnconstrainedMaps/*.cpp")], ["state after a step"],
     "property-based testing of conservation laws plus convergence to a fine-step reference", "Step sizes limited to the schemes' solvability range (less than 0.6 rad per step for DMV).")
prop("C16", "Forces are the negative gradient of their potential and obey Newton's third law",
     "Every force model's generalized force equals the negative derivative of the potential energy it reports, is accumulated onto what was there, exerts no net force or torque when it is internal, vanishes when geometry is apart, and gravity gives every free body the same acceleration.",
     ["inputs"], "for every state and force parameter", T + "no force is evaluated.",
     ["ball2d/Forces", "rigidbody2d/NearEarthGravityForce.cpp", "rigidbody3d/Forces"], [("computeForce / computePotential", "*/Forces/*.cpp")], ["force and potential values"],
     "property-based testing with finite differences and symmetry relations", "Finite differences away from non-smooth points.")
prop("C17", "Mass properties match the geometry",
     "The mass, center of mass, moment of inertia and principal axes that the simulators derive from a shape and density equal the exact integrals over that shape, scale with density and size as they must, and the mass matrix and its inverse used by a simulation are consistent with them in every orientation.",
     ["inputs"], "for every shape, size, density and orientation", T + "no mass property is computed.",
     ["rigidbody2d/BoxGeometry.cpp", "rigidbody2d/CircleGeometry.cpp", "rigidbody3d/Geometry", "rigidbody3d/Geometry/MomentTools.cpp", "rigidbody3d/RigidBody3DState.cpp"], [("computeMassAndInertia / MomentTools", "rigidbody3d/Geometry/*.cpp")], ["mass, inertia, M and Minv"],
     "property-based testing against closed-form and numerically integrated references", "Meshes are generated polyhedra with known integrals.")
prop("C18", "Portals carry bodies through without loss",
     "A body whose center passes through a portal plane re-enters at the matching offset behind the partner plane, with its velocity unchanged except for the shear velocity of a moving portal, exactly as if space were periodic; bodies that do not cross are untouched, travelling through and back restores the position, and the shear offset stays within its bounds and follows the elapsed time.",
     ["inputs", "histories"], "for every portal pair, position, velocity and time", T + "no portal is built.",
     ["ball2d/Portals", "rigidbody2d/PlanarPortal.cpp", "rigidbody3d/Portals"], [("teleportPoint / teleportBall / updateMovingPortals", "ball2d/Portals/PlanarPortal.cpp, rigidbody2d/PlanarPortal.cpp")], ["teleported positions and velocities, state after a step"],
     "property-based testing against an unwrapped-space model", "Step displacements smaller than the domain, as the simulators assume; 3D portals are axis-aligned opposing pairs, the only ones its scene format allows.")
prop("C19", "Contacts through a portal equal contacts in unwrapped space",
     "Two bodies that touch across a portal get the same contact - normal, contact point, penetration and relative velocity including the shear velocity - as in the equivalent space in which one is moved next to the other, each such contact is generated once, and bodies not near a portal are unaffected by its presence.",
     ["inputs", "configurations"], "for every portal pair and body placement", T + "no portal is built.",
     ["ball2d/Ball2DSim.cpp", "ball2d/Constraints/KinematicKickBallBallConstraint.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody2d/TeleportedCircleCircleConstraint.cpp", "rigidbody2d/KinematicKickCircleCircleConstraint.cpp", "rigidbody3d/RigidBody3DSim.cpp", "rigidbody3d/Constraints/TeleportedSphereSphereConstraint.cpp"], [("teleported collision detection", "ball2d/Ball2DSim.cpp, rigidbody2d/RigidBody2DSim.cpp")], ["active set"],
     "metamorphic testing: wrapped scene against its unwrapped equivalent", "One or two static portal pairs or one shearing pair; axis-aligned opposing pairs in 3D. A contact is required where a body of the pair overlaps a portal plane.")
prop("C20", "Cached contact impulses return to their own contact",
     "An impulse cached for a contact is returned in the next step for the contact between the same bodies or body and obstacle and for no other, zero is returned for a new contact, warm starting changes the converged answer by no more than the solver tolerance, the cache survives saving and loading, and a step map whose cached data is reset is as a newly made one.",
     ["histories", "inputs"], "for every sequence of contact sets", T + "no cache is used.",
     ["scisim/Constraints/ConstrainedSystem.h", "ball2d/ConstraintCache.cpp", "rigidbody2d/ConstraintCache.cpp", "rigidbody3d/ConstraintCache.cpp"], [("ConstraintCache", "*/ConstraintCache.cpp")], ["cached impulse queries"],
     "stateful model-based testing against a map keyed by contact identity", "Contact types the caches declare support for.")
prop("C21", "Immovable bodies and static obstacles never move on their own",
     "A fixed or scripted body is never displaced or accelerated by forces, impacts or friction, acts on others as an infinitely heavy object moving with its prescribed velocity, and static obstacles change only as prescribed; other bodies in the scene respond exactly as to an infinite mass.",
     ["histories", "configurations"], "for every scene with fixed bodies and any number of steps", T + "no simulation step is run.",
     ["rigidbody2d/RigidBody2DSim.cpp", "rigidbody3d/RigidBody3DSim.cpp", "rigidbody2d/KinematicObjectCircleConstraint.cpp", "rigidbody3d/Constraints"], [("kinematic flags in maps and constraints", "*/…Map.cpp, */…Kinematic*Constraint.cpp")], ["state after steps"],
     "property-based testing over multi-step histories with an infinite-mass limit comparison", "")
prop("C22", "Adding and removing bodies keeps the simulation consistent",
     "After any sequence of adding and removing bodies, geometry and obstacles, the remaining bodies keep their positions, velocities, masses, shapes and flags, the counts and matrices agree with the list of bodies, and later steps behave as if the surviving scene had been built directly.",
     ["histories"], "for every sequence of additions and removals interleaved with steps", T + "no test edits a scene.",
     ["ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DState.cpp"], [("pushBallBack / addBody / removeBodies / removeGeometry / addGeometry", "*/…State.cpp")], ["state accessors and steps"],
     "stateful model-based testing against a list model", "")
prop("C23", "Geometric queries return true closest points, distances and bounds",
     "Closest points between points, segments and boxes, signed distances to meshes, collision tests between primitive shapes and bounding boxes return the true extremal values of the geometry: reported points lie on the shapes, no other pair is closer, and bounding boxes contain the whole shape without exceeding its extent.",
     ["inputs"], "for every placement of the primitives, including degenerate and parallel ones", T + "no geometric routine is called.",
     ["scisim/CollisionDetection", "rigidbody3d/Geometry", "rigidbody2d/BoxBoxTools.cpp", "rigidbody2d/CircleBoxTools.cpp", "rigidbody3d/Constraints/CollisionUtilities.cpp", "rigidbody3d/Constraints/BoxBoxUtilities.cpp", "rigidbody3d/Constraints/StapleStapleUtilities.cpp"], [("closest point and bounding box routines", "scisim/CollisionDetection/CollisionDetectionUtilities.cpp, */Geometry")], ["returned points and boxes"],
     "property-based testing against optimality conditions and dense sampling", "")
prop("C24", "A scene file produces exactly the simulation it describes",
     "Every well-formed scene file produces a simulation whose bodies, velocities, masses, shapes, flags, obstacles, portals, forces, boundary, integrator, time step, end time, impact and friction solver, their settings, and camera and renderer settings are exactly those written, in the order written, with the parsers' fixed defaults for what is left out, however the file is laid out (white space, line breaks, comments, order of attributes).",
     ["inputs", "configurations"], "for every well-formed scene description", T + "no scene is parsed.",
     ["ball2dutils/Ball2DSceneParser.cpp", "rigidbody2dutils/RigidBody2DSceneParser.cpp", "rigidbody3dutils/RigidBody3DSceneParser.cpp"], [("parseXMLSceneFile", "*utils/*SceneParser.cpp")], ["parsed simulation state and settings"],
     "property-based testing: generated scene models are printed as XML, parsed and compared with the model", "The XML library is the repository's bundled one where present, otherwise a stand-in.")
prop("C25", "Malformed scenes are rejected, never misread",
     "A scene that is truncated, misses a required element or attribute, or gives an attribute a value that does not start with a number or text of the required kind, has the wrong count, or lies outside the range the attribute documents (sizes, masses, time steps, restitution in [0,1], friction, tolerances, iteration counts, indices of bodies, planes and geometry) is reported as an error (failure result or non-zero exit) instead of being simulated with made-up values, and no damaged file makes a parser crash or hang.",
     ["inputs", "fault_sequences"], "for every mutation of every scene", T + "no scene is parsed.",
     ["ball2dutils/Ball2DSceneParser.cpp", "rigidbody2dutils/RigidBody2DSceneParser.cpp", "rigidbody3dutils/RigidBody3DSceneParser.cpp"], [("attribute validation", "*utils/*SceneParser.cpp")], ["parser result"],
     "structured mutation fuzzing of generated scenes with an acceptance oracle", "By the code's convention characters after a valid number are ignored and are not judged; damaged bytes are judged for crashes and hangs only.")
prop("C26", "Output files record exactly the simulated state",
     "Every configuration and force file written by the simulators contains, for every body, obstacle and contact, exactly the values of the simulation at that moment (positions, velocities, masses, shapes, time, iteration, contact points, normals and forces), with consistent sizes and index conventions.",
     ["inputs", "histories"], "for every state and contact set", T + "no output file is written.",
     ["ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody3d/RigidBody3DSim.cpp", "rigidbody2d/StateOutput.cpp", "rigidbody3d/StateOutput.cpp", "scisim/ConstrainedMaps/ImpactFrictionMap.cpp", "scisim/HDF5File.cpp"], [("writeBinaryState / exportForcesNextStep", "*/…Sim.cpp, */StateOutput.cpp")], ["HDF5 members"],
     "property-based testing: written members compared with the live state", "The HDF5 library is replaced by a recording stand-in.")
prop("C27", "The command line programs step and save at exactly the requested times",
     "A run advances by exactly the scene's time step until the requested (or the scene's) end time and writes configuration, force and snapshot files for exactly the frames implied by the output frequency, first and last included, with consecutive, uniformly padded names and exactly the content that stepping the same scene through the library gives; bad requests (no scene or two, a missing or malformed scene or one without an integrator, unknown options, bad end times, frequencies or switches, a frequency that does not divide the time step, force output without a directory, an unwritable output directory or snapshot, a snapshot that is missing or not one) end with a non-zero exit and no output.",
     ["configurations", "inputs"], "for every combination of time step, end time, frequency and options", T + "no program is run.",
     ["ball2dcli/ball2d_cli.cpp", "rigidbody2dcli/rigidbody2d_cli.cpp", "rigidbody3dcli/rigidbody3d_cli.cpp"], [("executeSimLoop / parseCommandLineOptions", "*cli/*_cli.cpp")], ["files written and exit codes"],
     "property-based testing of the programs against a reference that steps the same scene through the library", "Runs the real command line programs in a scratch directory; HDF5 is a file-writing stand-in.")
prop("C28", "Linear algebra helpers compute what their names say",
     "The dense and sparse matrix helpers (2D cross products, digit counts, square, identity and symmetry tests, column extraction, orthonormal frame tests and quadratic forms) agree with their mathematical definition on every matrix, including empty, rectangular and structurally incomplete ones.",
     ["inputs"], "for every matrix and vector of admissible size", T + "none covers matrices.",
     ["scisim/Math/MathUtilities.cpp", "scisim/Math/MathUtilities.h"], [("MathUtilities", "scisim/Math/MathUtilities.cpp")], ["return values"],
     "property-based testing against dense reference definitions", "")
prop("C29", "The non-negative quadratic program solver returns optimal points",
     "For every positive semidefinite quadratic program over the non-negative orthant, the accelerated projected gradient solver returns a non-negative point that satisfies the optimality conditions to the requested tolerance when it reports success, reports the achieved error truthfully, respects its iteration budget, and never loops forever or returns undefined values.",
     ["inputs"], "for every matrix, right-hand side, bounds and starting point", T + "no solver is called.",
     ["scisim/Math/QPSolvers", "scisim/ConstrainedMaps/QPTerminationOperator.cpp", "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.cpp"], [("APGD projected solver", "scisim/Math/QPSolvers")], ["returned point, error and iteration count"],
     "property-based testing of optimality conditions", "")
prop("C30", "Physics does not depend on the coordinate frame",
     "Translating or rotating a whole scene (bodies, obstacles, gravity) transforms the simulated result by the same transformation, so does adding a constant velocity to everything in scenes of round bodies, and reordering the bodies only reorders the result.",
     ["inputs", "histories"], "for every scene and rigid transformation", T + "no simulation is run.",
     ["ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody3d/RigidBody3DSim.cpp"], [("whole step pipeline", "*/…Sim.cpp")], ["state after a step"],
     "metamorphic testing: transformed scene against transformed result", "Configurations near detection thresholds are not judged.")
prop("C31", "Copies of a simulation are independent and runs are deterministic",
     "Copying, assigning, or swapping a simulation state gives an independent object: stepping or editing one never changes the other, the copy then evolves exactly like the original, and repeating the same steps from the same state gives identical bytes.",
     ["histories"], "for every state and every interleaving of steps and edits on copies", T + "no state is copied.",
     ["ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DState.cpp"], [("copy constructors and clone methods", "*/…State.cpp, */Geometry, */Forces")], ["serialized bytes"],
     "stateful testing of interleaved operations on copies", "")
prop("C32", "The simulation boundary stops a 3D run exactly when a body leaves it",
     "With the exit behaviour, a 3D simulation ends the process with a failure in exactly the first step after which the axis-aligned extent of some body reaches beyond the boundary box; while all bodies stay inside, and always without the exit behaviour, the boundary changes nothing about the motion.",
     ["inputs", "histories"], "for every scene, step kind and boundary box", T + "no simulation step is run.",
     ["rigidbody3d/RigidBody3DSim.cpp", "rigidbody3d/RigidBody3DState.cpp"], [("treatSimulationBoundary / runBoundaryExitTreatment", "rigidbody3d/RigidBody3DSim.cpp")], ["process exit, state after a step"],
     "property-based testing against independently computed extents, steps run in forked processes", "Extents within 1e-9 of the boundary are not judged.")
prop("C33", "No scene, state or file makes the code touch memory it does not own",
     "Whatever valid scene is built, stepped, edited, copied, saved, loaded or written, and whatever well-formed or damaged scene file and command line is given, the libraries and programs never read or write outside an object or after its end of life, never overflow a signed integer, shift or index out of range, and never end by a signal.",
     ["inputs", "histories", "configurations"], "for every input and history the other properties generate", T + "out-of-range accesses usually leave the sampled results unchanged.",
     ["scisim", "ball2d", "rigidbody2d", "rigidbody3d", "ball2dutils", "rigidbody2dutils", "rigidbody3dutils"], [("index arithmetic over flat vectors, sparse matrix storage, contact lists and caches", "*/…State.cpp, */…Sim.cpp, scisim/Math/MathUtilities.cpp")], ["AddressSanitizer, UndefinedBehaviorSanitizer and bounds-assertion reports, signals"],
     "property-based testing: the generators of all other properties drive sanitizer-instrumented builds of the libraries and programs", "The other properties' verdicts are ignored here; a case fails exactly if a process dies by a signal. Reading uninitialised memory is covered only through the other properties (freed and fresh memory is filled with a pattern).")
prop("C34", "Reported energies, momenta, extents and contact statistics match the state",
     "The kinetic, potential and total energy, the linear and angular momentum (of the state and of any velocity), the bounding extents, and the number, total depth and total overlap volume of contacts that the simulators report equal the values computed from first principles from the bodies' positions, velocities, masses, inertias and shapes, in any state reached by construction or stepping; asking for them changes nothing.",
     ["inputs", "histories"], "for every scene and state", T + "no simulator state is ever evaluated.",
     ["ball2d/Ball2DState.cpp", "ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DSim.cpp", "rigidbody3d/Constraints/SphereSphereConstraint.cpp"], [("computeKineticEnergy / computePotentialEnergy / computeTotalMomentum / computeAngularMomentum / computeBoundingBox / computeNumberOfCollisions / computeContactPoints", "*/*Sim.cpp, */*State.cpp")], ["return values of the reporting functions"],
     "property-based testing against independently computed sums in extended precision", "Depth and volume are compared only for contact kinds that define them (the others report not-a-number). Contacts within 1e-9 of touching are not judged.")
prop("C35", "Python scripts see and steer exactly the simulation they are attached to",
     "A script attached to a simulation is called at the documented points, in order (start of simulation, start of step, restitution and friction coefficients once a step has contacts, end of step, end of simulation), with the time step and iteration of that step; everything it can read (numbers, positions, velocities, masses, obstacles, geometry, contacts with kinds and bodies, coefficients) equals the state of the simulation at that moment, and everything it changes (states, obstacles, bodies added and deleted, coefficients, forces) has the effect of the same change made directly, and no other. Requests with an index, value or type that does not fit are refused with an error instead of touching the simulation, and a scripted run of the command line programs equals the same changes made through the library and ends cleanly.",
     ["inputs", "histories"], "for every scene, script and history of steps", T + "no Python code is built or run by them.",
     ["scisim/PythonTools.cpp", "scisim/PythonObject.cpp", "ball2d/PythonScripting.cpp", "rigidbody2d/PythonScripting.cpp", "rigidbody3d/PythonScripting.cpp", "ball2dcli", "rigidbody2dcli", "rigidbody3dcli"], [("PythonScripting callbacks and the functions exported to scripts", "*/PythonScripting.cpp"), ("calls of the callbacks around a step and around the coefficients", "*/*Sim.cpp, scisim/ConstrainedMaps/*Map.cpp, *cli/*.cpp")], ["log written by the script", "state after the step", "coefficients handed to the solvers", "exit status and output of the programs"],
     "property-based testing: generated scripts and scenes, the script's log and the resulting state against a twin simulation changed directly through the library", "The Python 2 sources are compiled against Python 3.12 through shim/py2compat.h (renamed API only).")

prop("C36", "The post-processing tools report exactly what a run recorded",
     "For every 3D rigid body run, the readers and printing scripts in post_processing return, for each state file, the header values and every mesh body in order with its position, rotation, velocities, mass, world inertia, kinematic flag and mesh file, and for each force file every contact with its impulse, body indices, normal and point, all equal to the simulation at the moment of writing, also when a step had no contacts; they refuse missing and incomplete files instead of printing from them.",
     ["inputs", "histories"], "for every scene and step that can be recorded", T + "neither the writers nor the Python readers are run.",
     ["post_processing/rb3d_processing.py", "post_processing/print_meshes.py", "post_processing/print_collisions.py", "rigidbody3d/StateOutput.cpp", "rigidbody3d/RigidBody3DSim.cpp", "scisim/ConstrainedMaps"], [("DiscreteState, CollisionState", "post_processing/rb3d_processing.py"), ("writeBinaryState and the force export of the step maps", "rigidbody3d/RigidBody3DSim.cpp, scisim/ConstrainedMaps")], ["values yielded by the readers", "text printed by the scripts", "exit status"],
     "property-based testing: generated scenes and steps are recorded, read back by the real post-processing code, and compared with the simulation", "The Python 2 sources run under Python 3.12 with print and division given their old meaning, on the HDF5 stand-in's format through an h5py stand-in.")

prop("C37", "Whole runs follow the closed-form solutions of mechanics",
     "Over whole runs, and for every frame, size, mass, gravity, coefficient, step size and choice of integrator, impact operator and friction map: bodies in flight follow the parabola and keep their spin; a body dropped on a floor bounces at the times and to the heights its restitution gives; a spinning body striking a floor or belt rebounds as Coulomb's law gives; two bodies meeting exchange momentum along their line of centres; a sliding body comes to rest or to rolling at the time and place friction gives, and on a slope rests, rolls or slides as the friction angle says; a column at rest stays at rest; an elastic blow travels through a chain of touching bodies to the last; a body in a smooth drum or cylinder swings as a pendulum; balls on penalty springs part after half an oscillation; free bodies tumble as Euler's equations say. Errors shrink with the step size.",
     ["inputs", "histories"], "for every configuration of each of these problems, within an error proportional to the time step", T + "no simulation is run at all, so nothing ties the parts of a step together over time.",
     ["ball2d", "rigidbody2d", "rigidbody3d", "scisim/ConstrainedMaps", "scisim/UnconstrainedMaps"], [("the flow functions of the three simulators", "ball2d/Ball2DSim.cpp, rigidbody2d/RigidBody2DSim.cpp, rigidbody3d/RigidBody3DSim.cpp"), ("impact, friction and unconstrained maps", "scisim/ConstrainedMaps, scisim/UnconstrainedMaps, rigidbody3d/UnconstrainedMaps")], ["positions, rotations and velocities during and after a run"],
     "property-based testing: generated physical problems are run for up to thousands of steps and compared with their analytic solutions", "Tolerances are proportional to the time step. Exponential Euler is left out of tumbling bodies (it has no gyroscopic torque); moving planes carry only round bodies in this code base.")

def main():
    sys.path.insert(0, os.path.join(V, "lib"))
    import props
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in props.PROPS:
            checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration",
                               level_note=(p["note"] + " Exploration of generated inputs only: it shows no counterexample among the cases counted in the evidence, not absence. Trusts the /verif/shim stand-ins and the oracle code in /verif/harness.").strip()))
        else:
            na.append(dict(property=p["id"], reason="machinery not built yet"))
    m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
             hooks=dict(guard="none", enable="no hooks: the harnesses use the public interfaces and the command line programs", source_commits=[]),
             notes="Property-based testing with an own choice-sequence engine (lib/pbt.h, lib/pbt_main.cpp). Generated from lib/spec.py.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")

if __name__ == "__main__":
    main()
