#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to edit)."""
import json, os
I="include/DynamicObstacleAvoidance/"; S="src/"
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
POSE=[I+"State/Pose.hpp",S+"State/Pose.cpp"]; OB=[I+"Obstacle/Obstacle.hpp",S+"Obstacle/Obstacle.cpp"]
EL=[I+"Obstacle/Ellipsoid.hpp",S+"Obstacle/Ellipsoid.cpp"]; HU=[I+"Obstacle/StarShapeHull.hpp",S+"Obstacle/StarShapeHull.cpp"]
AG=[I+"Obstacle/Aggregate.hpp",S+"Obstacle/Aggregate.cpp"]; MT=[I+"Utils/MathTools.hpp",S+"Utils/MathTools.cpp"]
MO=[I+"Modulation.hpp",S+"Modulation.cpp"]; EN=[I+"Environment.hpp",S+"Environment.cpp"]; AT=[I+"Agent.hpp",S+"Agent.cpp"]
ST=[I+"State/State.hpp",S+"State/State.cpp"]

p("C01","Poses act as rigid transformations: composition and inverse are exact",
 "For all poses p, q and points v, applying the composition p*q to v gives the same point as applying q and then p, and in-place composition gives the same pose as composing into a new one. Applying a pose and then its inverse (in either order) returns the original point. Applying a pose preserves the distance between any two points.",
 ["inputs"],"all poses with unit orientation, all points (up to floating-point rounding)",
 "Five tests compose or invert one or two fixed quaternions; the laws quantify over all rotations, translations and points, and never check the action on points.",
 POSE,[("operator*=, operator*, inverse","include/DynamicObstacleAvoidance/State/Pose.hpp")],["Pose::operator*","Pose::operator*=","Pose::inverse"])
p("C02","Every pose keeps a unit orientation",
 "Whatever non-zero quaternion is supplied when a pose is created or its orientation is set, the orientation read back from it is of unit norm and is a positive or negative multiple of the supplied quaternion. Composition and inversion of poses with unit orientation yield a unit orientation. The same holds for the orientation of states, agents and obstacles, which are built from poses.",
 ["inputs"],"all non-zero quaternions, all positions, all constructors and setters",
 "The tests only ever pass unit quaternions; a scaled quaternion silently turns every distance, normal and transformation into a scaled one.",
 POSE+ST+AT+OB,[("normalisation in the constructors","src/State/Pose.cpp"),("set_orientation","include/DynamicObstacleAvoidance/State/Pose.hpp")],["Pose::get_orientation","State::get_orientation","Agent::get_orientation","Obstacle::get_orientation"])
p("C03","Ellipsoid distance is the exact level function of the inflated ellipsoid",
 "For every ellipsoid whose inflated half-lengths are above 0.0001 and whose curvature factors are positive whole numbers, the distance it reports for a point is never negative and grows strictly along every ray leaving the centre. With default curvature it equals 1 exactly on the surface of the ellipsoid inflated by its own and the supplied safety margin, is below 1 strictly inside it and above 1 strictly outside: it is the sum over the axes of (coordinate in the obstacle frame / inflated half-length) squared. The distance to an agent is the distance to the agent's position with the agent's safety margin, and a scalar margin means that margin on all three axes.",
 ["inputs"],"all obstacle poses, all half-lengths and margins (not negative) whose sum is above the thickness threshold, all points and agents; default curvature for the closed form, all positive integer curvature factors for sign and growth",
 "Three tests evaluate unit spheres at one point; no rotation, no margins, no unequal axes, no curvature.",
 EL+OB,[("compute_distance_to_point","src/Obstacle/Ellipsoid.cpp"),("compute_distance_to_agent, scalar overload","src/Obstacle/Obstacle.cpp")],["Ellipsoid::compute_distance_to_point","Obstacle::compute_distance_to_agent"])
p("C04","Ellipsoid normal is unit length, outward and parallel to the distance gradient",
 "For every agent not at the centre of an ellipsoid with inflated half-lengths above 0.0001, the normal the ellipsoid reports (in its own frame) has unit length and points outward, away from the centre; with larger whole curvature factors it is still a unit vector no component of which points inward. With default curvature it is a positive multiple of the gradient of the reported distance, taken with the same inflated half-lengths.",
 ["inputs"],"all obstacle poses, half-lengths, margins, agent positions other than the centre",
 "Three tests check unit spheres, where every radial vector is a normal.",
 EL,[("compute_normal_to_agent","src/Obstacle/Ellipsoid.cpp")],["Ellipsoid::compute_normal_to_agent"])
p("C05","Inside test and distance agree in the plane",
 "For every point lying in the horizontal mid-plane of the own frame of an ellipsoid with default curvature, the point is reported inside exactly when the distance reported for it with zero extra margin is at most 1. The inside test depends only on the obstacle's pose, half-lengths and safety margin and on the point, and is invariant under moving obstacle and point together.",
 ["inputs"],"all poses, all half-lengths and margins above the thickness threshold, all points of the mid-plane, default curvature",
 "No test calls the inside test directly; intersection tests reach it with a few rotations about z and no margins.",
 EL,[("point_is_inside","src/Obstacle/Ellipsoid.cpp"),("compute_distance_to_point","src/Obstacle/Ellipsoid.cpp")],["Ellipsoid::point_is_inside","Ellipsoid::compute_distance_to_point"])
p("C06","Reported intersections are real, and lists and aggregates are exhaustive",
 "When two ellipsoids of the plane (rotated about the vertical axis) are reported as intersecting there is a point inside both, and whenever the centre of one lies inside the other they are reported as intersecting. The boundary samples used for this lie on the boundary of the inflated ellipsoid in its true orientation. An obstacle intersects a list of obstacles, or an aggregate, exactly when it intersects one of the members. An obstacle of a kind without geometry of its own (a plain obstacle) intersects nothing, contains no point and is crossed by no line.",
 ["inputs"],"all planar ellipsoid pairs with positive inflated half-lengths; lists and aggregates of any length",
 "Five tests use fixed pairs, and one list; soundness and the quantification over members of arbitrary lists cannot be sampled.",
 EL+OB,[("is_intersecting_ellipsoid, sample_from_parameterization","src/Obstacle/Ellipsoid.cpp"),("is_intersecting (obstacle, list), is_intersecting_aggregate","src/Obstacle/Obstacle.cpp")],["Obstacle::is_intersecting","Ellipsoid::sample_from_parameterization"])
p("C07","Line/ellipsoid intersection points are exact and never missed",
 "For two points with different horizontal positions in an ellipsoid's frame, the query for the crossing of the line through them reports an intersection exactly when that line (in the horizontal mid-plane of the ellipsoid) meets the inflated ellipse, for every heading including one along an axis. Each reported point lies on the boundary of the inflated ellipse and on the line.",
 ["inputs"],"all poses, positive inflated half-lengths and pairs of points",
 "No test calls it; hull construction and the planar reference shift depend on it.",
 EL,[("compute_interesection_points","src/Obstacle/Ellipsoid.cpp")],["Ellipsoid::compute_interesection_points"])
p("C08","Shifting the reference point keeps it inside the obstacle and on the heading",
 "When the heading line of a moving agent crosses a planar ellipsoid, shifting the reference point puts it inside that ellipsoid, on the heading line, at the middle of the chord. When the line does not cross, the reference point is left unchanged. Nothing else of the obstacle changes, in particular not its pose, velocities, margin or axes.",
 ["inputs"],"all planar ellipsoids and agents with non-zero horizontal velocity",
 "Only reachable through the planar option of the modulation, which no test enables.",
 OB+EL,[("shift_reference_point","src/Obstacle/Obstacle.cpp"),("compute_interesection_points","src/Obstacle/Ellipsoid.cpp")],["Obstacle::shift_reference_point","Obstacle::get_reference_position"])
p("C09","Aggregation partitions the obstacles into connected groups",
 "Aggregating a list of distinct obstacles (whose reported intersections do not change meanwhile) yields a list in which every input obstacle appears exactly once, either as itself or as a primitive of exactly one aggregate. Two obstacles that are reported as intersecting end in the same aggregate, two obstacles end in the same aggregate only if a chain of pairwise intersecting obstacles connects them, and an obstacle that intersects no other is returned as itself.",
 ["inputs"],"lists of any length, any intersection relation between their members",
 "One test aggregates two and three mutually overlapping circles; merging of two existing aggregates, index shifts after a merge and chains of arbitrary length are never exercised.",
 [I+"Utils/ObstacleGeneration/Aggregation.hpp",S+"Utils/ObstacleGeneration/Aggregation.cpp"]+AG,[("aggregate_obstacles","src/Utils/ObstacleGeneration/Aggregation.cpp"),("add_primitive","src/Obstacle/Aggregate.cpp")],["Aggregation::aggregate_obstacles"],
 [("aggregate_indexes","group of every obstacle or -1","src/Utils/ObstacleGeneration/Aggregation.cpp")])
p("C10","Aggregates: mean centre, shared reference point, canonical name",
 "An aggregate built from a list of primitives that are no aggregates themselves, at once or one at a time, is positioned at the mean of the positions of its primitives, has its reference point there, and gives every primitive that same reference point. Its primitives are those supplied, in increasing order of name, and its name is the word aggregate followed by the primitive names in that order, whatever the order of insertion. Setting the reference point of an aggregate sets it on all primitives.",
 ["inputs","histories"],"any number of primitives, any insertion order",
 "One test checks x of the mean for two and three primitives at symmetric positions.",
 AG,[("constructor, add_primitive","src/Obstacle/Aggregate.cpp"),("set_reference_position","include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp")],["Aggregate","Aggregate::add_primitive","Aggregate::set_reference_position"])
p("C11","Star-shaped hull depends only on its primitives and respects its radius bounds",
 "Recomputing a hull for the same primitives and the same reference point gives the same hull, whatever was computed in it before. Every hull radius is at least the minimum radius, and at most the larger of the minimum radius and the farthest crossing with a primitive (moved by the hull's margin, if it is given one); without any crossing every radius is the minimum radius. Whether the hull counts as closed depends only on all its radii exceeding 1.2 times the minimum radius.",
 ["inputs","histories"],"all primitive lists, reference points, resolutions of at least 3, inner and outer hulls, any sequence of recomputations",
 "The hull is only built once per environment in tests and its radii are never inspected.",
 HU,[("compute_from_primitives, is_closed","src/Obstacle/StarShapeHull.cpp")],["StarShapeHull::compute_from_primitives","StarShapeHull::is_closed","StarShapeHull::compute_distance_to_point"],
 [("polar_surface_points","radius, polar angle and bearing of each hull point","include/DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp")])
p("C12","Hull queries are defined for every bearing and are mutually consistent",
 "For every point other than the hull's reference point, including one exactly behind it, and any hull points in increasing order of bearing, the lookup of the hull points next to its bearing returns two valid, cyclically consecutive positions, the first being the first hull point whose bearing is not smaller (wrapping to the first one). An outer hull reports as distance the ratio of the point's radius to that hull point's radius, an inner hull the reciprocal, and either reports a point as inside exactly when its radius is the smaller one. The normal a hull reports is horizontal, of unit length and orthogonal to the hull segment it belongs to (when that segment has a horizontal extent).",
 ["inputs"],"all points other than the hull's reference point, all hulls with increasing bearings",
 "No test queries a hull.",
 HU+MT,[("find_closest_points","src/Utils/MathTools.cpp"),("compute_distance_to_point, point_is_inside, compute_normal_to_agent","src/Obstacle/StarShapeHull.cpp")],["MathTools::find_closest_points","StarShapeHull::point_is_inside","StarShapeHull::compute_distance_to_point","StarShapeHull::compute_normal_to_agent"])
p("C13","The environment is a faithful registry of obstacles by name",
 "After any sequence of operations, looking up a name returns the obstacle added under it and not removed since, and a lookup never registers anything. Adding an obstacle whose name is taken, or removing or looking up an unknown name, raises the corresponding exception and leaves the environment unchanged. Adding or removing one obstacle affects no other.",
 ["histories","inputs"],"all sequences of add, remove and lookup over all names",
 "One test adds and looks up one name; the exceptions and the frame are never exercised.",
 EN+[I+"Exceptions/ObstacleAlreadyExistsException.hpp",I+"Exceptions/ObstacleNotInEnvironmentException.hpp"],[("add_obstacle, remove_obstacle, operator[]","src/Environment.cpp")],["Environment::add_obstacle","Environment::remove_obstacle","Environment::operator[]"])
p("C14","An environment update publishes exactly the registered obstacles",
 "When each obstacle is registered under one name: after an update of an environment that does not aggregate, the published list holds every registered obstacle exactly once and nothing else; of one that aggregates, it is the aggregation of that list. Adding and removing obstacles does not alter the published list until the next update, and an update does not alter the registered obstacles.",
 ["histories","inputs"],"all registered sets, of any size, both modes",
 "Two tests count list entries for three names.",
 EN,[("update, get_obstacle_list","src/Environment.cpp")],["Environment::update","Environment::get_obstacle_list"])
p("C15","The agent's envelope follows its state",
 "After every change of an agent's pose, position, orientation or velocity, its envelope is centred, and has its reference point, half a unit ahead of the agent along its direction of motion (at the agent itself when it does not move). Its first half-length is that offset plus the margin, its other half-lengths are the margin, where the margin is the agent's safety margin but at least 0.1, and it is turned about the vertical axis to the heading. For horizontal motion the agent always lies inside its envelope.",
 ["inputs","histories"],"all states, velocities and safety margins, any order of updates",
 "No test reads the envelope.",
 AT,[("update_envelope","src/Agent.cpp"),("setters","include/DynamicObstacleAvoidance/Agent.hpp")],["Agent::get_envelope","Agent::set_*"])
p("C16","Copying or transforming an agent leaves the original untouched",
 "A copy of an agent has the same state, safety margin and envelope as the original, and later changes of either one never show in the other. The agent transformed by a pose has that pose composed in front of its own, the same velocities and margin and an envelope of its own, and obtaining it does not change or invalidate the original.",
 ["inputs","histories"],"all agents, all transformations, any sequence of changes after the copy",
 "No test copies or transforms an agent.",
 AT,[("copy constructor, update_envelope","src/Agent.cpp"),("transform, transformed","include/DynamicObstacleAvoidance/Agent.hpp")],["Agent(const Agent&)","Agent::transform","Agent::transformed"])
p("C17","Objects start fully defined and setters change only what they name",
 "Every way of constructing a pose, state, ellipsoid or agent gives it exactly the supplied values and the documented defaults: no offset, no rotation, no velocity, unit half-lengths and curvature, the supplied margin on every axis, and a reference point at the centre unless one is supplied. Each setter makes the corresponding getter return the new value and leaves every other observable as it was. A copy of an ellipsoid has the same name, state, reference point, margins, half-lengths and curvature.",
 ["inputs"],"all constructors and setters, all argument values and prior states",
 "The tests read back one coordinate of one position; reading an uninitialised reference point goes unnoticed.",
 POSE+ST+OB+EL+AT,[("constructors","src/Obstacle/Obstacle.cpp, src/Obstacle/Ellipsoid.cpp, src/State/State.cpp, src/State/Pose.cpp"),("setters","include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp")],["constructors, getters and setters of Pose, State, Obstacle, Ellipsoid, Agent"])
p("C18","Path existence and collision answers match their definition",
 "A free path to a target is reported exactly when, for every closed obstacle in the list, the agent and the target are both inside or both outside of it; obstacles that are not closed never block (ellipsoids are closed, and so is every obstacle whose kind does not say otherwise). An agent is reported to be in an obstacle exactly when a ball around its position, whose radius is its safety margin but at least 0.1, is reported to intersect that obstacle.",
 ["inputs"],"lists of any length and content, all targets and agents",
 "Neither function is called by any test.",
 AT,[("exist_path, in_obstacle","src/Agent.cpp")],["Agent::exist_path","Agent::in_obstacle"])
p("C19","Obstacle weights form a convex combination that favours near obstacles",
 "For any non-empty array of distances and positive weight power, the weights are non-negative and sum to 1. If some distance is at most the critical distance, all obstacles at or below it share the weight equally and the others get none; otherwise every weight is positive and proportional to the excess of the distance over the critical distance raised to minus the weight power, so that a nearer obstacle never weighs less.",
 ["inputs"],"arrays of any length, all distances, critical distances and positive powers",
 "Three tests use five fixed distances.",
 MO,[("weight_obstacles","src/Modulation.cpp")],["Modulation::weight_obstacles"])
p("C20","Modulation eigenvalues stay in range and are monotone in the distance",
 "For every distance and positive reactivity the eigenvalue along the reference direction is 1-d and the two tangential ones are 1+d, where d is 1 for a distance of at most 1 and distance to the power -1/reactivity beyond it. Hence the first lies in [0,1), is 0 exactly at or inside the surface and never decreases with the distance, while the others lie in (1,2] and never increase.",
 ["inputs"],"all distances and all positive reactivity factors",
 "One test evaluates one distance with the default reactivity.",
 MO,[("compute_diagonal_eigenvalues","src/Modulation.cpp")],["Modulation::compute_diagonal_eigenvalues"])
p("C21","Modulation bases: orthonormal surface frame and tangent reference basis",
 "For every unit normal, in any direction of space, the orthogonal basis has the normal as first column and is orthonormal. The first column of the reference basis is the unit vector, in the obstacle's frame, from the reference point to the agent, and its two other columns are tangent to the surface, that is orthogonal to the normal, so that the basis is invertible whenever the reference direction is not tangent to the surface.",
 ["inputs"],"all unit normals including vertical ones, all obstacle poses, reference points and agent positions (not coinciding)",
 "Two tests use horizontal normals, where the shortcuts taken in the plane are invisible.",
 MO,[("compute_basis_matrices","src/Modulation.cpp")],["Modulation::compute_basis_matrices"])
p("C22","The modulation matrix never lets the agent move into an obstacle",
 "For every ellipsoid and every agent outside or on its surface whose reference direction is not tangent to it, the component of the modulated velocity along the surface normal equals 1-1/distance times that of the unmodulated one, for every velocity. Hence on the surface it vanishes, and outside it never changes sign and never grows. The distance returned with the matrix is the distance to the agent.",
 ["inputs"],"all ellipsoids in any pose, all reference points, all agents outside or on the surface, all velocities",
 "One test compares one matrix for a sphere seen from the plane.",
 MO+EL,[("compute_modulation_matrix","src/Modulation.cpp"),("compute_basis_matrices, compute_diagonal_eigenvalues","src/Modulation.cpp")],["Modulation::compute_modulation_matrix"])
p("C23","Obstacle motion is compensated exactly",
 "For any list of obstacles with orthonormal bases, the obstacle velocity handed to the modulation is the sum over the obstacles of weight times exp(-(max(1,distance)-1)) times (its linear velocity plus its angular velocity cross the offset of the agent from its position). The relative velocity is the agent's velocity minus that sum, so for obstacles at rest it is the agent's velocity.",
 ["inputs"],"lists of any length, all velocities, weights, distances and orthonormal bases",
 "One test uses three obstacles in the plane, of which one moves without rotating.",
 MO,[("compute_relative_velocities","src/Modulation.cpp")],["Modulation::compute_relative_velocities"])
p("C24","Modulation: pass-through when nothing is near, no NaN, no side effects",
 "With no published obstacle, or in local mode when the agent's envelope meets none, the modulated velocity is the agent's velocity unchanged. The returned velocity never contains a NaN, whatever the configuration. Unless planar modulation is requested, modulating changes no obstacle; when it is, only the reference points may change.",
 ["inputs"],"all environments, agents and option values",
 "The one test of the function fails, because it forgets to update the environment and so measures the pass-through.",
 MO,[("modulate_velocity","src/Modulation.cpp")],["Modulation::modulate_velocity"])
p("C25","A single static obstacle is avoided by exactly its modulation matrix",
 "With one published obstacle at rest and no repulsion requested, the modulated velocity is the modulation matrix of that obstacle applied to the agent's velocity, for every direction of motion in space (exactly when the matrix turns the velocity by at least 0.0001 rad, otherwise up to a relative error of 1e-8), unless it reverses the motion. With several obstacles at rest, the speed returned is the weighted mean of the speeds that the individual modulation matrices give.",
 ["inputs"],"all agents and velocities, any number of static obstacles, any modulation matrices (not reversing the motion)",
 "No passing test evaluates the reconstruction of the velocity from its angles.",
 MO,[("modulate_velocity, velocity frame and angle space","src/Modulation.cpp")],["Modulation::modulate_velocity"])
p("C26","Repulsion acts only near obstacles and pushes away from the reference point",
 "An obstacle repels an agent only when its distance to it, with the agent's margin, is below the given threshold; otherwise the repulsion is zero. For an ellipsoid it is the offset of the agent from the reference point times two divided by that distance; for an aggregate it is times twenty, reversed when the agent is inside the aggregate. An obstacle of a kind that defines no repulsion does not repel.",
 ["inputs"],"all ellipsoids, aggregates, agents and thresholds",
 "No test enables repulsion.",
 OB+EL+AG,[("generate_repulsion, get_repulsion_factor","src/Obstacle/Obstacle.cpp"),("compute_repulsion_vector","src/Obstacle/Ellipsoid.cpp, src/Obstacle/Aggregate.cpp")],["Obstacle::generate_repulsion","Obstacle::compute_repulsion_vector","Obstacle::get_repulsion_factor"])
p("C27","Sampling grids cover their range exactly",
 "An evenly spaced sampling of an interval with n >= 2 points has exactly n points, starts and ends at the given bounds and is evenly spaced; fewer than two points are rejected with a standard exception. A two-dimensional grid holds the full product of the two samplings, row by row, each pair exactly once. A random number drawn between two bounds lies between them.",
 ["inputs"],"all bounds and all point counts",
 "No test calls them directly.",
 MT,[("linspace, gridspace, rand_float","src/Utils/MathTools.cpp")],["MathTools::linspace","MathTools::gridspace","MathTools::rand_float"])
p("C28","Polar and cartesian coordinates are inverse, and sorting columns permutes them",
 "Converting a point of space to polar coordinates and back returns the same point, for every point including the origin, and the radius is its distance from the origin. Sorting the columns of a matrix by angle returns the same columns, each as often as before and unchanged, in non-decreasing order of the angle. The sign of a number is 1, 0 or -1 as it is positive, zero or negative.",
 ["inputs"],"all points, all matrices with at least two rows and any number of columns, all numbers",
 "No test calls them directly.",
 MT,[("cartesian_to_polar, polar_to_cartesian, sorted_cols_by_theta, sign","src/Utils/MathTools.cpp")],["MathTools::cartesian_to_polar","MathTools::polar_to_cartesian","MathTools::sorted_cols_by_theta","MathTools::sign"])
p("C29","An aggregate answers through the right hull",
 "A point is inside an aggregate exactly when it is inside its outer hull or inside one of its primitives. For such a point the distance and the normal are those of the inner hull, for any other point those of the outer hull, and the aggregate is closed exactly when its outer hull is. Recomputing the hulls recomputes both from the same primitives around the aggregate's reference point.",
 ["inputs"],"aggregates of any number of primitives, all points and agents",
 "No test queries an aggregate.",
 AG,[("point_is_inside, compute_distance_to_point, compute_normal_to_agent, update_hull","src/Obstacle/Aggregate.cpp")],["Aggregate::point_is_inside","Aggregate::compute_distance_to_point","Aggregate::compute_normal_to_agent","Aggregate::is_closed"])
p("C30","Moving obstacles are avoided relative to their motion; the options act on top",
 "With one published obstacle, the modulated velocity is the compensated velocity of that obstacle plus its modulation matrix applied to the agent's velocity relative to it, for every direction of motion in space (exactly when the matrix turns the relative velocity by at least 0.0001 rad, otherwise up to a relative error of 1e-8), unless the matrix reverses the relative motion. When repulsion is requested, the sum of the repulsions of all published obstacles (with threshold 1.1) is added to the velocity returned otherwise, unless that sum is at most 0.0001 long. When planar modulation is requested, the reference point of each obstacle is shifted for the agent first and the matrix is that of the shifted obstacle. In local mode with an obstacle in reach of the envelope the velocity is the one returned without local mode.",
 ["inputs"],"all agents, obstacle motions and modulation matrices (not reversing the relative motion); repulsion and local mode: any number of obstacles",
 "No passing test runs the modulation with a moving obstacle or with any option.",
 MO,[("modulate_velocity","src/Modulation.cpp")],["Modulation::modulate_velocity"])
p("C31","At every bearing the hull follows its primitives",
 "The bearings of a hull of n columns are evenly spaced from -pi to pi - 0.0001 around its reference point, in increasing order. On each of them the radius is that of a crossing of the bearing with a primitive: the farthest one for an outer hull, the nearest one for an inner hull, moved by the hull's margin (outwards for an outer hull, inwards for an inner one) if it has one, and never less than the minimum radius; on a bearing with no crossing (none whose bearing is within 0.001 rad of it, whole turns aside) it is the minimum radius moved likewise. Smoothing then leaves nine tenths of that radius and takes one tenth from the neighbouring radii, so the hull lies between 0.9 of it plus 0.1 of the minimum radius and 0.9 of it plus 0.1 of the largest such radius.",
 ["inputs"],"all primitives and numbers of them, all reference points, resolutions of at least 3, minimum radii and hull margins, every bearing, inner and outer hulls",
 "Tests build a handful of hulls and look at no radius.",
 HU,[("compute_from_primitives","src/Obstacle/StarShapeHull.cpp")],["StarShapeHull::compute_from_primitives"])
p("C32","The area of an ellipsoid is that of its surface",
 "The area reported for a sphere of radius r is 4 pi r^2. For any ellipsoid the area is at least that of the inscribed and at most that of the circumscribed sphere, and larger half-lengths never have a smaller area. The half-lengths are those inflated by the safety margin when it is included, and the bare ones otherwise.",
 ["inputs"],"all non-negative half-lengths (with the margin or without)",
 "No test calls it.",
 EL,[("area","src/Obstacle/Ellipsoid.cpp")],["Ellipsoid::area"])
p("C33","Every access stays inside its container",
 "No function reads or writes outside of the lists, arrays, matrices and maps it works on, follows the end iterator of a map or divides a position by zero: for lists of obstacles of any length (also none) and any relation of intersection between them, hulls of any resolution of at least 2 with any primitives and any number of crossings, lookups of any value in any row of a matrix with at least one column, weights and velocities of any number of obstacles, any number of boundary samples or grid points of at least two, and any name, registered in the environment or not.",
 ["inputs"],"all lists, resolutions, sample counts, matrices and names as stated",
 "An access one element too far depends on the number of columns, obstacles or samples and on the value searched; in a release build it reads a neighbouring element and no test notices.",
 sorted(set(HU+MT+MO+EN+EL+[S+"Utils/ObstacleGeneration/Aggregation.cpp"])),[("compute_from_primitives and the hull queries","src/Obstacle/StarShapeHull.cpp"),("find_closest_points, sorted_cols_by_theta, gridspace","src/Utils/MathTools.cpp"),("aggregate_obstacles","src/Utils/ObstacleGeneration/Aggregation.cpp"),("add_obstacle, remove_obstacle, operator[], update","src/Environment.cpp")],["StarShapeHull::compute_from_primitives","MathTools::find_closest_points","Aggregation::aggregate_obstacles","Environment::operator[]","Modulation::modulate_velocity","Ellipsoid::sample_from_parameterization"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
