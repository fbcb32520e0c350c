#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script for readability); run to regenerate."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Region memory: live blocks stay intact, disjoint and aligned",
  "Blocks obtained from a memory region are 16-byte aligned, large enough, and never overlap another live block. Popping a block or a saved position releases that block and everything allocated after it and nothing older, releasing the region frees everything, and destroying it returns all memory. A request that fits in the reported free space is served from it in place, and growing a temporary block preserves its contents.",
  ["histories"], "every history of allocate/zero-allocate/duplicate/format/temporary/grow/mark/pop/release/scope operations, with sizes at and around the chunk limit",
  "The tests replay one random history per run with sizes far from the chunk boundary; the faults live in exact-fit, zero-size and empty-chunk histories.",
  ["src/mem.c", "include/amino/mem.h", "include/amino/mem.hpp"],
  [("region allocator", "src/mem.c: aa_mem_region_*"), ("scope guard", "include/amino/mem.hpp: RegionScope")])

p("C02", "Pools, region lists, bit sets and heap sort behave as their abstract types",
  "A memory pool never hands out an object that is still in use and objects do not overlap; a region list yields its elements in queue/stack order; bit sets read back exactly what was written and combine bitwise. Sorting and heap construction return a permutation of the input that is ordered (a heap) under the given comparison, and byte swapping exchanges exactly the two given ranges.",
  ["histories", "inputs"], "every sequence of pool/list/bit-set operations up to a depth, and every small array over a small alphabet of keys for sorting, swapping and selection",
  "These containers are marked untested or exercised with one input; ordering faults need particular sequences (empty, single element, free-then-reuse) or particular key patterns.",
  ["src/mem.c", "include/amino/mem.h", "src/heap.c", "include/amino/heap.h"],
  [("pool free list", "src/mem.c: aa_mem_pool_*"), ("region list", "src/mem.c: aa_mem_rlist_*"), ("bit array", "include/amino/mem.h: aa_bits_*"), ("heap sort", "src/heap.c")])

p("C03", "Shared objects are destroyed exactly once, after the last reference",
  "However threads interleave, concurrent reference and release of a shared geometry or mesh destroys it exactly once, only after the last reference is dropped, and never while a holder still uses it. Reference counts return the value before the change and never lose an update.",
  ["schedules", "histories"], "all interleavings of the memory accesses and lock operations of 2-3 threads each holding and releasing references; all single-threaded histories of sharing and release",
  "The tests are single threaded; a lost update or double destruction only appears in particular interleavings.",
  ["src/refcount.c", "include/amino/refcount.h", "src/rx/scene_geom.c", "src/rx/geom_opt.c"],
  [("atomic reference count", "src/refcount.c"), ("geometry ownership", "src/rx/scene_geom.c: aa_rx_geom_destroy, aa_rx_geom_copy")])

p("C04", "Per-thread scratch memory is private to its thread",
  "Each thread gets its own scratch region, created once on first use however threads interleave; blocks one thread takes from it are never handed to or freed by another thread. A thread's scratch memory is returned when the thread ends, and re-initialising or destroying it affects only the calling thread.",
  ["schedules"], "all interleavings, at every memory access and synchronisation call, of 2-3 threads using, re-initialising and destroying their scratch regions",
  "No test starts a second thread.",
  ["src/mem.c"], [("thread-local region", "src/mem.c: local_region_get, aa_mem_region_local_*")])

p("C05", "Matrix and vector views touch only their elements and compute the right values",
  "For every shape, leading dimension, increment and transposition, block, diagonal, row, column and slice views address exactly the elements they denote, operations on them give the textbook result, and memory outside the destination view is unchanged. Operands whose sizes do not match are reported instead of being read or written out of bounds.",
  ["inputs", "configurations"], "all shapes up to 4x4, all leading dimensions and increments up to small bounds, all transpose flags, with every element of the surrounding storage checked",
  "The tests use contiguous storage and few shapes, so stride, transpose and boundary mistakes cancel out.",
  ["src/mat.c", "include/amino/mat.h", "include/amino/mat_internal.h", "src/la.c", "src/la_impl.c", "src/la_implf.F90", "include/amino/mat.hpp"],
  [("views", "src/mat.c: aa_dmat_view*, aa_dvec_slice"), ("elementwise operations", "src/mat.c, src/la.c, src/la_impl.c")])

p("C06", "Matrix solvers satisfy their defining equations",
  "Inverse, pseudo-inverse, damped pseudo-inverse, singular value and eigen decompositions, least squares and the continuous-time Riccati solver return results that satisfy the equations defining them for every well-posed input, whatever its shape or storage stride (least squares: whenever the matrix has full rank). Inputs documented as read-only are left unchanged, and a singular matrix to be inverted is reported rather than answered.",
  ["inputs"], "all matrices over a small integer alphabet for shapes up to 3x3 (plus tall/wide shapes), all ranks, all small strides",
  "The tests use a few random full-rank matrices with contiguous storage.",
  ["src/la.c", "src/la_impl.c", "src/mat.c", "src/are.c", "src/la_implf.F90"],
  [("factorisation wrappers", "src/la.c: aa_la_inv, aa_la_svd, aa_la_dpinv, aa_la_lls"), ("Riccati", "src/are.c")])

p("C07", "Assignment solver returns a minimum-cost perfect matching",
  "For every cost matrix the assignment solver returns a one-to-one assignment of rows to columns (each row and column used at most once, as many as possible) whose total cost is minimal. The input cost matrix determines the result alone: repeated calls give an equally cheap assignment.",
  ["inputs"], "every cost matrix over small alphabets including ties, negative and fractional costs, all square and rectangular shapes up to 4",
  "The tests check a handful of fixed matrices.",
  ["src/la_impl.c", "include/amino/la_impl.h", "src/la_implf.F90"], [("Hungarian algorithm", "src/la_impl.c: opt_hungarian, assign_hungarian")])


p("C08", "Statistics, norms, angle arithmetic and range checks match their definitions",
  "Means, variances, covariances, medians, norms, distances, minima/maxima and circular statistics equal their definitions for every input and stride; angle normalisation returns the equivalent angle inside the requested interval and angle differences are the shortest signed ones. Range and finiteness predicates answer true exactly on the set they describe.",
  ["inputs"], "all vectors over small alphabets up to length 4-5 and all strides up to 3; all angles on a grid of multiples of pi/4 over several turns plus interval ends",
  "Tests check single values away from wrap-around points, ties and even/odd lengths.",
  ["src/la.c", "src/la_impl.c", "src/math.c", "include/amino/math.h", "src/validate.c", "src/la_implf.F90"],
  [("vector statistics", "src/la.c, src/la_impl.c, src/la_implf.F90"), ("angles", "src/math.c, include/amino/math.h"), ("validation", "src/validate.c, include/amino/math.h")])

p("C09", "Text input is parsed completely and independently of buffer boundaries",
  "Reading lines, vectors and matrices from text returns every value in order whatever the line lengths, comment and blank lines, trailing newline or initial buffer size, and leaves the rest of the stream and the caller's memory region untouched. Values with up to six decimals written as text and read back are equal.",
  ["inputs", "configurations"], "all short documents over a token alphabet (numbers, blanks, comments, newlines, end of file) crossed with all initial scratch sizes around every buffer boundary",
  "No test feeds text of varying length across buffer sizes.",
  ["src/io.c", "include/amino/io.h"], [("line and matrix reader", "src/io.c")])

p("C10", "Time arithmetic and byte-order conversion are exact",
  "Adding, subtracting, comparing and converting times keeps them normalised and exact to the nanosecond across second borders and negative spans. Byte-order conversions store and load every value in the stated order, are inverses of each other, and touch exactly the bytes of the value.",
  ["inputs"], "all pairs of times with seconds and nanoseconds at and around their borders; all integer and floating types with distinct byte patterns, all orders and alignments",
  "Tests use a couple of times without carries or borrows; conversions are sampled with random values.",
  ["src/time.c", "include/amino/time.h", "include/amino/endconv.h", "include/amino/getset.h"],
  [("timespec arithmetic", "include/amino/time.h, src/time.c"), ("byte order", "include/amino/endconv.h, include/amino/getset.h")])

p("C11", "Integrators, filters and interpolants reproduce what their order promises",
  "Each one-step integrator reproduces exactly the solutions of polynomial right-hand sides up to its order and advances time and state consistently; multi-step and adaptive integration visit the requested times and stop when told. Interpolants and splines pass through their data with the stated derivatives, and filter and simulation steps satisfy their state equations.",
  ["inputs", "histories"], "all polynomial right-hand sides and data over a small coefficient alphabet, all step counts and dimensions up to small bounds",
  "Tests check one smooth example with loose tolerances, which hides wrong tableau coefficients and off-by-one steps.",
  ["src/diffeq.c", "src/sigsys.c", "src/la.c", "src/la_implf.F90", "include/amino/diffeq.h"],
  [("Runge-Kutta steps", "src/sigsys.c, src/diffeq.c"), ("splines", "src/la_implf.F90"), ("Kalman/linear system steps", "src/sigsys.c")])

p("C12", "All rotation representations describe the same rotation",
  "Converting between quaternions, rotation matrices, axis-angle, rotation vectors and every Euler-angle order, and composing, inverting or applying the rotation in any of them, gives the same rotation of space. This holds at the identity, half turns, gimbal lock and for both signs of a quaternion; results are proper rotations and never undefined numbers.",
  ["inputs"], "all ordered pairs of a finite rotation alphabet (cube group, fine Euler grid including gimbal lock, small and near-half-turn angles) through every conversion and product",
  "Random rotations almost never hit identity, half turns or gimbal lock, where the branches of the conversions lie.",
  ["src/tf.c", "src/tf/conv.c", "src/tf/quat_ord.c", "src/tf/tfmatrix.c", "src/mac/euler77.mac", "src/tff.F90", "include/amino/tf.h"],
  [("conversions", "src/tf/conv.c, src/mac/euler77.mac"), ("quaternion algebra", "src/tf/quat_ord.c"), ("matrix algebra", "src/tf/tfmatrix.c")])

p("C13", "All rigid-transform representations agree under every operation",
  "Transformation matrices, quaternion-translation pairs and dual quaternions that denote the same pose give the same pose after composition, inversion, relative composition and conversion, move points identically, and stay normalised.",
  ["inputs"], "all pairs of poses from a finite alphabet (24+ rotations x translations) through every operation of each representation, and all operations of depth two",
  "Tests sample random poses and compare only some of the representations.",
  ["src/tf/quat_duqu.c", "src/tf/quat_qutr.c", "src/tf/tfmatrix.c", "src/tf/conv.c", "src/tf.c", "src/tff.F90"],
  [("dual quaternions", "src/tf/quat_duqu.c"), ("quaternion-translation", "src/tf/quat_qutr.c"), ("matrices", "src/tf/tfmatrix.c")])

p("C14", "Exponential and logarithm are inverse maps on rotations and poses",
  "For every rotation and pose the exponential of its logarithm is the same rotation or pose, and the logarithm of the exponential returns the tangent whenever its angle is below a half turn; this holds down to zero and up to half-turn angles. Results are finite and the logarithm is the shortest one.",
  ["inputs"], "all tangents over a grid of axes x magnitudes from 0 through 1e-12, switching thresholds of the series, up to pi, for quaternions, rotation matrices, transforms and dual quaternions",
  "Random tests do not hit the switch to the small-angle series or the neighbourhood of a half turn.",
  ["src/tf/quat_ord.c", "src/tf/quat_duqu.c", "src/tf/quat_qutr.c", "src/tf/tfmatrix.c"],
  [("exp/ln", "src/tf/quat_ord.c: aa_tf_qexp, aa_tf_qln; src/tf/quat_duqu.c; src/tf/tfmatrix.c")])

p("C15", "Velocities, derivatives and integration of rotations and poses agree",
  "Conversions between angular velocity, twist and the time derivative of each rotation or pose representation are mutually inverse and equal the actual derivative of the moving pose; integrating a constant velocity for a time step gives the pose of the exact motion. Published partial derivatives of the rotation maps equal the limit of difference quotients.",
  ["inputs"], "all combinations of poses, angular and linear velocities and step sizes from finite alphabets, for every conversion, integrator and partial-derivative routine",
  "Tests sample random states for a few of the routines with loose tolerances.",
  ["src/tf/quat_ord.c", "src/tf/quat_pde.c", "src/tf/quat_duqu.c", "src/tf/quat_qutr.c", "src/tf/tfmatrix.c", "src/tf.c", "src/tff.F90"],
  [("velocity conversions", "aa_tf_qvel2diff, aa_tf_duqu_vel2diff, ..."), ("integration", "aa_tf_qsvel, aa_tf_duqu_svel, ..."), ("partial derivatives", "src/tf/quat_pde.c")])

p("C16", "Rotation interpolation starts, ends and moves uniformly on the shortest path",
  "Interpolating between two rotations yields the first at parameter 0, the second (up to sign) at 1, and in between rotates about one fixed axis by an angle proportional to the parameter along the shorter way. Reported interpolation derivatives equal the actual rate of change; averages lie between their inputs and do not depend on input order or quaternion sign.",
  ["inputs"], "all ordered pairs of rotations from a finite alphabet including equal, antipodal-sign and near-half-turn pairs, all parameters on a grid",
  "Tests sample random pairs, missing coincident, sign-flipped and half-turn pairs.",
  ["src/tf/quat_ord.c", "src/tf.c", "src/tff.F90"],
  [("slerp", "src/tf/quat_ord.c: aa_tf_qslerp*"), ("averages", "aa_tf_quat_davenport, aa_tf_tfmat_...")])

p("C17", "Planar transforms and planar arm kinematics are consistent",
  "Planar transforms compose, invert, convert and act on points as the corresponding rigid motions of the plane for every angle. Both inverse solutions of the planar two-link arm reach the given point whenever it is reachable, are its two elbow configurations, and an unreachable point is reported as such.",
  ["inputs"], "all planar poses, operation words and joint angles over a grid of angles (several turns, quarter and half turns, tiny angles) and link lengths",
  "Tests cover one or two poses.",
  ["src/tf/tfp.c", "include/amino/tf/planar.h", "include/amino/tf/planar.hpp", "src/kin.c"],
  [("planar transforms", "src/tf/tfp.c, include/amino/tf/planar.h"), ("planar arms", "src/kin.c")])

p("C18", "Scene graphs keep names, indices, parents and variables consistent",
  "After any sequence of additions, removals, replacements and re-parentings followed by indexing, every frame and configuration variable has exactly one index, names and indices map to each other both ways, every parent precedes its children, and unknown names or indices are reported as absent. Limits, inertial data, attached geometry and allowed-collision pairs stay with the frame or variable they were given for, and a copy is equal to and independent of the original.",
  ["histories"], "every sequence of edit operations up to a depth over a few frame names, parents, joint types and variables",
  "Tests build one or two fixed scenes and never remove, re-add, rename or copy after edits.",
  ["src/rx/scenegraph.cpp", "src/rx/sg_api.cpp", "src/rx/sg_capi.c", "include/amino/rx/scenegraph_internal.h"],
  [("scene graph container", "src/rx/scenegraph.cpp"), ("public interface", "src/rx/sg_api.cpp")])

p("C19", "Forward kinematics equals composing joint transforms along the tree",
  "For every scene and configuration the absolute pose of each frame is its parent's absolute pose composed with its own joint transform, in every pose representation and through every interface, including incremental, partial and single-frame updates and any storage stride. Setting some configuration variables changes only frames downstream of them.",
  ["inputs", "configurations", "histories"], "all trees of up to 4 frames over joint types, offsets, axes and shared variables, crossed with configurations from a finite alphabet and all update orders",
  "Tests evaluate a couple of fixed chains through one interface.",
  ["src/rx/scene_kin.c", "src/rx/scenegraph.cpp", "src/rx/sg_api.cpp", "include/amino/rx/scene_fk.h"],
  [("relative joint transforms", "src/rx/scenegraph.cpp: tf_rel, tfmat_rel, duqu_rel"), ("forward kinematics", "src/rx/scene_kin.c: aa_rx_fk_*")])

p("C20", "Sub-scenegraphs select the right frames; Jacobians are derivatives",
  "A chain or selection extracted from a scene contains exactly the frames between its ends in order and, when every joint has its own variable, exactly the variables that move them, and scattering, gathering and centring of configurations round-trip without touching other variables. Its Jacobian equals the derivative of the end-effector pose with respect to each of its variables.",
  ["inputs", "configurations"], "all trees of up to 5 frames, all root/tip pairs, joint types, axes, offsets, and configurations from a finite alphabet",
  "Tests use one serial chain where local and global indices coincide.",
  ["src/rx/scene_sub.cpp", "src/rx/scene_kin.c", "include/amino/rx/scene_sub.h"],
  [("chains", "src/rx/scene_sub.cpp"), ("Jacobian", "src/rx/scene_kin.c: aa_rx_sg_sub_jacobian, aa_rx_fk_sub...")])

p("C21", "Workspace control respects its definition and joint limits",
  "Joint velocities computed from workspace velocities reproduce the requested motion when it is feasible, are the damped or null-space-projected least-squares answer otherwise, and the controller's feedback drives pose errors to zero. The constrained controller never commands velocities or accelerations beyond the given limits, nor a velocity that within the time step carries a joint past a position limit by more than what the acceleration limit allows it to make up, and tracks the reference when the limits are inactive.",
  ["inputs"], "all small arms, configurations, reference velocities, gains and limit settings from finite alphabets, for every controller entry point",
  "There are no tests of the controllers.",
  ["src/rx/scene_wk.c", "src/rx/lc3.c"], [("workspace control", "src/rx/scene_wk.c"), ("linear constrained control", "src/rx/lc3.c")])

p("C22", "Inverse kinematics reports success only for configurations that reach the pose",
  "When inverse kinematics reports success, the returned configuration is within joint limits and its forward kinematics reaches the requested pose within the requested tolerance; otherwise an error is reported. Reachable targets from nearby seeds are solved, inputs are left unchanged and scratch memory is returned.",
  ["inputs", "configurations"], "all small arms, solver kinds, objectives, seeds and targets (reachable, unreachable, beyond limits) from finite alphabets",
  "The IK test is not part of the suite that runs here, and random sampling only reaches generic targets.",
  ["src/rx/scene_ik.c", "src/rx/ik_jacobian.c", "src/rx/ik_nlopt.c", "src/rx/ik_opt.c"],
  [("Jacobian IK", "src/rx/ik_jacobian.c"), ("optimisation IK", "src/rx/ik_nlopt.c, src/rx/ik_opt.c")])

p("C23", "Trajectories meet their waypoints, stay within limits and are continuous",
  "A generated trajectory starts at the first and ends at the last waypoint at rest, never exceeds the velocity and acceleration limits it was given, has continuous position (and velocity where promised), and its reported velocity and acceleration are the derivatives of its position. Evaluating at any time, in any order, gives the same answer and times outside the trajectory are reported as such.",
  ["inputs", "histories"], "all waypoint lists up to length 4 over a small grid, joint counts up to 2-3, limits from an alphabet, all evaluation orders on a time grid",
  "The trajectory test is not part of the suite, and it evaluates one trajectory in increasing time.",
  ["src/ct/traj.cpp", "src/ct/state.c", "src/rx/rx_ct.c", "include/amino/ct/traj_internal.hpp"],
  [("parabolic blends", "src/ct/traj.cpp"), ("segments", "src/ct/traj.cpp: aa_ct_seg_*"), ("scene limits", "src/rx/rx_ct.c")])

p("C24", "Collision sets and allowed-collision filtering are exact symmetric sets",
  "A set of frame pairs contains exactly the pairs put into it, regardless of the order of a pair, and combining or clearing sets does so exactly. Pairs marked as allowed, and only those, are suppressed when checking a scene for collisions.",
  ["histories"], "every sequence of set, clear, fill and query operations over all pairs of up to 4 frames; all subsets of allowed pairs of a small colliding scene",
  "Tests check one pair.",
  ["src/rx/collision_set.cpp", "src/rx/sg_api.cpp", "src/rx/amino_fcl.cpp"],
  [("pair set", "src/rx/collision_set.cpp"), ("filtering", "src/rx/amino_fcl.cpp")])

p("C25", "Collision and distance queries agree with the geometry",
  "A scene is reported in collision, with exactly the overlapping frame pairs, precisely when shapes of two distinct non-exempt frames overlap at the given configuration, and reported distances and closest points are those of the shapes. Moving frames, non-collision geometry, scale factors and repeated or interleaved queries do not change the answer.",
  ["inputs", "configurations", "histories"], "all pairs of shape kinds (box, sphere, cylinder, mesh) and sizes over a grid of relative poses clear of contact, all frame attachments, all query orders",
  "Tests check one pair of boxes.",
  ["src/rx/amino_fcl.cpp", "src/rx/collision_set.cpp", "include/amino/rx/scene_collision.h"],
  [("shape construction and broad phase", "src/rx/amino_fcl.cpp")])

p("C26", "Linear programs are solved to optimality or reported as unsolvable",
  "For every linear program each solver back end returns a feasible point of optimal objective value for the requested direction, and reports failure when the program is infeasible or unbounded. Changing bounds, objective or constraints between solves gives the same answer as building the program afresh, and all back ends agree.",
  ["inputs", "histories"], "all programs with up to 2-3 variables and 2 constraints over a small integer alphabet including equality, one-sided, free and infinite bounds; both matrix formats; all update sequences of depth two",
  "Tests solve one fixed feasible program per solver.",
  ["src/opt/opt.c", "src/opt/opt_glpk.c", "src/opt/opt_clp.cpp", "src/opt/opt_lpsolve.c"],
  [("solver back ends", "src/opt/opt_*.c*")])

p("C27", "Mesh files are loaded completely and exactly, or rejected",
  "Loading a Wavefront object or material file yields exactly its vertices, normals, triangle faces, material names, material files and material values in order, with one-based references resolved to the right element (position, texture coordinate, normal) and each face carrying the material in effect. Any file text (also truncated, malformed, with out-of-range references or an unsupported face form) yields either such a result or an error, never a crash, a leak or an index of an element that does not exist.",
  ["inputs"], "all short files over a token alphabet (vertex, normal, texture, face forms, groups, materials, comments, blank lines, missing final newline)",
  "The parser programs are not run by the suite.",
  ["src/wavefront/wavefront.l", "src/wavefront/wf_obj.c", "src/wavefront/mtl.l", "src/wavefront/wf_mtl.c"],
  [("scanner", "src/wavefront/*.l"), ("mesh assembly", "src/wavefront/wf_obj.c")])

p("C28", "Motion plans start at the start, end at a goal and are valid throughout",
  "A plan returned for a scene begins at the start given last, ends at a configuration satisfying the goal given last (joint configuration or workspace pose), moves only the joints that are planned for, stays within joint limits and is collision free up to the collisions that are allowed and to the planner's one-percent motion resolution; an invalid or missing start or goal, or an unreachable goal, is reported and leaves no plan, and earlier plans, goals or starts have no effect. Composed plan sequences keep the order, count and contents of their parts.",
  ["inputs", "configurations", "histories", "schedules"], "all planners, goal kinds and small obstacle layouts from a finite alphabet; all append/insert sequences of plan segments up to a depth",
  "No test runs the planners or the sequence container.",
  ["src/rx/mp/scene_ompl.cpp", "src/rx/mp/scene_state_space.cpp", "src/rx/mp/scene_state_validity_checker.cpp", "src/rx/mp/workspace_goal.cpp", "src/rx/mp_seq.cpp"],
  [("planner", "src/rx/mp/"), ("plan sequence", "src/rx/mp_seq.cpp")])

p("C29", "The C++ wrapper classes give the same results as the library's definitions",
  "Every operator and method of the C++ classes for orientations, poses, vectors, matrices, planar transforms and region-backed containers returns what the mathematical operation defines (any representation converted, multiplied, inverted or applied as the same rotation or pose; any combination of scaled vectors, matrices and products assigned as the same expression), for every operand representation, increment, leading dimension and view; leaves its operands and the memory around a view unchanged; and writes nothing outside of its destination.",
  ["inputs"], "all operators and methods over all pairs and triples of a finite operand alphabet, sizes, increments and paddings",
  "The wrapper tests call each operator once or not at all.",
  ["include/amino/tf/spatial.hpp", "include/amino/tf/planar.hpp", "include/amino/mat.hpp", "include/amino/mat_internal.h", "include/amino/mem.hpp"],
  [("orientation and pose classes", "include/amino/tf/spatial.hpp"), ("vector and matrix classes", "include/amino/mat.hpp")])

p("C30", "The display window thread and its clients never deadlock, race or lose updates",
  "For every interleaving of the display thread and threads that create, configure, call into (aa_rx_win_call), stop or destroy the window: no two threads touch window state unordered, no operation waits forever (calls waiting when the loop ends are answered), each call runs its function once in the display thread and returns that result, sets, gets and displayed frames of configuration, scene and camera are consistent with one order, display contexts are destroyed exactly once and not while used, only one window exists at a time and destroying it waits for the loop and releases everything. A displayed plan or plan sequence (also empty ones) shows the interpolated way point for the frame time, and workspace dragging moves the end effector by the commanded velocity within joint limits.",
  ["schedules"], "all interleavings up to a preemption bound of a display thread and 1-2 client threads at every synchronisation call, with the graphics library replaced by recording stand-ins",
  "No test opens a window or starts the display thread.",
  ["src/rx/sdl_win.c"], [("window lock and stop condition", "src/rx/sdl_win.c")])

p("C31", "The Python classes agree with the library's definitions and never crash",
  "For every sequence of operations of the Python classes on every supported kind of argument: vectors, matrices, transforms, scene graphs, kinematics, collision sets and checks, planning and window objects return what the mathematical definitions (and the C interface) say; in-place operations change their operand and every view of it and nothing else; slices and views follow Python's slicing rules; names and ids convert both ways; options read back as they were set; invalid operands, sizes, indices, names and files raise an exception and never abort, crash or corrupt the process; every object stays usable after the objects it was made from are gone.",
  ["inputs", "histories"], "all operation sequences to a bounded depth over a grid of argument kinds, sizes, strides, slices and boundary values for every class of the Python interface, run on the address-sanitised library with freed memory filled",
  "The Python tests compute a few values on a few objects; they hold all parents, use matching sizes and never pass an invalid argument.",
  ["python/amino/mat.py", "python/amino/tf.py", "python/amino/scenegraph.py", "python/amino/kinematics.py", "python/amino/collision.py", "python/amino/motionplanning.py", "python/amino/scenewin.py"], [("DVec.__getitem__", "python/amino/mat.py"), ("Quat.__mul__", "python/amino/tf.py"), ("SceneGraph.ensure_frame_id", "python/amino/scenegraph.py")])

p("C32", "Compiled scenes load exactly; plugins stay loaded exactly while used",
  "Loading a compiled scene or mesh by name adds exactly that scene's frames, variables, limits and geometry below the requested root, to a new or an existing graph, and a missing file or name gives no object, changes nothing and leaves nothing loaded. For every sequence of loads into the same or other graphs, copies, attachments and destructions, the shared object stays loaded while any graph or mesh made from it (including copies of a graph) exists, so that their data stays readable, and is unloaded once the last is destroyed. The text of an error code names exactly its error bits.",
  ["histories", "inputs"], "all sequences of load (two plugins, two scenes, every root), failing load, copy, attach, collision set-up and destroy over two graphs and a mesh up to a depth, then both orders of destruction",
  "No test loads a compiled scene or mesh.",
  ["src/rx/plugin.c", "src/rx/scenegraph.cpp", "src/rx/sg_api.cpp", "src/rx/scene_geom.c", "src/rx/errstr.c"],
  [("loading and plugin_destructor", "src/rx/plugin.c"), ("aa_rx_sg_copy, aa_rx_sg_set_destructor", "src/rx/sg_api.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
