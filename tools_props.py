"""Writes properties.jsonl (kept in one place so that it stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech],
                    "state": [{"name": s[0], "meaning": s[1], "where": s[2]} for s in (state or [])],
                    "observe_at": observe, "hook_needed": None},
    })
RF = "rigid_body_motion/reference_frames.py"; CORE = "rigid_body_motion/core.py"
INIT = "rigid_body_motion/__init__.py"; UT = "rigid_body_motion/utils.py"; EST = "rigid_body_motion/estimators.py"
ACC = "rigid_body_motion/accessors.py"; CS = "rigid_body_motion/coordinate_systems.py"
p("C01", "Static lookups compose the tree's rigid transforms along the path",
  "For any two frames of one tree of static frames, the looked-up transform (translation, unit quaternion, no timestamps) maps the coordinates of a point in the first frame to its coordinates in the second: it equals the composition of every frame's given transform along the tree path, whichever constructor was used, whatever the depth or branching, and whether frames are referred to by registered name or by object. inverse=True means that the given transform is that of the parent wrt the frame; a missing translation or rotation means identity; looking up a frame to itself gives identity. lookup_pose(frame, reference) gives the same numbers as lookup_transform(frame, reference), and the dataset form holds the same values.",
  ["inputs", "programs"], "all trees (depth, branching, inverse flags, constructors, numeric containers) and all ordered frame pairs",
  "The tests use one fixed three-frame tree with multiples of 90 degrees; they cannot cover all trees, directions and rotations.",
  [RF, CORE, INIT], [("path walk and per-frame composition", RF + ":_walk,_get_matcher; " + CORE + ":TransformMatcher.get_transformation"), ("inversion at construction", RF + ":_init_arrays")],
  ["lookup_transform", "lookup_pose", "ReferenceFrame.lookup_transform"])
p("C02", "Moving-frame lookups are sampled and interpolated on the right time base",
  "When continuous moving frames lie on the path, the result is given at the timestamps of the first of them met when walking from the source frame to the target frame, restricted to the closed intersection of the time ranges of all of them. At each such timestamp it equals the composition of the static transforms with every moving frame's transform interpolated at that time: linearly for translation, with SQUAD for rotation, reproducing given samples at given timestamps and depending only on the rotations, not on quaternion signs. This holds for float, int and datetime64 timestamps of any resolution, regular or irregular, and an empty intersection gives empty results.",
  ["inputs", "configurations"], "all trees mixing static and moving frames, all sampling grids and timestamp types, all pairs",
  "Tests use two moving frames with a handful of regular timestamps; which frame defines the grid, boundary inclusion, irregular and mixed-rate grids and sign flips are not reached.",
  [CORE, RF], [("timestamp matching", CORE + ":TransformMatcher.get_range,get_timestamps"), ("interpolation", CORE + ":TransformMatcher._transform_from_frame")],
  ["lookup_transform", "lookup_pose", "ReferenceFrame.lookup_transform"])
p("C03", "Event-based (discrete) frames hold their last transform",
  "The transform of a frame created with discrete=True is constant between its timestamps: at time t it is the one given at the latest timestamp <= t, and before its first timestamp it is the first one. Such frames never restrict the time range of a lookup and never define its sampling while a continuous moving frame or a timestamped array takes part; if only discrete frames are on the path, the result is sampled at the sorted union of their timestamps without duplicates.",
  ["inputs", "configurations"], "all mixtures of static, continuous and discrete frames, any event times relative to the query grid, single-event frames included",
  "Tests have one discrete frame with two events inside the range; ties, events before or after the range, single events and unions of several discrete frames are not reached.",
  [CORE, RF], [("hold-last sampling", CORE + ":TransformMatcher._transform_from_frame"), ("union of event times", CORE + ":TransformMatcher.get_timestamps")],
  ["lookup_transform", "transform_points", "transform_vectors", "transform_quaternions"])
p("C04", "Array transforms apply the looked-up transform for any array layout",
  "transform_points, transform_vectors and transform_quaternions give R*p+t, R*v and r*q respectively for every point, vector and quaternion of the array, with the transform from the source to the target frame, whatever the number of dimensions, the position of the spatial axis (axis/dim) and of the time axis (time_axis), dtype or memory layout, and the result keeps the array's layout. With timestamps, the transform is evaluated at the array's own timestamps restricted to the range common with all continuous moving frames, and those timestamps are returned; a static vector transformed across a moving frame yields one row per timestamp. The top-level functions, the ReferenceFrame methods and the DataArray form agree.",
  ["inputs", "configurations"], "all array shapes, axis and time_axis combinations, dtypes, containers, static and moving paths",
  "Tests use (3,) and (10, 3) arrays with default axes only.",
  [RF, INIT, CORE], [("axis handling and rotation", RF + ":transform_points,transform_vectors,transform_quaternions"), ("resampling", CORE + ":TransformMatcher._resample_array"), ("argument unpacking", CORE + ":_maybe_unpack_dataarray,_transform")],
  ["transform_points", "transform_vectors", "transform_quaternions"])
p("C05", "Transforms are invertible, transitive isometries",
  "Transforming from A to B and back returns the original array; going from A to C directly equals going through any intermediate frame B; distances between points and lengths and angles of vectors are preserved and orientation (handedness) is kept; transforming quaternions is consistent with transforming vectors (rotating a vector by a transformed quaternion equals transforming the rotated vector). For moving frames this holds at the timestamps kept by the transforms involved.",
  ["inputs", "programs"], "all trees, frame triples and arrays",
  "An algebraic law over all frame triples; tests compare single fixed values.",
  [RF, CORE, UT], [("inversion for downward steps", CORE + ":TransformMatcher.get_transformation"), ("rotation of vectors", UT + ":rotate_vectors")],
  ["transform_points", "transform_vectors", "transform_quaternions", "lookup_transform"])
p("C06", "xarray inputs keep their labels, coordinates and frame metadata",
  "A transformed DataArray has the input's dimensions in the same order, its name and its attributes, with the transformed frame attribute (reference_frame, or representation_frame for vectors; as selected by `what` for velocities) and representation_frame set to the target frame's name, and the values of the equivalent ndarray call. If the timestamps changed, the time coordinate holds the new ones and every other coordinate along time is interpolated (numeric) or taken from the nearest sample (other types) there; coordinates not along time are untouched; a static array crossing a moving frame gets a leading time dimension. An omitted outof is taken from the attributes, an explicit one wins over a conflicting attribute with a warning, and the Dataset/DataArray results of lookup_* carry the right values, timestamps, axis labels, units and frame names.",
  ["inputs", "configurations"], "all DataArrays (dimension order, coordinates along any dimension, attributes, timestamp argument forms) and all lookup_* labelled outputs",
  "Tests check one DataArray layout; coordinate resampling, permuted dimensions and metadata defaults are barely touched.",
  [CORE, INIT, EST, ACC], [("unpack/repack of DataArrays", CORE + ":_maybe_unpack_dataarray,_make_dataarray,_transform"), ("labelled lookup results", CORE + ":_make_transform_or_pose_dataset,_make_twist_dataset,_make_velocity_dataarray")],
  ["transform_*", "lookup_*", "estimate_*_velocity", "DataArray.rbm.qinterp", "DataArray.rbm.qinv"])
p("C07", "Calls never modify their inputs and queries never change later results",
  "No public function or method modifies the arrays, DataArrays, Datasets or attribute dictionaries passed to it, including those a frame was constructed from; plots, ROS messages and rosbags of a frame or an array only read them. Lookups, transforms and estimates are pure: repeating a query at any later point, after any number and order of other queries or after writing into previously returned arrays, gives identical results.",
  ["inputs", "histories"], "all public functions, all argument containers and all query histories on unchanged trees",
  "Tests call each function once on throw-away arrays and never compare inputs before and after.",
  [INIT, RF, CORE, UT, EST, CS, ACC], [("copies on write", CORE + ":_transform,_maybe_unpack_dataarray"), ("fresh result arrays", CORE + ":TransformMatcher")],
  ["every public function"])
p("C08", "The frame registry and tree follow the registration history",
  "After any sequence of register_frame, ReferenceFrame construction, register, deregister_frame/deregister, update=True and clear_registry calls, a name resolves to the frame registered last under it and not deregistered since (and is an error otherwise), while frame objects stay usable. Deregistering or clearing leaves tree structure and the transforms between remaining objects unchanged; update=True detaches the replaced frame (its children stay below it) and re-registering the same object changes nothing. A call that fails (duplicate name, missing name, unknown parent, malformed arguments) changes neither the registry nor any tree.",
  ["histories"], "all histories of registry and tree operations, with name reuse and failing calls interleaved",
  "Tests register and clear once; histories with name reuse, updates and failed calls are not explored.",
  [RF, CORE, INIT], [("registry dictionary", RF + ":_register,_deregister,clear_registry"), ("name resolution", CORE + ":_resolve_rf"), ("attachment to the tree", RF + ":ReferenceFrame.__init__")],
  ["register_frame", "deregister_frame", "clear_registry", "render_tree", "ReferenceFrame", "lookup_transform"],
  [("_registry", "names of registered frames", RF)])
p("C09", "Linear velocity is the time derivative of position in the right frame",
  "lookup_linear_velocity, the linear part of lookup_twist and estimate_linear_velocity equal the finite-difference time derivative (second order in the interior, one-sided at the ends, actual spacing, seconds for datetimes) of the position of the frame wrt the reference frame at the lookup's timestamps, rotated into the representation frame at each time. Reference defaults to the parent frame and representation to the reference (top-level) or parent (method); the result is the same for any axis/time_axis layout, container and timestamp resolution. A static pair raises ValueError, or gives zeros with allow_static=True.",
  ["inputs", "configurations"], "all trajectories, sampling grids, timestamp types, layouts and reference/representation pairs",
  "Tests check shapes and one sinusoid on a regular grid.",
  [CORE, RF, EST, INIT], [("gradient", CORE + ":_estimate_linear_velocity"), ("representation change", RF + ":lookup_linear_velocity,lookup_twist")],
  ["lookup_linear_velocity", "lookup_twist", "estimate_linear_velocity"])
p("C10", "Angular velocity is that of the rotation in the right frame",
  "For smooth motions, lookup_angular_velocity, the angular part of lookup_twist and estimate_angular_velocity converge to the true angular velocity of the frame wrt the reference as sampling gets finer: body-frame components from estimate_angular_velocity, rotated into the representation frame by the lookups. Results do not depend on sign flips of the quaternions, on array layout or on timestamp resolution; with the default mode NaN samples affect only themselves; mode='rotation_vector' gives the gradient of the (sign-continuous) rotation vector, in the lookups as in the estimator; constant rotation gives zero. A static pair raises ValueError, or gives zeros with allow_static=True.",
  ["inputs", "configurations"], "all smooth rotation histories, sampling grids, timestamp types, NaN patterns, layouts and frame pairs",
  "Tests check one sinusoid with a loose tolerance; direction of representation, irregular sampling, sign flips and NaN gaps are not checked.",
  [CORE, RF, EST, INIT], [("quaternion derivative", CORE + ":_estimate_angular_velocity"), ("representation change", RF + ":lookup_angular_velocity,lookup_twist")],
  ["lookup_angular_velocity", "lookup_twist", "estimate_angular_velocity"])
p("C11", "Velocity transforms obey rigid-body kinematics",
  "transform_angular_velocity and transform_linear_velocity produce the velocity the requested change of reference, moving or representation frame implies: changing the reference frame adds the angular velocity of the old wrt the new reference and (for linear velocity) its linear velocity plus angular velocity x lever arm to the moving frame; changing the moving frame adds the relative velocity of the new wrt the old moving frame (plus angular velocity of the rigid body x lever arm); changing the representation frame only rotates; all expressed in the target frame. Transforming a looked-up velocity therefore agrees with looking up the velocity wrt the target directly, for any tree of smooth motions and any array layout; an array with timestamps of its own gets the velocities interpolated to these; and between mutually static frames the formulas hold exactly.",
  ["inputs", "configurations"], "all trees of smooth motions, all choices of `what`, moving/reference frames and layouts",
  "Tests use one geometry with a single axis of motion and default layouts.",
  [RF, INIT, CORE], [("velocity addition", RF + ":transform_angular_velocity,transform_linear_velocity"), ("attribute-driven outof", CORE + ":_transform")],
  ["transform_angular_velocity", "transform_linear_velocity"])
p("C12", "Quaternion products, inverses and vector rotation obey the algebra",
  "qmul is the associative Hamilton product of two or more quaternions in order, qinv its inverse for any non-zero quaternion, and rotate_vectors applies the rotation matrix of the quaternion to each vector: for any non-zero (not only unit) quaternion, any position of the quaternion and spatial axes, singleton broadcasting, quaternion dtype or float input, array-like containers, one-to-one or all combinations. Hence rotate(qmul(a,b), v) = rotate(a, rotate(b, v)), rotating by the inverse undoes it, lengths are kept, and q and -q rotate identically.",
  ["inputs"], "all non-zero quaternions, vectors, shapes and axis positions",
  "Tests use a few unit quaternions and fixed shapes.",
  [UT], [("product and inverse", UT + ":qmul,qinv"), ("rotation formula", UT + ":rotate_vectors")],
  ["qmul", "qinv", "rotate_vectors", "DataArray.rbm.qinv"])
p("C13", "qmean is the rotation average",
  "qmean returns a unit quaternion maximising the sum of squared dot products with the inputs, along the requested axis or axes (all by default): equal inputs give that rotation, the result is the same up to sign for any order and any signs of the inputs, equivariant under left and right multiplication by a rotation, and the mean of two quaternions is their midpoint. Quaternion dtype and float input give the same result, as does any position of the quaternion axis when averaging all quaternions.",
  ["inputs"], "all sets of unit quaternions with a unique mean, all shapes and axes",
  "Tests average one set whose answer is the identity.",
  [UT], [("eigenvector of the outer-product matrix", UT + ":qmean")], ["qmean"])
p("C14", "Euler angles give the composed axis rotations in the given order",
  "from_euler_angles returns the unit quaternion of the product of rotations about x (roll), y (pitch) and z (yaw) multiplied in the order given, omitted angles counting as zero, for any angle including beyond +-pi and gimbal lock, any array shape and axis, as separate arguments or as an rpy array, float or quaternion output.",
  ["inputs"], "all angles, orders, shapes and argument forms",
  "Tests check two fixed angles.",
  [UT], [("rotor chaining", UT + ":from_euler_angles")], ["from_euler_angles"])
p("C15", "Quaternion interpolation is exact at samples and rotation-valued between",
  "qinterp and DataArray.rbm.qinterp perform SQUAD interpolation along the requested axis: unit quaternions come out, samples are reproduced at their timestamps, constant-rate rotation about a fixed axis is reproduced exactly in between, the result does not depend on quaternion signs, is equivariant under a fixed rotation of all samples and does not depend on time unit or offset. Any position of time and quaternion axes, extra dimensions, quaternion dtype and datetime or numeric timestamps give the same values, and the accessor keeps dimensions, name and attributes, and resamples other coordinates (interpolated if numeric, nearest otherwise).",
  ["inputs"], "all rotation series, grids, layouts and timestamp types",
  "Tests check one time series at its midpoints.",
  [UT, ACC], [("SQUAD", UT + ":qinterp"), ("coordinate resampling", ACC + ":DataArrayAccessor.qinterp")],
  ["qinterp", "DataArray.rbm.qinterp"])
p("C16", "Coordinate-system transforms follow their definitions and round-trip",
  "transform_coordinates maps cartesian <-> polar (2D: r, phi) and cartesian <-> spherical (3D, ISO 80000-2: r, polar angle theta in [0, pi], azimuth phi in [-pi, pi]) for every point including the origin and the axes, along any axis of any array, and round trips return the cartesian input; any other pair of systems is rejected. With a DataArray the coordinate dimension is renamed and relabelled (unless replace_dim=False), its coordinate_system attribute, if present, is updated and used as default source, and other dims, coords, name and attrs are kept.",
  ["inputs"], "all points, shapes, axes, containers and system pairs",
  "Tests check a few fixed points.",
  [CS, INIT, CORE], [("conversions", CS), ("dimension relabelling", CORE + ":_replace_dim")], ["transform_coordinates"])
p("C17", "Alignment estimators return optimal proper rigid transforms",
  "best_fit_rotation and best_fit_transform return the rotation (and translation) of least squared error over all proper rigid motions, for any point sets including noisy, planar, collinear and mirrored ones, in any layout; shortest_arc_rotation returns, for every pair of non-zero vectors including (anti)parallel ones, a unit quaternion turning the first onto the direction of the second through the smallest possible angle. iterative_closest_point returns a proper rigid transform that recovers a small displacement of a well-separated point cloud, in any point order, honours the initial guess and, with a tolerance in the same units, does not depend on the unit of length.",
  ["inputs"], "all vector pairs and point sets, shapes and axes",
  "Optimality is a statement over all competing rotations; tests check noiseless examples.",
  [EST], [("SVD alignment", EST + ":best_fit_rotation,best_fit_transform"), ("half-way quaternion", EST + ":shortest_arc_rotation"), ("ICP loop", EST + ":iterative_closest_point")],
  ["best_fit_rotation", "best_fit_transform", "shortest_arc_rotation", "iterative_closest_point"])
p("C18", "OptiTrack import yields the recorded poses",
  "load_optitrack returns, for every rigid body of an export (and for no marker), positions in metres (centimetre exports converted), unit quaternions for the recorded Euler angles (degrees) in the recorded rotation order, and absolute timestamps = capture start + frame time, for any number and names of bodies, one or more rows, markers in between, and missing samples; numpy, pandas and xarray formats hold the same values.",
  ["inputs"], "all exports of the supported CSV layout",
  "The tests read one small file in three formats and check shapes.",
  ["rigid_body_motion/io.py", UT], [("CSV parsing and conversion", "rigid_body_motion/io.py:load_optitrack")], ["load_optitrack"])
p("C19", "ROS messages and rosbags round-trip poses, timestamps and frames",
  "Packing values into ROS messages and unpacking them returns the same values, with quaternions w-first on the library side and x,y,z,w in the message, and header frame, child frame and stamp set as given. Writing transforms to a rosbag and reading them back returns all messages in order with their timestamps, positions and orientations; Odometry and TransformStamped topics are read as recorded (header stamps where present), load_dataset labels them, and exported or cached netCDF files reproduce them to within the file format's 1e-4 quantisation, however large they are, missing values included. Series whose timestamps, positions and orientations do not fit together are refused without writing anything.",
  ["inputs"], "all message contents, topics and timestamps (ROS client libraries replaced by recording stand-ins)",
  "ROS is not installed, so no test of this code runs.",
  ["rigid_body_motion/ros/msg.py", "rigid_body_motion/ros/io.py"], [("message packing", "rigid_body_motion/ros/msg.py"), ("bag reading and writing", "rigid_body_motion/ros/io.py")],
  ["RosbagReader", "RosbagWriter", "ros.msg.*"])
p("C20", "ROS publishers broadcast the frame's transform at the right instants",
  "Transformer.from_reference_frame feeds every non-root frame's transforms to the buffer with parent, child and stamps, so its lookups and transforms agree with the library's; a ReferenceFrameTransformBroadcaster publishes the transform (and, if asked for, pose and twist, all stamped with the time of the sample) of the frame wrt its base at the requested index, at the current index by default, at the sample nearest to an incoming message, and cycles through all samples in order when spinning; a marker publisher holds at most max_points points of the path, evenly sub-sampled in order, and publishes only when its marker changed; pose, twist and marker topics show their latest message to subscribers that connect later, and the ros3d widget shows the marker's topic relative to the base frame. After stop() at most one further message is published and the thread ends. play_publisher steps, plays and jumps over exactly the publisher's samples, publishing the index shown; init_node starts a roscore only when none is running and stops only the one it started.",
  ["inputs", "schedules"], "all frames, indices, message sequences and thread schedules (ROS client libraries replaced by recording stand-ins)",
  "ROS is not installed, so no test of this code runs; schedules of spin/stop are never explored.",
  ["rigid_body_motion/ros/transformer.py", "rigid_body_motion/ros/visualization.py"], [("buffer filling", "rigid_body_motion/ros/transformer.py:Transformer"), ("broadcast loop", "rigid_body_motion/ros/transformer.py:ReferenceFrameTransformBroadcaster"), ("marker", "rigid_body_motion/ros/visualization.py")],
  ["Transformer", "ReferenceFrameTransformBroadcaster", "ReferenceFrameMarkerPublisher"])
p("C21", "Plots show the given geometry",
  "plot_points, plot_vectors, plot_quaternions and plot_reference_frame draw exactly the given points, vectors (from their base points), rotated axes and frame axes (transformed into the world frame when given), on the axes passed in or a new 3D axes, the three axes of a quaternion with equal lengths, and leave the axes with equal scale and limits that contain everything plotted by plot_reference_frame.",
  ["inputs"], "all arrays, bases, frames and arrow lengths",
  "Tests only check that the calls return.",
  ["rigid_body_motion/plotting.py"], [("artists", "rigid_body_motion/plotting.py:plot_*"), ("limits", "rigid_body_motion/plotting.py:_add_frame,_set_axes_equal")],
  ["plot_points", "plot_vectors", "plot_quaternions", "plot_reference_frame"])
p("C22", "Concurrent read-only queries return sequential results",
  "Any number of threads that look up, transform and estimate on the same unchanged frame trees at the same time obtain exactly the results the same calls give sequentially; no interleaving makes a query fail or mix data of another one.",
  ["schedules"], "all thread interleavings of queries on shared frames and registry",
  "No test uses threads.",
  [RF, CORE, INIT], [("per-call matcher state", CORE + ":TransformMatcher"), ("immutable frame data", RF + ":ReferenceFrame")],
  ["lookup_transform", "lookup_twist", "transform_points", "transform_vectors", "transform_quaternions", "estimate_*", "q* functions"])
p("C23", "Velocity filtering removes noise and outliers and nothing else",
  "With cutoff (a fraction of the Nyquist frequency) velocity estimates are low-pass filtered along time with zero phase: constant and slow components pass unchanged, components well above the cutoff are suppressed, the filter is linear and acts on each component separately. With outlier_thresh, samples whose second-order position (or rotation) differences exceed the threshold are replaced by interpolation of the remaining estimates: isolated jumps of an otherwise smooth track leave the estimate close to the smooth track's velocity, and data below the threshold are returned unchanged. Both options, alone or together, mean the same in the estimate_*, lookup_* and twist functions, for any supported layout.",
  ["inputs"], "all signals, cutoffs, thresholds and layouts",
  "Tests only check one noisy example's shape.",
  [CORE, RF, EST], [("filtering", CORE + ":_estimate_linear_velocity,_estimate_angular_velocity")],
  ["estimate_linear_velocity", "estimate_angular_velocity", "lookup_linear_velocity", "lookup_angular_velocity", "lookup_twist"])
p("C24", "Malformed requests are rejected, never answered with numbers",
  "Wrongly shaped translations, rotations, timestamps, arrays or axes, transforms given to a root frame, decreasing timestamps, discrete frames without timestamps, unknown or unsupported frames, methods, modes, `what` values, coordinate systems, orders and formats, conflicting or missing arguments and frames in different trees raise an error (ValueError for bad values, TypeError for non-frames) instead of returning a result, and leave registry and trees as they were.",
  ["inputs"], "all malformed variants of otherwise valid calls",
  "Tests cover some of the messages with one input each.",
  [RF, CORE, INIT, UT, EST], [("argument validation", RF + ":_init_arrays,_validate_input,_verify_root"), ("dispatch checks", CORE + ":_transform,_maybe_unpack_dataarray,TransformMatcher._check_timestamps")],
  ["every public function"])
p("C25", "Missing samples stay local and are never replaced by numbers",
  "NaN samples in a frame's translations or rotations, in timed or untimed arrays, or in arguments of element-wise functions affect only results that need them: outputs at the times of complete samples (same grid), outside the bracketing samples (two samples for rotations) when interpolating, in other rows, columns and components, in vectors when only translations are missing, and at velocity samples without a missing neighbour are exactly those of the complete data; a missing event of a discrete frame lasts until the next event. Outputs at a missing sample or strictly between its neighbours are NaN, never finite numbers, and the estimated velocity beside a missing position is NaN. Angular velocities of the remaining rotations stay those of the motion, in mode 'rotation_vector' also across gaps with sign flips.",
  ["inputs"], "all positions, lengths and components of the gaps, all trees, arrays, layouts and query times",
  "Tests contain one trajectory with missing samples and check no values around them.",
  [RF, CORE, INIT, UT], [("interpolation", CORE + ":TransformMatcher"), ("velocity estimates", CORE + ":_estimate_linear_velocity,_estimate_angular_velocity,_as_continuous_rotation_vector")],
  ["lookup_transform", "lookup_pose", "transform_*", "lookup_*_velocity", "lookup_twist", "estimate_*", "qinterp", "qmul", "qinv", "rotate_vectors", "coordinate functions"])
p("C26", "Optional packages stay optional",
  "With any subset of the optional packages pandas, xarray, numba, pooch, netCDF4, matplotlib and the ROS client libraries and widgets not installed, the package and its io, plot and ros modules import, and every function gives the same results for ndarrays as with all of them. A feature that needs an absent package (xarray results and accessors, OptiTrack import, plots, example data, rosbags, publishers) raises ImportError when it is used, without changing frames or registry; features that do not need it are unaffected. The documented functions can be imported from the top level, also with import *, and example_data[name] retrieves the file of that name with its known hash (KeyError for other names).",
  ["inputs", "configurations"], "all subsets of installed optional packages, all functions and data",
  "The tests run in one environment in which (nearly) everything is installed.",
  [INIT, UT, EST, CORE, "rigid_body_motion/plot.py", "rigid_body_motion/io.py", "rigid_body_motion/ros/__init__.py"], [("deferred imports", CORE + ":_make_dataarray"), ("stubs", "rigid_body_motion/plot.py:fn_stub"), ("example data", UT + ":ExampleDataStore")],
  ["every public function", "example_data", "io.load_optitrack", "plot.*", "ros.*"])
p("C27", "Equivalent calls give equal answers",
  "The same request gives the same numbers and timestamps however it is made: frames by registered name or as objects; functions or ReferenceFrame methods; arrays as lists, tuples, ndarrays of any byte order, memory layout, subclass or number type that holds the values, or as DataArrays with the corresponding dims; axes counted from the front or the back or left at their default; timestamps as arrays, lists, pandas indexes or series, labelled coordinates or datetimes of another unit; results plain, with timestamps, or as labelled data; and frames created with register_frame, the ReferenceFrame constructor, from_dataset or with inverse=True and inverted data.",
  ["inputs"], "all calls and all of their equivalent spellings",
  "Tests compare a few pairs of spellings on one example each.",
  [INIT, RF, CORE, UT, EST], [("array conversion", RF + ":_validate_input,_init_arrays"), ("labelled input", CORE + ":_maybe_unpack_dataarray,_make_dataarray"), ("frame resolution", CORE + ":_resolve_rf")],
  ["every public function"])
p("C28", "Results follow changes of units, clocks and the world frame",
  "Multiplying all lengths by a factor multiplies the lengths in the results (translations, points, linear velocities, radii, fitted translations) by it and leaves rotations and angles unchanged, at any magnitude, the tolerance of iterative_closest_point and the position threshold of outlier removal being lengths too; multiplying all times by a factor divides velocities by it, shifting them shifts timestamps only, and datetimes give the results of the same times in seconds; moving the whole tree rigidly by adding a frame above its root changes nothing below; the lengths of quaternions given to rotate_vectors do not matter, and those of qmul and qinv multiply and invert.",
  ["inputs"], "all trees, arrays and factors",
  "Tests use data of one order of magnitude and never compare units.",
  [CORE, RF, EST, UT, INIT], [("velocity estimates", CORE + ":_estimate_linear_velocity,_estimate_angular_velocity"), ("fits", EST), ("resampling", CORE + ":TransformMatcher")],
  ["lookup_*", "transform_*", "estimate_*", "best_fit_*", "iterative_closest_point", "shortest_arc_rotation", "transform_coordinates", "qinterp", "rotate_vectors", "qmul", "qinv"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
