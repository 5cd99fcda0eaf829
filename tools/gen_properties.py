#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
I, H, C, F = "inputs", "histories", "configurations", "fault_sequences"
ME, HE, FM, LS, BO, OP, SE, IO = ("src/Mesh.cpp", "src/Heap.cpp", "src/FastMarchingMethod.cpp", "src/LevelSet.cpp",
                                  "src/Boundary.cpp", "src/Optimise.cpp", "src/Sensitivity.cpp", "src/InputOutput.cpp")

# ---------------------------------------------------------------- mesh
p("C01", "Grid numbering is a bijection between node indices and coordinates",
  "For every grid of at least one element each way, node i sits at column i mod (width+1) and row i div (width+1), the coordinate-to-index table is the inverse of that map, and a node is flagged as lying on the domain boundary exactly when it is in the first or last column or row.",
  [I], "all mesh widths and heights, all nodes",
  "The mesh test looks at one small mesh; an error that shows only for non-square grids or in one column passes it.",
  [ME, "src/Mesh.h"], [("node initialisation", "Mesh::initialiseNodes"), ("mesh constructor", "Mesh::Mesh")])
p("C02", "Every node lists its four grid neighbours, with a marker at the domain edge",
  "For every grid of at least one element each way, each node's neighbour list names, in the order left, right, down, up, exactly the adjacent node in that direction, and holds the out-of-range marker (the node count) exactly where the domain ends in that direction.",
  [I], "all mesh sizes, all nodes, all four directions",
  "The test compares one small mesh; all later stages silently rely on the marker and the ordering.",
  [ME], [("neighbour initialisation", "Mesh::initialiseNeighbours")])
p("C03", "Elements list their corners anticlockwise and nodes list their elements",
  "For every grid of at least one element each way, element i is the unit cell at column i mod width, row i div width with its centre at the cell midpoint; it lists its corners in the order bottom-left, bottom-right, top-right, top-left; and each node's element list contains exactly the elements it is a corner of, each once, with a matching count.",
  [I], "all mesh sizes, all elements and nodes",
  "The test samples one mesh; a swapped corner or missing back-reference for one element class is invisible there.",
  [ME], [("element initialisation", "Mesh::initialiseElements")])
p("C04", "Point lookup is total on the closed domain and consistent between overloads",
  "For every point of the closed domain the element lookup returns an existing element that contains the point, the node lookup returns the corner of that element nearest to the point, and the coordinate-pair and coordinate-object forms of each lookup give the same answer.",
  [I], "all points in [0,width]x[0,height], all mesh sizes, both call forms",
  "No test calls the lookups with points on edges, corners or the domain boundary; the domain is continuous.",
  [ME], [("element lookup", "Mesh::getElement"), ("node lookup", "Mesh::getClosestNode")])
# ---------------------------------------------------------------- heap
p("C05", "The priority queue always yields the smallest key and tracks every entry",
  "After any sequence of insertions, removals and key changes, the entry handed out next has the smallest key, an entry's key and payload are the ones last given for it, and the handle returned at insertion still addresses that entry.",
  [H], "all sequences of push, pop and set with any keys",
  "The tests run three short random sequences; ordering and handle tracking must survive every interleaving of the three operations.",
  [HE, "src/Heap.h"], [("sifting", "Heap::siftUp, Heap::siftDown"), ("operations", "Heap::push, Heap::pop, Heap::set, Heap::peek")])
p("C06", "The priority queue refuses to overflow or to yield from empty",
  "No sequence of queue operations reads or writes outside the queue's storage: an insertion beyond the declared capacity and a removal or inspection of an empty queue stop the program with a diagnostic and a failure status before any entry is touched.",
  [H], "all operation sequences, including interleaved insertion and removal",
  "The tests never exceed the capacity nor empty the queue; a missing or wrong bound corrupts memory only in those histories.",
  [HE], [("capacity and emptiness guards", "Heap::push, Heap::pop, Heap::peek")])
# ---------------------------------------------------------------- FMM
p("C07", "Fast marching: nodes only advance from far to trial to frozen, once each",
  "In every march a node moves only from far to trial to frozen; it is queued exactly once, when it becomes trial; it is frozen only when it is taken off the queue or belongs to the initial front; and the distance of a frozen node is never changed again.",
  [I], "all grids and all initial signed-distance fields, with and without velocity extension",
  "One 4x4 example is tested; re-queuing or re-opening a frozen node appears only with particular fronts.",
  [FM], [("status changes", "FastMarchingMethod::initialiseFrozen, initialiseTrial, solve")])
p("C08", "Fast marching: queue keys follow the trial distances",
  "While a node is on the queue its key is the absolute value of its current distance: it is inserted with that value, every later change of its distance updates the key through that node's own handle, and each newly frozen node causes its unfrozen neighbours (and trial nodes one step beyond) to be recomputed.",
  [I], "all grids and fields, every update of every trial node",
  "A stale key changes the acceptance order only for some fronts; the single 4x4 example has one ordering.",
  [FM], [("march loop", "FastMarchingMethod::solve, initialiseTrial")])
p("C09", "Fast marching: upwind update uses only frozen neighbours and keeps the side",
  "The distance computed for a node uses, per axis, only the frozen neighbour closest to the front, is second order exactly when the next node beyond it is frozen and no further from the front, solves the resulting quadratic, and takes the root on the side of the front where the node originally lay (keeping the old value when there is no real root).",
  [I], "all neighbour configurations, statuses and values",
  "The combination of neighbours, statuses and orderings is large; the one tested field visits few of them.",
  [FM], [("upwind stencil", "FastMarchingMethod::updateNode"), ("root selection", "FastMarchingMethod::solveQuadratic")])
p("C10", "Fast marching: the initial front is frozen at its interpolated distance",
  "Exactly the nodes with zero distance, or with an opposite-sign neighbour, form the initial front; the former keep their value and the latter get the distance interpolated from the nearest crossing along each axis, with their original sign, computed from the unmodified input field.",
  [I], "all grids and initial fields",
  "Only one circle and one plane are sampled; axis, sign and ordering mistakes need other fields.",
  [FM], [("front initialisation", "FastMarchingMethod::initialiseFrozen")])
p("C11", "Velocity extension leaves distances unchanged and touches only active nodes",
  "Extending velocities leaves every signed distance exactly as it was, on every completed call; it assigns new velocities only to nodes of the narrow band, and each is the average of the velocity of the nearest frozen neighbour per axis weighted by the distance differences.",
  [I], "all grids, fields, velocities and narrow bands",
  "No test runs a velocity extension.",
  [FM], [("velocity march", "FastMarchingMethod::march(signedDistance, velocity)"), ("velocity average", "FastMarchingMethod::finaliseVelocity")])
p("C12", "Each march is independent of earlier marches on the same object",
  "The result of a march depends only on the grid and the fields passed to it: status, queue and mode left by an earlier march on the same object have no influence, and no storage is leaked or released twice.",
  [H], "all sequences of marches on one object, in both modes",
  "Every test uses a fresh object for a single march.",
  [FM, "src/FastMarchingMethod.h"], [("state reset", "FastMarchingMethod::march, initialiseFrozen, initialiseHeap"), ("queue ownership", "FastMarchingMethod destructor")])
# ---------------------------------------------------------------- LevelSet
p("C13", "Every way of constructing a level set validates and initialises alike",
  "All constructors reject a narrow band of width two or less and a move limit outside the open interval (0,1) with a diagnostic and failure status, size every per-node field to the grid, initialise the requested shape and build the narrow band; those taking a target store the target's reinitialised signed distance before initialising the structure.",
  [I, C], "all constructors and all arguments",
  "The tests use one constructor with valid arguments; six sibling constructors must agree.",
  [LS], [("constructors", "LevelSet::LevelSet (six overloads)")])
p("C14", "The narrow band is exactly the set of free nodes near the boundary",
  "After every operation that rebuilds the narrow band, a node is active and listed exactly once if and only if it is not masked, is not on a fixed domain boundary and lies closer to the zero contour than the band width; and it is a mine, flagged and listed, if and only if it is such a node farther than the band width minus one.",
  [I, H], "all fields, band widths, masks and fixed-domain settings, after any history of rebuilds",
  "No test inspects the band; stale flags need a moving boundary.",
  [LS], [("narrow band construction", "LevelSet::initialiseNarrowBand")])
p("C15", "A level-set update moves only the narrow band, and keeps the domain closed",
  "An update changes the signed distance of exactly the narrow-band nodes, each by minus time step times gradient times velocity, and afterwards no updated node on the domain boundary has a positive signed distance.",
  [I], "all fields, velocities, gradients, time steps and bands",
  "No test performs an update.",
  [LS], [("explicit update", "LevelSet::update")])
p("C16", "An update reaching the band edge reinitialises and reports it",
  "An update reinitialises the signed distance function and rebuilds the narrow band, and returns true, if and only if after the move some mine lies within unit distance of the zero contour; otherwise it returns false; reinitialisation always means a full march followed by a narrow band rebuild.",
  [I, H], "all fields and histories of updates",
  "No test performs an update; the trigger needs a moving boundary.",
  [LS], [("mine check", "LevelSet::update"), ("reinitialisation", "LevelSet::reinitialise")])
p("C17", "Masking voids exactly the nodes inside the region, for good",
  "Masking with circles, a rectangle or a polygon turns exactly the nodes strictly inside the region into void (just negative distance), marks them permanently as masked so that they are never part of any later narrow band, and then reinitialises the signed distance; all region forms agree in this.",
  [I, H], "all regions, grids and later histories",
  "No test masks anything.",
  [LS], [("masking", "LevelSet::mask (holes and points)"), ("mask exclusion", "LevelSet::initialiseNarrowBand")])
p("C18", "Gradient stencils stay on the grid and mirror each other in all directions",
  "For every node of any grid at least four cells wide and high, the gradient computation reads only existing nodes; the left, right, down and up stencils are mirror images and transposes of one another, including at and next to every domain edge, and corner nodes are treated alike at all four corners.",
  [I], "all grids at least 4x4, all nodes including edges and corners",
  "The gradient is not tested; each of the 24 edge cases is a separate branch.",
  [LS], [("stencil selection", "LevelSet::computeGradient")])
p("C19", "The gradient is the fifth-order upwind combination, and zero off the band",
  "The gradient of a narrow-band node is the Euclidean combination of those one-sided fifth-order weighted essentially non-oscillatory derivatives that are upwind for the sign of its velocity (with the diagonal rule at corners), and the gradient of every other node is zero.",
  [I], "all fields, velocities and bands",
  "The gradient is not tested and its formula has many coefficients that matter only for particular data.",
  [LS], [("WENO weights", "LevelSet::gradHJWENO"), ("upwind choice", "LevelSet::computeGradient"), ("driver", "LevelSet::computeGradients")])
p("C20", "Boundary velocities are mapped to nodes by normalised inverse-square weights",
  "Mapping boundary velocities onto the grid gives each narrow-band node near the boundary the inverse-squared-distance weighted average of the boundary points for which it is the closest node or a neighbour of it within unit distance, a node coinciding with a point takes exactly that point's velocity, earlier velocities never leak in, and the mapped values are then extended.",
  [I], "all boundary point sets and velocities",
  "No test maps velocities.",
  [LS], [("interpolation", "LevelSet::initialiseVelocities"), ("driver", "LevelSet::computeVelocities")])
p("C21", "Thermal noise respects the move limit by shrinking the time step",
  "With noise, the time step is divided by 8 x time step x temperature / (move limit squared) exactly when the root-mean-square displacement would exceed half the move limit, that factor (otherwise one) is returned, and every boundary point receives independent Gaussian noise of standard deviation sqrt(2 T / time step / length) for the reduced time step before velocities are mapped.",
  [I], "all temperatures, time steps, move limits and point sets",
  "No test uses noise; outcomes are random.",
  [LS], [("stochastic velocities", "LevelSet::computeVelocities (stochastic)")])
p("C22", "Area fractions follow element status and add up to the reported total",
  "Every element's material fraction is one if it lies fully inside, zero if fully outside, and otherwise the area of its cut polygon, or one minus it when the polygon describes the void part; every element's fraction is recomputed on every call, and the returned and stored total is the sum over all elements.",
  [I], "all discretised boundaries, all element configurations",
  "The tests use a one-element mesh and a handful of sign patterns.",
  [LS], [("area fractions", "LevelSet::computeAreaFractions"), ("cut polygon", "LevelSet::cutArea")])
p("C23", "Cut-polygon vertices are complete, in range, and sorted consistently",
  "The polygon of a cut element consists of every corner on the measured side, qualifying boundary corners, and both end points of every boundary segment of the element, never exceeding its storage; its vertices are ordered by a proper angular ordering about the element centre and its area is half the absolute shoelace sum.",
  [I], "all sign patterns and segment sets of an element",
  "Sort comparators that are not strict orderings misbehave only for particular (e.g. repeated) vertices.",
  [LS], [("polygon assembly", "LevelSet::cutArea"), ("vertex ordering", "LevelSet::isClockwise, LevelSet::polygonArea")])
p("C24", "Initial shapes give signed distances with the right magnitude and sign",
  "Starting from circular holes, each node gets the minimum of its distance to the domain boundary and its signed distances to the hole surfaces (negative inside a hole); starting from a polygon, it gets the minimum of the domain-boundary distance and the distance to the closest polygon edge, negative exactly inside the polygon.",
  [I], "all hole sets and closed polygons, all nodes",
  "One hole configuration is tested.",
  [LS], [("hole initialisation", "LevelSet::initialise(holes)"), ("polygon initialisation", "LevelSet::initialise(points)"), ("segment distance", "LevelSet::pointToLineDistance")])
p("C25", "The point-in-polygon test is exact for every closed polygon and point",
  "A point counts as inside a closed polygon exactly when the winding number of the polygon around it is nonzero, where each edge crossing is decided by the true sign of the point's position relative to the edge, however close to the edge or however small the polygon; an empty vertex list encloses nothing.",
  [I], "all vertex lists and points, including tiny and empty polygons",
  "No test uses polygons.",
  [LS], [("winding number", "LevelSet::isInsidePolygon"), ("side test", "LevelSet::isLeftOfLine")])
# ---------------------------------------------------------------- Boundary
p("C26", "Nodes and elements are classified from the signed distance alone",
  "At each discretisation every node is classified as on the boundary (within 1e-6 of zero), outside (negative) or inside (positive), and every element as inside if none of its corners is outside, otherwise as outside if none is inside, otherwise as cut; no earlier classification survives.",
  [I, H], "all fields, all nodes and elements, repeated discretisations",
  "Tests check a few sign patterns on one element.",
  [BO], [("classification", "Boundary::computeMeshStatus")])
p("C27", "Discretisation keeps its point and segment records consistent",
  "After discretisation the point and segment counts equal the list lengths, every segment names two existing points and the element it lies in, has the Euclidean distance of its end points as its length, is listed by that element, and the total length is the sum of all segment lengths, each counted once.",
  [I], "all fields and meshes, target or structure",
  "Only one-element meshes are tested; the bookkeeping is repeated at many places that must agree.",
  [BO], [("segment creation", "Boundary::discretise"), ("length", "Boundary::segmentLength")])
p("C28", "Boundary points are created once, on the crossed edge, and registered",
  "A boundary point lies where linear interpolation between an inside and an outside corner puts the zero contour, or on a boundary node; the same location is never added twice, and each new point is registered with every node whose edge it lies on.",
  [I], "all fields and meshes",
  "Only one-element meshes are tested; sharing between elements is not.",
  [BO], [("point creation", "Boundary::discretise, Boundary::isAdded")])
p("C29", "Every discretisation starts from a clean slate",
  "The outcome of a discretisation depends only on the current field and mesh flags: points, segments, counts, total length and the per-node and per-element registrations of an earlier discretisation are all discarded first.",
  [H], "all sequences of discretisations on one object and mesh",
  "Tests discretise each object once per field.",
  [BO], [("reset", "Boundary::discretise, Boundary::computeMeshStatus")])
p("C30", "Movement limits keep boundary points inside the domain and out of masks",
  "Every new boundary point may move by at most the move limit either way; near the domain boundary its negative limit is its distance to it, and it is flagged as a domain point exactly when it lies on it; a point on a masked node is fixed, and one whose closest node is masked may not move past that node.",
  [I], "all point positions, move limits and masks",
  "No test looks at limits or flags.",
  [BO], [("point attributes", "Boundary::initialisePoint")])
p("C31", "Each segment gives half its length to both ends and links them",
  "After discretisation the integral length of each point is half the summed length of the segments it ends, and for every segment both of its end points record the segment and each other as neighbours, with matching counts.",
  [I], "all discretised boundaries",
  "Tests cover one-element meshes with one or two segments.",
  [BO], [("point lengths", "Boundary::computePointLengths")])
p("C32", "Boundary normals are unit vectors from weighted gradients of nearby nodes",
  "The normal of a boundary point away from the edge of the domain whose weighted gradient does not vanish is the normalised inverse-squared-distance weighted sum of the signed-distance gradient directions (central differences, one-sided at the domain edge) of the narrow-band nodes it is registered with, taken from the node alone when they coincide; earlier normals never leak in and no node outside the grid is read.",
  [I], "all fields and discretised boundaries; points whose summed gradient is nonzero",
  "No test computes normals.",
  [BO], [("normals", "Boundary::computeNormalVectors")])
p("C33", "An ambiguous element is resolved consistently by its centre value",
  "For an element with all four edges cut, the pairing of the cuts into two segments and the recorded side of its centre agree for every sign pattern and every mean value of the corners, including exactly zero.",
  [I], "both diagonal sign patterns, all corner values",
  "The tests use a few corner values; a zero mean is not among them.",
  [BO], [("four-cut case", "Boundary::discretise")])
p("C34", "Fixed-size connectivity tables are never overrun",
  "For every field the discretisation never records more boundary points at a node, or more segments at an element or a point, than the fixed-size tables hold, and never builds a segment from an end point that was not determined.",
  [I], "all signed-distance fields, including nodes exactly on the contour",
  "Overruns need fields with several nodes exactly on the zero contour.",
  [BO], [("per-node points", "Boundary::discretise"), ("per-element segments", "Boundary::discretise"), ("per-point segments", "Boundary::computePointLengths")])
# ---------------------------------------------------------------- Sensitivity
p("C35", "Sensitivities are central differences along the normal; points are restored",
  "The sensitivity of a boundary point is the difference of the callback at the point displaced by plus and minus delta along its normal, divided by twice delta and by the point's length; the point's coordinates are exactly the original ones afterwards.",
  [I], "all points, normals, deltas and callbacks",
  "No test computes sensitivities.",
  [SE], [("finite difference", "Sensitivity::computeSensitivity")])
p("C36", "The thermal correction is objective-only and vanishes at zero temperature",
  "At zero temperature the Ito correction changes nothing; otherwise it subtracts temperature times the perimeter sensitivity over twice the point length from the objective sensitivity of every boundary point and changes no other sensitivity; both call forms do the same once normals are known.",
  [I], "all boundaries and temperatures, both call forms",
  "No test computes the correction.",
  [SE], [("Ito correction", "Sensitivity::itoCorrection (two overloads)")])
# ---------------------------------------------------------------- Optimise
p("C37", "Fixed points take no part in the optimisation",
  "No sum, maximum or displacement used in the optimisation involves a fixed boundary point: scale factors, search limits, displacements, objective and constraint changes, gradients and the step rescaling skip every fixed point.",
  [I], "all boundary point sets with any fixed subset",
  "The optimiser is not tested.",
  [OP], [("point loops", "Optimise::computeScaleFactors, computeLambdaLimits, computeDisplacements, computeFunction, computeGradients, rescaleDisplacements")])
p("C38", "Displacements obey domain limits and the move limit before velocities are set",
  "Every displacement is the scaled sensitivity combination capped at the negative limit for domain points; after the solve, if any displacement exceeds the maximum all multipliers are reduced by the ratio for the largest one and displacements recomputed, and each velocity is the displacement over the time step given by the absolute objective multiplier.",
  [I], "all point sets, sensitivities and multipliers",
  "The optimiser is not tested.",
  [OP], [("displacements", "Optimise::computeDisplacements"), ("rescaling", "Optimise::rescaleDisplacements"), ("solve", "Optimise::solve")])
p("C39", "Dropping constraints keeps all per-constraint data aligned",
  "When inactive constraints are removed, multipliers, scale factors, limits, distances, equality flags and the original-constraint map are all compacted by the same selection and to the same size; per-variable quantities are indexed by active position and sensitivities by original position; and on return the multipliers are back at their original positions.",
  [I, H], "all numbers of constraints and all subsets becoming inactive",
  "The optimiser is not tested and compaction needs constraints that are well satisfied.",
  [OP], [("compaction", "Optimise::computeConstraintDistances"), ("index map", "Optimise::solve, computeGradients, computeFunction")])
p("C40", "The optimiser rejects inconsistent problems in every build configuration",
  "Every constructor of the optimiser stops with a diagnostic and failure status unless the maximum displacement is in (0,1), there is a boundary point, and there is one constraint distance per multiplier beyond the first; unspecified equality flags default to inequality; and the plain and Python-facing constructors agree.",
  [I, C], "all constructor arguments, both build configurations",
  "The optimiser is not tested.",
  [OP], [("constructors", "Optimise::Optimise")])
# ---------------------------------------------------------------- I/O
p("C41", "Every file is opened checked, closed once, and never used after failure",
  "Every save and load routine checks that its file opened before using it, stops with a diagnostic and failure status naming the file if not, opens for reading when loading and for writing when saving, and closes every opened file exactly once on every return path.",
  [F, I], "all routines and all ways opening may fail",
  "I/O is not tested; failures need an unwritable or missing file.",
  [IO], [("file handling", "InputOutput::save*/load*")])
p("C42", "Saved files contain every entity once, in order, with the documented columns",
  "Each save routine writes one record per node, element, point or segment of the saved object, in index order, with the documented columns, optional columns exactly when requested, and header counts that match the number of records.",
  [I], "all objects, sizes and option combinations",
  "I/O is not tested.",
  [IO], [("writers", "InputOutput::save*")])
p("C43", "Loading reads back what saving writes, never outside the field",
  "For each format the load routine reads the columns the matching save routine writes and puts the distance of record i into node i; it never stores outside the level set's field whatever the file contains, and a file with the wrong amount of data or malformed records is rejected with a diagnostic and failure status rather than partly loaded.",
  [I, F], "all file contents, both layouts, text and binary",
  "I/O is not tested; malformed and truncated files are unbounded in variety.",
  [IO], [("readers", "InputOutput::loadLevelSetTXT, loadLevelSetBIN")])
p("C44", "Numbered-file overloads behave as the named-file overloads",
  "Every numbered save or load forwards all its options and its object to the named form, with a file name made of the optional directory, the kind prefix, the number zero-padded to at least four digits and the extension, identical between the save and load of a format.",
  [I], "all routines, numbers, directories and option combinations",
  "I/O is not tested; a dropped option is silent because of default arguments.",
  [IO], [("forwarding", "InputOutput numbered overloads")])
# ---------------------------------------------------------------- RNG / whole library
p("C45", "Reseeding makes every random sequence reproducible",
  "After setting a seed, the whole following sequence of uniform, integer and normal numbers is a function of the seed and the calls made since, whatever was drawn before, and the reported seed is the one in use, also right after construction.",
  [H], "all histories of draws before and after reseeding",
  "No test reseeds; state hidden in the distributions needs an odd number of earlier draws to show.",
  ["src/MersenneTwister.h"], [("seeding", "MersenneTwister::setSeed"), ("draws", "MersenneTwister::operator(), normal, integer")])
p("C46", "No object exposes an indeterminate value",
  "Every scalar data member of every object the library constructs has a determinate value once construction finishes, so no public operation or accessor can observe an indeterminate one.",
  [H, C], "all constructors of all classes, all call orders after construction",
  "Reading indeterminate memory usually happens to give zero in tests.",
  ["src/Mesh.cpp", "src/Boundary.cpp", "src/LevelSet.cpp", "src/FastMarchingMethod.cpp", "src/Optimise.cpp"],
  [("constructors", "all classes in src/")])
p("C47", "Stack use does not grow with the problem size",
  "No routine places an array on the stack whose size depends on the mesh, the boundary or the number of constraints, and none recurses except the optimiser's removal of infeasible constraints (at most once per constraint).",
  [I], "all mesh, boundary and problem sizes",
  "Test meshes are tiny; overflow needs about a million nodes.",
  [LS, BO, OP], [("work arrays", "LevelSet::initialiseVelocities, Boundary::computeNormalVectors, Optimise::solve")])
p("C48", "Failed preconditions stop the program with a failure status, never silently",
  "Wherever the library validates its input or state, a failed validation writes a diagnostic and ends the program with a failure status before the invalid value is used, and no valid execution ends the program.",
  [I, F], "all validation sites and all failing inputs",
  "A failing check terminates the test process, so the tests never take these branches.",
  ["src/Debug.h", HE, FM, LS, OP, IO], [("validation idiom", "slsm_check and the error label")])
p("C49", "The out-of-range neighbour marker is never used as an index",
  "Everywhere in the library a node index taken from a neighbour list is tested against the out-of-range marker before it selects a node, a status or a field value.",
  [I], "all uses of neighbour lists on all grids and nodes",
  "A missing test reads one element past an array, which usually goes unnoticed.",
  [FM, LS], [("neighbour guards", "FastMarchingMethod::*, LevelSet::initialiseVelocities")])
p("C50", "Public headers can be used alone, in any order, from several source files",
  "Each header of the library compiles on its own, twice in a row, and before or after all others, in every build configuration; including the headers in several source files of one program, together with the library, defines no symbol twice; and every function a header declares is defined by the library.",
  [C, "programs"], "all headers, include orders and programs of several source files",
  "Each test is a single source file with one include order.",
  ["src/*.h"], [("headers", "src/*.h")])
p("C51", "The Python interface mirrors the C++ interface",
  "Every class, constructor, method and data member the Python module offers refers to the C++ member of the same name, takes the same parameters in the same order with the same default values, is offered once, and none of those offered today is lost: all public constructors and all overloads of an offered method (except those taking references to plain numbers) are available; every library source is part of the module once and every group of bindings is registered once.",
  ["programs", C], "all public members and every default argument",
  "The bindings are not built by the tests.",
  ["python/bindings/*.cpp"], [("bindings", "bind_* functions")])
p("C52", "Queries and writers change nothing",
  "Asking a question leaves everything as it was: looking at the top or the size of the heap or testing it, looking up a node or element, gradients, WENO terms, point-in-polygon and orientation tests, cut areas, perimeters and segment lengths, the seed, the return code of the optimiser, and every function that writes a file, change no member of any object, no argument that is not an output, and no static storage, so that an answer does not depend on how often or in which order questions were asked or output was written.",
  [I, H], "all states and argument values of every query and writer",
  "A test calls a query a few times and looks at its answer, not at everything it might have touched.",
  [FM, LS, BO, IO, "src/Mesh.cpp", "src/Heap.cpp"], [("queries", "Heap::peek, Mesh::getElement, LevelSet::computeGradient, Boundary::computePerimeter, InputOutput::save*")])
p("C53", "Objects share no hidden mutable state",
  "Two meshes, level sets, boundaries, heaps, generators, optimisers or readers and writers never influence each other except through the objects handed to them: the library has no modifiable storage at namespace scope, in a class or static within a function, no members that change behind a const interface, and calls no C library routine that keeps state for the whole process, in either build configuration.",
  [H, C], "all histories and interleavings of calls on several objects",
  "Each test uses one object at a time.",
  ["src/*.cpp", "src/*.h"], [("storage", "every variable, member and call of the library")])
p("C54", "The heap's self-test accepts exactly the intact heaps",
  "Heap::test returns exactly if no entry has a key smaller than its parent's, the last entry included, and every entry's back pointer names its slot; otherwise it ends the program with a failure status; it accepts equal keys and the empty heap.",
  [I, H], "all heap states of all sizes, intact or damaged",
  "Tests only hand it intact heaps.",
  [HE], [("self-test", "Heap::test")])
# ---------------------------------------------------------------- numerical guarantees (not applicable)
p("N01", "Marched distances converge to the true distance",
  "After reinitialisation the signed distance approximates the Euclidean distance to the zero contour with an error that vanishes under grid refinement at the scheme's order.",
  [I], "all fields", "Accuracy over all fields and grids cannot be sampled.", [FM], [("march", "FastMarchingMethod::march")])
p("N02", "Perimeter and area converge to those of the contour",
  "Total boundary length and area approximate those of the zero contour with an error that vanishes under grid refinement.",
  [I], "all fields", "Accuracy over all shapes cannot be sampled.", [BO, LS], [("length", "Boundary::discretise"), ("area", "LevelSet::computeAreaFractions")])
p("N03", "The optimiser returns the best feasible velocity field",
  "The returned multipliers satisfy all constraints and minimise or maximise the linearised objective among feasible ones.",
  [I], "all problems", "Optimality over all problems cannot be sampled.", [OP], [("solve", "Optimise::solve")])
p("N04", "Thermal sampling follows the Boltzmann distribution",
  "With noise at temperature T the boundary samples configurations with probability proportional to exp(-objective/T).",
  [H], "all trajectories", "A statistical statement over trajectories.", [LS, SE], [("noise", "LevelSet::computeVelocities"), ("drift", "Sensitivity::itoCorrection")])
p("N05", "Saved distances are read back to within the printed precision",
  "A text save followed by a load reproduces every signed distance to within the printed number of decimals, for all magnitudes.",
  [I], "all field values", "Value-level round trip over all doubles.", [IO], [("text format", "InputOutput::saveLevelSetTXT, loadLevelSetTXT")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        (len(q["title"]) > 80) and print("TOO LONG", q["title"])
        f.write(json.dumps(q) + "\n")
print(len(P))
