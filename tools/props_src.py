# Source of /verif/properties.jsonl (run: python3 tools/props_src.py).
import json, os

P = []


def prop(id, title, statement, over, text, cant, files, mech, observe=None, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": cant,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)


TESTS = "The two tests that build only round-trip one experiment record and classify 25 literal number strings; "

prop("C01", "The base triangulator returns the Delaunay triangulation",
     "For every set of distinct points in general position, in 2 and 3 dimensions and in single and double precision, the sequential and the parallel base triangulator return exactly the simplices whose circumsphere contains no other input point: none missing, none extra, none twice. Every input point is used, every simplex knows exactly the simplices it shares a facet with, vertices are stored in ascending id order with matching fingerprints, and the recorded convex hull is the set of simplices having an infinite vertex.",
     ["inputs", "configurations"],
     "all finite point sets in general position (uniform, clustered, near-degenerate, translated and scaled), subsets of ids, both dimensions, both precisions, both base variants, any spatial-lock grid occupancy",
     TESTS + "no test that builds triangulates anything, and a handful of fixed inputs could not settle a statement about every point set.",
     ["src/lib/CGALTriangulator.cpp", "include/CGALTriangulator.h", "include/Triangulator.h", "src/lib/Triangulator.cpp"],
     [("CGALHelper / CGALTriangulator::_triangulate", "src/lib/CGALTriangulator.cpp"),
      ("Triangulator::allPoints", "src/lib/Triangulator.cpp")],
     ["return value of Triangulator::triangulate"])

prop("C02", "Divide-and-conquer triangulation equals the sequential one",
     "For every point set in general position, every partitioner, thread count and combination of solver options, the divide-and-conquer triangulator returns the same set of simplices with the same neighbour relation as triangulating all the points at once. The result does not depend on the thread schedule, contains no duplicates or dangling neighbours, and passes the library's own verification.",
     ["inputs", "configurations", "schedules"],
     "all point sets in general position, all split strategies (per-dimension, cyclic, extend, d-ary), recursion depths, thread counts, parallel or sequential base and edge solvers, all schedules",
     TESTS + "the tests that compare the parallel against the sequential result do not build here, and no fixed sample covers every split, border configuration and schedule.",
     ["src/lib/DCTriangulator.cpp", "include/DCTriangulator.h", "src/lib/Partitioner.cpp"],
     [("getEdge: simplices whose circumsphere reaches another partition", "src/lib/DCTriangulator.cpp"),
      ("mergeTriangulation / updateNeighbors", "src/lib/DCTriangulator.cpp")],
     ["return value of DCTriangulator::triangulate"],
     hook="lower recursion cut-off so that small, shrinkable inputs exercise the recursion")

prop("C03", "Load-balanced divide-and-conquer equals the sequential result",
     "For every point set in general position and every load-balancing strategy that yields a partition tree (sample-based, splitting, wrapped classic partitioner) combined with any intersection test, the load-balanced triangulator returns the same set of simplices with the same neighbour relation as triangulating all the points at once. This holds for every thread count and schedule. Its monitor is told, in this order, the start of the partitioning, the tree used, the base triangulation of each leaf with points and the partial and border triangulations of each merge, and the end.",
     ["inputs", "configurations", "schedules"],
     "all point sets in general position, all tree-producing partitioners, intersection-test back ends, leaf thresholds, thread counts and schedules",
     TESTS + "nothing under load_balancing is reached by any test that builds.",
     ["include/LoadBalancedDCTriangulator.h", "include/LoadBalancedDCTriangulator.tpp", "include/load_balancing/*.h"],
     [("getEdge with intersection checkers", "include/LoadBalancedDCTriangulator.tpp"),
      ("mergeTriangulation / updateNeighbors", "include/LoadBalancedDCTriangulator.tpp")],
     ["return value of LoadBalancing::DCTriangulator::triangulate"],
     hook="lower recursion cut-off")

prop("C04", "Verification and cross-check give the right verdict",
     "Verifying a triangulation against its points accepts it exactly when every point is used, the hull list matches the infinite simplices, no simplex occurs twice, neighbour lists are exactly the facet-sharing relation and every finite neighbour's opposite vertex lies outside the circumsphere. Cross-checking two triangulations succeeds exactly when both hold the same simplices with the same neighbour relation, reporting simplices absent on either side. The report of a verification names exactly the simplices that occur twice, the pairs whose neighbour relation is wrong, and the vertices of listed neighbours in a circumsphere.",
     ["inputs", "fault_sequences"],
     "all valid triangulations and all single or multiple corruptions of one: dropped, duplicated or altered simplices, wrong vertices, wrong or missing neighbours, wrong hull lists, flipped edges",
     TESTS + "a verifier that accepts too much leaves every other test green.",
     ["src/lib/Geometry.cpp", "include/Geometry.h"],
     [("dSimplices::verify", "src/lib/Geometry.cpp"), ("dSimplices::crossCheck", "src/lib/Geometry.cpp")],
     ["VerificationReport, CrossCheckReport"])

prop("C05", "Recursive partitioners split the points exactly",
     "For every point set, id subset, dimension and split strategy, the box of the points is cut at the midpoint of the strategy's dimensions, and the produced partitions are disjoint and together hold exactly the given finite points, each inside the bounds of its partition, while every partition also carries all infinite points unless told to ignore them. Looking up the partition of a point names the partition that holds it, a simplex counts as contained exactly when all its vertices are in the partition, and the recursion depth for an accepted thread count yields enough partitions for every thread.",
     ["inputs", "configurations"],
     "all point sets incl. duplicate coordinates, all id subsets, all split dimensions and recursion provenances, all strategies, all thread counts",
     TESTS + "no partitioner is reached by them.",
     ["include/Partitioner.h", "src/lib/Partitioner.cpp"],
     [("dWay/Cycle/OneDim/Extend Partitioner::partition", "src/lib/Partitioner.cpp, include/Partitioner.h"),
      ("Partition::contains, Partitioning::partition", "include/Partitioner.h")],
     ["returned Partitioning"])

prop("C06", "Load-balancing partition trees hold every point exactly once",
     "For every point set and every tree-producing load balancer, the leaves of the tree are disjoint and together hold exactly the given finite points, and each leaf's points lie inside the leaf's bounds and are claimed by its own intersection test. The sample-based and k-way partitioners do what they are named for: a point goes to the part with the nearest sample, sample bounds or centre, or to its slice of the extent, and splitting goes on to the requested number of parts or until too few points are left. Flattening, copying, moving or dumping a tree preserves its shape, its points and its bounds.",
     ["inputs", "configurations"],
     "all point sets, balancers, sample sizes, cuts of the sample graph (any assignment the graph partitioner may return), leaf thresholds",
     TESTS + "the load-balancing layer has no test that builds.",
     ["include/load_balancing/*.h", "include/load_balancing/sample_partitioner/*.h"],
     [("SimplePartitioner/kWaySplitter/…SamplePartitioner::partition", "include/load_balancing"),
      ("PartitionTree", "include/load_balancing/PartitionTree.h")],
     ["returned PartitionTree"])

prop("C07", "Point statistics are the true extremes",
     "For every non-empty set of points the reported minimum and maximum are, per coordinate, the smallest and largest coordinate of the finite points considered, whatever their sign or magnitude, and the midpoint is their centre. The sequential and parallel computations agree, and infinite points are ignored.",
     ["inputs", "schedules"],
     "all point sets of either sign and any magnitude, all id subsets, with and without infinite points",
     TESTS + "none calls these functions; sign and magnitude classes need generated inputs.",
     ["include/Partitioner.h"],
     [("getPointStats / getPointStatsSeq", "include/Partitioner.h")], ["dPointStats"])

prop("C08", "Geometric predicates return the exact sign",
     "For all finite inputs whose exact intermediate products neither overflow nor underflow, the orientation predicate in 2D and 3D and the in-circle and in-sphere predicates return a value whose sign is that of the exact determinant, including exactly zero for degenerate inputs. Swapping two of the defining points flips the sign.",
     ["inputs"],
     "all float and double coordinates in the representable-product range, including nearly and exactly degenerate configurations that force the adaptive stages",
     TESTS + "the adaptive stages only run on nearly degenerate inputs, which no fixed list covers.",
     ["src/utils/Predicates.cpp", "include/utils/Predicates.h"],
     [("Predicates::orient / insphere with adaptive expansions", "src/utils/Predicates.cpp")], ["sign of the result"])

prop("C09", "Simplex geometry matches exact geometry",
     "For every non-degenerate simplex, the circumsphere is equidistant from all vertices to rounding accuracy and never smaller than the exact one, so that no box the exact one intersects is missed, the in-sphere and in-simplex tests agree with exact arithmetic for points clearly inside or outside and do not depend on vertex order, the squared distance to a facet's supporting line or plane is correct, and the nearest vertex is the closest one. Locating a query point in a triangulation returns a simplex containing it whenever one exists.",
     ["inputs"],
     "all well-conditioned simplices and query points, all vertex orders, all triangulations and start hints",
     TESTS + "the geometry tests do not build here and use a few unit simplices.",
     ["src/lib/Geometry.cpp", "include/Geometry.h"],
     [("GeometryCore::circumsphere, inSphere, inSimplex, sqDistanceToFace", "src/lib/Geometry.cpp"),
      ("dSimplices::findNearestSimplex", "include/Geometry.h")], ["return values"])

prop("C10", "Box queries are geometrically correct",
     "A box contains a point exactly when every coordinate lies within its closed bounds, contains a box exactly when both corners are inside, contains a sphere exactly when the whole ball is inside, and intersects a sphere exactly when the distance from its centre to the box does not exceed the radius. Subtracting a box that differs in one face yields the remainder, and the derived quadrant, centre and neighbour-distance helpers agree with direct computation.",
     ["inputs"],
     "all boxes, points, and spheres incl. touching configurations on a grid where arithmetic is exact",
     TESTS + "no box function is reached by them.",
     ["include/Geometry.h", "include/load_balancing/BoxUtils.h", "include/load_balancing/VectorOperations.h"],
     [("dBox::contains/intersects/operator-", "include/Geometry.h"),
      ("BoxUtils, VectorOperations helpers", "include/load_balancing")], ["return values"])

prop("C11", "Intersection tests never miss a partition",
     "Whenever a sphere touches a point assigned to a partition or the region a partition's test was built from, the partition's intersection test reports it, for the bounding-box, grid and exact-grid variants alike. The bounding-box variant is exact, and the grid variants report no sphere that stays further than a cell diagonal away from every cell of the partition.",
     ["inputs", "configurations"],
     "all point sets, grid widths, spheres touching or missing the region, all tree levels",
     TESTS + "a missed intersection silently loses simplices only for particular circumspheres.",
     ["include/load_balancing/BoundsIntersectionChecker.h", "include/load_balancing/GridIntersectionChecker.h", "include/load_balancing/AccurateGridIntersectionChecker.h"],
     [("IntersectionChecker::intersects", "include/load_balancing/*IntersectionChecker.h")], ["bool result"])

prop("C12", "Uniform grid cells tile space consistently",
     "Every point lies, up to rounding, inside the cell it is mapped to, mapping the centre of a cell gives back that cell, neighbouring cells' bounds coincide, and equal cells hash equally. A sphere intersects the grid exactly when some occupied cell's box intersects the sphere.",
     ["inputs"],
     "all cell widths, all points of either sign incl. cell boundaries, all sets of occupied cells and spheres",
     TESTS + "the grid test does not build here and samples a few points.",
     ["include/load_balancing/Grid.h"],
     [("Grid::indexAt, centerOf, boundsOf, intersects", "include/load_balancing/Grid.h")], ["return values"])

prop("C13", "The bounding-box tree answers like a linear scan",
     "After any sequence of insertions of grid cells of its cell size, a bounding-box tree reports a sphere as intersecting exactly when at least one inserted cell intersects it, lists each intersected cell exactly once, and refuses exactly the cells that do not lie within its bounds. Copied and moved trees answer alike.",
     ["inputs", "histories"],
     "all insertion sequences of cells, in any order and with duplicates, and all query spheres",
     TESTS + "no test touches the tree.",
     ["include/datastructures/AABBTree.h"],
     [("AABBTree::insert, intersects", "include/datastructures/AABBTree.h")], ["bool result"])

prop("C14", "Simplex identity, adjacency and fingerprints agree",
     "For simplices with sorted vertices, the number of shared vertices, adjacency, membership tests, vertex equality and neighbour list equality equal the corresponding set computations on their vertex ids, and finiteness equals having no infinite vertex. Equal vertex sets have equal fingerprints, a facet's fingerprint is the same seen from either adjacent simplex and never zero, and sorting keeps every neighbour opposite its vertex.",
     ["inputs"],
     "all vertex id tuples incl. infinite ids, ids differing only in high bits, all overlaps between two simplices",
     TESTS + "no test reaches simplices.",
     ["include/Geometry.h", "include/utils/StaticSort.h"],
     [("dSimplex::countSharedVertices, equalVertices, genFingerprint, faceFingerprint", "include/Geometry.h")], ["return values"])

prop("C15", "The hash set behaves like a set",
     "After any sequence of construction, insertion, lookup, merging, copying, moving and iteration, a hash set of ids holds exactly the elements a mathematical set would: insertion reports whether the element was new, size counts distinct elements, lookups agree with membership, and sequential or split-range iteration visits each element exactly once. Growing or merging never loses, duplicates or invents an element.",
     ["histories", "inputs", "schedules"],
     "all operation sequences, initial capacities incl. tiny ones, ids colliding under the hash, merge filters, all splits of the iteration range",
     TESTS + "the container tests do not build here and use one fixed sequence.",
     ["include/datastructures/LP_Set.hxx"],
     [("LP_Set / Concurrent_LP_Set insert, contains, merge, range", "include/datastructures/LP_Set.hxx")], ["observable set contents"])

prop("C16", "The hash map behaves like a map",
     "After any sequence of construction, insertion and lookup, a hash map returns for every stored key the value stored with it, reports keys absent exactly when they were never inserted, and reports insertion of a new key as successful and of a present key as not; size counts distinct keys. Growing never loses or changes an entry.",
     ["histories", "inputs"],
     "all operation sequences, initial capacities incl. tiny ones, colliding keys",
     TESTS + "the container tests do not build here.",
     ["include/datastructures/LP_Map.hxx"],
     [("LP_Map, Concurrent_LP_Map insert/get/contains", "include/datastructures/LP_Map.hxx")], ["observable map contents"])

prop("C17", "The hash multimap returns every value of a key",
     "After any sequence of insertions, looking up a key in a hash multimap visits exactly the values inserted with that key, each as often as it was inserted, and nothing stored under another key; counting, membership and total size agree. Growing never loses or duplicates an entry.",
     ["histories", "inputs"],
     "all insertion sequences, initial capacities, keys colliding and wrapping around the table end",
     TESTS + "the container tests do not build here.",
     ["include/datastructures/LP_MultiMap.hxx"],
     [("LP_MultiMap, Concurrent_LP_MultiMap insert/get/count", "include/datastructures/LP_MultiMap.hxx")], ["observable multimap contents"])

prop("C18", "Concurrent growing tables lose no insertion",
     "When any number of threads insert into a growing hash set, map or multimap through their own handles, with growth happening at any moment, the final table holds exactly the union of what was inserted, each new element is reported as new by exactly one inserter, and every element is found by lookups that start after its insertion finished. Converting to the sequential container keeps the contents and the count.",
     ["schedules", "histories"],
     "all interleavings of insertions, lookups and growth steps; overlapping and disjoint key sets; tiny and large initial capacities",
     TESTS + "none of them is concurrent.",
     ["include/datastructures/Growing_LP.hxx", "include/datastructures/LP_Set.hxx", "include/datastructures/LP_MultiMap.hxx", "include/datastructures/LP_Map.hxx"],
     [("GrowingHashTable::grow, handle update, _migrate", "include/datastructures/Growing_LP.hxx")], ["table contents at quiescence"])

prop("C19", "Bit sets behave like sets of ids",
     "After any sequence of insertions, removals, merges and filters, a bit set over an id range contains exactly the ids a set would, its counts agree, its one/zero queries are complementary, and iterating over it, sequentially or over any split of its range, visits exactly the contained ids in ascending order. The concurrent variant gives the same result for any schedule of insertions.",
     ["histories", "inputs", "schedules"],
     "all ranges (aligned or not), operation sequences and range splits",
     TESTS + "the container tests do not build here.",
     ["include/datastructures/Bit_Set.hxx"],
     [("Bit_Set / Concurrent_Bit_Set", "include/datastructures/Bit_Set.hxx")], ["observable contents"])

prop("C20", "Blocked arrays address every element they cover",
     "A blocked array built from any sequence of block additions and merges contains exactly the ids covered by its blocks, gives each of them its own stable element, with and without location hints, reports tight lower and upper bounds and the number of elements, and rejects ids outside. Iterating it sequentially or over any recursive split of its range visits every live element exactly once in ascending id order.",
     ["histories", "inputs"],
     "all sequences of block sizes and gaps, merges in any order, hints, range splits",
     TESTS + "only the syntax of one of these headers is compiled.",
     ["include/datastructures/BlockedArray2.hxx", "include/datastructures/BlockedArray.hxx"],
     [("BlockedArray2::addBlock, merge, _findBlock, range", "include/datastructures/BlockedArray2.hxx"),
      ("BlockedArray, Concurrent_BlockedArray::at", "include/datastructures/BlockedArray.hxx")], ["element access, iteration"])

prop("C21", "Point and index containers map ids to elements",
     "Id-addressed vectors return, for every finite id from the offset on, the element stored under that id and, for every infinite id, the separate element reserved for it; containment, sizes and iteration ranges agree with what was stored, growing keeps existing elements, and filtering keeps exactly the requested ids. Loading points from a text file yields the file's points in order with the exact bounding box.",
     ["histories", "inputs"],
     "all offsets, sizes, operation sequences, infinite ids, point files of either sign",
     TESTS + "no id-addressed container is reached by them.",
     ["include/datastructures/VectorAdapter2.hxx", "include/datastructures/VectorAdapter.hxx", "include/datastructures/IndexedVector.hxx", "include/Geometry.h"],
     [("VectorAdapter2::operator[], _finIdx, _infIdx", "include/datastructures/VectorAdapter2.hxx"),
      ("dPoints::contains, loadFromFile", "include/Geometry.h")], ["element access"])

prop("C22", "The simplex container keeps exactly the live simplices",
     "A simplex container presents as contained, counts, iterates and fingerprints exactly those simplices that are stored and not deleted, after any sequence of block additions, merges and filters. Merging keeps both sides' simplices and hull lists, filtering removes exactly the requested simplices from the container and its hull list, and iterating over any split of the range visits each live simplex once.",
     ["histories", "inputs"],
     "all block layouts, deletions, merges, filters, hints and range splits",
     TESTS + "no test reaches it.",
     ["include/Geometry.h", "include/datastructures/BlockedArray2.hxx"],
     [("dSimplices::contains, merge, filter, begin/end, range, genFingerprint", "include/Geometry.h"),
      ("filtered_block_iterator", "include/datastructures/BlockedArray2.hxx")], ["iteration, containment"])

prop("C23", "Experiment records survive printing and parsing",
     "For every set of traits whose names and values do not contain the separators, parsing the printed form of an experiment record with the same separators yields a record that compares equal to the original and prints the same traits, empty values included. Two records compare equal exactly when their traits agree, fields describing the individual run (host, revision, times, run number) aside, and comparison is symmetric.",
     ["inputs", "configurations"],
     "all trait names and values, all separator pairs, numeric values of all types",
     "The StoreLoadString test round-trips one record with two traits and the default separators.",
     ["include/utils/Timings.h", "src/utils/Timings.cpp"],
     [("ExperimentRun(const std::string&), str, operator==", "src/utils/Timings.cpp")], ["parsed traits, operator=="])

prop("C24", "Measurements and counters record every event",
     "For any interleaving of threads recording measurements and incrementing counters of an experiment record, each named measurement list holds exactly the values added, its reported average is their truncated arithmetic mean, and each counter equals the sum of its increments. Nothing is recorded while no record is installed, and traits added first win while updates replace.",
     ["schedules", "histories"],
     "all interleavings of any number of recording threads, all values whose sum is representable",
     "The existing tests record no measurement or counter and run single-threaded.",
     ["include/utils/Timings.h", "src/utils/Timings.cpp"],
     [("ExperimentRun::addMeasurement, incCounter, avgMeasurement", "include/utils/Timings.h"),
      ("ExperimentRunAccessor", "include/utils/Timings.h")], ["measurements(), counter(), avgMeasurement()"])

prop("C25", "Number recognition accepts exactly decimal numbers",
     "A string is recognised as an integer exactly when it is an optional sign followed by one or more decimal digits. It is recognised as a floating-point number exactly when it is an optional sign, digits with an optional decimal point and at least one digit, and an optional exponent with at least one digit; every recognised string is one the standard library parses completely to the same kind of number.",
     ["inputs"],
     "all strings over digits, signs, dots, exponents and other characters",
     "The NumberRecognition test lists 25 strings; it accepts an expression that rejects 10 and 100.5 and takes a12 for a number.",
     ["include/utils/StringUtils.h"],
     [("is_int, is_float", "include/utils/StringUtils.h")], ["bool result"])

prop("C26", "The log keeps every entry, filtered by verbosity",
     "Printing the log at a level emits, complete and in the order they were added by each thread, exactly the entries recorded at that verbosity or below, each prefixed by the indentation its thread had when adding it; nothing is lost or mixed between threads. The logging macros record only when the current level admits them, live levels write through immediately instead of recording, silence prints nothing, and indentation is per thread.",
     ["histories", "schedules"],
     "all sequences of level changes, indents and entries, from any number of threads",
     TESTS + "the logger is compiled but never exercised.",
     ["include/utils/Logger.h", "src/utils/Logger.cpp"],
     [("Logger::addLogEntry, printLog, indent", "src/utils/Logger.cpp"), ("LOG/VLOG/PLOG/INDENT macros", "include/utils/Logger.h")],
     ["printed log"])

prop("C27", "Progress display counts exactly and shows full bar at the end",
     "For any sequence of increments, from any number of threads, that adds up to the expected count, the progress display counts every increment, returns from each the count it led to, shows at every moment a number of marks consistent with the fraction done and never more than the scale holds, and ends with exactly the full bar and a line end. Restarting resets count and bar and prints the scale again.",
     ["histories", "schedules"],
     "all expected counts and increment sequences, all interleavings",
     TESTS + "only the header's syntax is checked.",
     ["include/utils/ProgressDisplay.h"],
     [("ProgressDisplay::operator+=, display_tic", "include/utils/ProgressDisplay.h")], ["stream output, count()"])

prop("C28", "Fixed-size sorting sorts and carries the data along",
     "Sorting a fixed-size array yields its elements in ascending order, stably, as a permutation of the input. Sorting with attached data applies the same permutation to the data.",
     ["inputs"],
     "all array sizes below the limit, all contents incl. duplicates, all element and data types",
     TESTS + "only the header's syntax is checked.",
     ["include/utils/StaticSort.h"],
     [("static_insertion_sort, static_insertion_sort_with_data", "include/utils/StaticSort.h")], ["sorted arrays"])

prop("C29", "Bit, power and split helpers compute what they name",
     "For every unsigned width and value, the helpers decide whether a value is a power of two or of a given base, round up to the next power of two, compute integer logarithms and count set bits exactly. Splitting a string at a delimiter and joining the fields again gives back the string, with or without empty fields as requested; the delimited-output helper prints its arguments separated by single separators.",
     ["inputs"],
     "all values of all unsigned widths, all strings and delimiters, all argument lists",
     TESTS + "none of these helpers is called.",
     ["include/utils/Misc.h", "include/utils/CSV.h"],
     [("isPow2, isPowN, nextPow2, log2, logN, popcount, split", "include/utils/Misc.h"), ("CSV::csv", "include/utils/CSV.h")], ["return values"])

prop("C30", "Point generators fill the requested box, reproducibly",
     "Every point generator produces exactly the requested number of points with ids 1..n, all defined and inside the requested bounds, whatever the box, dimension and precision, and leaves the reserved point 0 alone. The points follow the distribution the generator is named for: on the ellipsoid, on the two lines, in at most the requested number of bubbles (malicious ones on a lattice from the box's lower corner with equal shares), normal or uniform over the box; uniform, normal and bubble points come in an order in which successive ones are near each other. The same seed yields the same points; another seed, or drawing again from the same random generator, yields different ones.",
     ["inputs", "configurations"],
     "all point counts incl. odd and small ones, boxes of any position and aspect, seeds, generators, dimensions, precisions",
     TESTS + "no generator is reached by them.",
     ["include/utils/Generator.h", "include/load_balancing/PatchBubbleGenerator.h", "include/load_balancing/UnboundBubbleGenerator.h", "include/load_balancing/MaliciousBubbleGenerator.h"],
     [("PointGenerator::generate, GeneratorFactory::make", "include/utils/Generator.h")], ["generated points"])

prop("C31", "Spatial sorting only reorders",
     "Spatially sorting a set of points reorders the points and nothing else: it leaves the reserved point and the infinite points alone, neither loses nor invents nor alters a point, gives the same order on every run for the same input, and makes successive points near each other. The multiscale variant terminates for every threshold and ratio, reorders a range without losing or inventing an element, and hands every element to exactly one call of its inner sort.",
     ["inputs"],
     "all point sets incl. duplicates, both dimensions and precisions; all ranges, thresholds and ratios",
     TESTS + "no sort is reached by them.",
     ["src/lib/SpatialSort.cpp", "include/SpatialSort.h", "include/mods/Multiscale_sort.h"],
     [("CGALSpatialSorter::sort", "src/lib/SpatialSort.cpp"), ("Multiscale_sort", "include/mods/Multiscale_sort.h")], ["sorted ids"])

prop("C32", "Saving and loading containers round-trips",
     "Writing any point set, box, simplex or simplex container to an archive and reading it back yields an equal object, in text and binary archives, whatever its contents, offsets, infinite points or deleted entries. Writing the same object twice yields the same bytes.",
     ["inputs"],
     "all contents of serializable types, both archive kinds, targets empty or already filled",
     TESTS + "nothing is serialized by them.",
     ["include/utils/Serialization.hxx", "include/datastructures/BlockedArray2.hxx", "include/datastructures/VectorAdapter2.hxx", "include/Geometry.h"],
     [("boost::serialization functions", "include/utils/Serialization.hxx")], ["reloaded object"])

prop("C33", "Handed-out ids are never in use twice",
     "For any history of requesting and releasing ids, from one or, for the concurrent variant, many threads, an id is handed out only if it is not currently in use, released ids are reused, and no id at or above the reported maximum was handed out. Once reuse is disabled, released ids are not handed out again.",
     ["histories", "schedules"],
     "all sequences and interleavings of requests, releases and disabling, all start ids",
     TESTS + "none of them touches it.",
     ["include/utils/IndexHandler.h"],
     [("IndexHandler, Concurrent_IndexHandler", "include/utils/IndexHandler.h")], ["ids returned"])

prop("C34", "The sample graph mirrors the sample triangulation",
     "Sampling draws the requested number of distinct input points, and the graph handed to the graph partitioner is the adjacency of the sample's Delaunay triangulation: symmetric, without self-loops or duplicates, with consistent offsets, one node per sampled point and positive weights. The resulting partition gives every sample a valid partition number, for every schedule. Written to a file, the graph is in the graph partitioner's own text format, node by node.",
     ["inputs", "schedules", "configurations"],
     "all point sets, sample sizes, edge-weight modes, seeds, partition assignments, schedules",
     TESTS + "no load-balancing code is reached by them.",
     ["include/load_balancing/sample_partitioner/Sampler.h"],
     [("Sampler::operator(), makeGraph, partitionGraph", "include/load_balancing/sample_partitioner/Sampler.h")], ["Sampling, graph arrays"])

prop("C35", "Failed checks, timers and system probes report truthfully",
     "An assertion throws exactly when its condition is false, carrying the expression, file, line and message; a failing allocation is reported with its size and rethrown, never swallowed. Task timers log one record per started-and-ended task with an end not before its start and their difference as duration; peak memory is never below current memory, memory grows by what is touched, and host name and date have their documented form.",
     ["inputs", "histories", "fault_sequences"],
     "all condition values and messages, all start/end sequences, allocation sizes, stack depths",
     TESTS + "host name and revision are printed but never compared.",
     ["include/utils/ASSERT.h", "include/utils/TaskTimer.h", "include/utils/System.h", "src/utils/System.c", "src/utils/System.cpp"],
     [("ASSERT/MASSERT/FASSERT", "include/utils/ASSERT.h"), ("TaskTimer", "include/utils/TaskTimer.h"), ("getPeakRSS, getCurrentRSS, print_stacktrace, ALLOCATE", "src/utils/System.c, src/utils/System.cpp")],
     ["exceptions, log records, return values"])

prop("C36", "Experiment records state what was run and what happened",
     "For every point set, balancer and number of runs, the record of an experiment is well formed, names revision, date, arguments, balancer, distribution, number of points, threads and seed as given, and holds one result per run. Each result lists exactly the leaf sizes of the partition tree of that run, one base triangulation per leaf with points and one border triangulation per inner node with several non-empty children, their sum as number of triangulated points, the sizes of the samples drawn, at least as many simplices as the triangulation has, and the validity iff verification was asked for. Recorded times add up to no more than what elapsed and are no less than what partitioning and triangulating demonstrably took. Monitoring does not change the triangulation.",
     ["inputs", "configurations", "schedules"],
     "all point sets, balancers, numbers of runs and threads, with and without verification; any argument string, incl. quotes, backslashes and control characters",
     TESTS + "they store and load records of the old experiment format only, no load-balanced experiment is run.",
     ["include/load_balancing/Experiment.h", "include/load_balancing/monitors/ComprehensiveMonitor.h"],
     [("Experiment::runOnce and constructor", "include/load_balancing/Experiment.h"), ("ComprehensiveMonitor", "include/load_balancing/monitors/ComprehensiveMonitor.h")],
     ["text written to the record stream", "accumulator contents"])

prop("C37", "Command line options build the components they name",
     "For every set of command line options, in any order, the point generator and the balancer created are the ones named, with the number of bubbles, bubble radius, sample size, edge weights, graph partitioner mode, imbalance, intersection test, cell width, split dimension and flattening the options give, and the documented defaults for those not given: they produce the same points and the same partition tree as a component configured by hand. Unknown or contradictory names are refused; an unknown distribution yields no generator.",
     ["configurations", "inputs"],
     "all combinations of options; at least two bubbles",
     TESTS + "no test parses an option.",
     ["include/load_balancing/CommandLineInterface.h"],
     [("createGenerator, createPartitioner, defaultOptions", "include/load_balancing/CommandLineInterface.h")],
     ["components returned, their points and trees", "exceptions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
if __name__ == "__main__":
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
