# executed by gen_manifest.py
HOOKS = {'guard': 'PARDETRIA_VERIF_BASE_CUTOFF', 'enable': '-DPARDETRIA_VERIF_BASE_CUTOFF=<n>', 'source_commits': ['21a4c16']}
NA = {}
T = "property-based testing: "
TRUST = " Exploration of generated cases: shows presence of violations, not their absence; trusts the reference in the harness and the compiler."
NOTES = {
 "C23": (T + "generated trait sets and operation sequences against a reference model, print/parse round trip", "Random records and separators; equality compared both ways with a model." + TRUST),
 "C24": (T + "operation sequences against a map model; concurrent recording with exact totals", "Interleavings come from the real scheduler (2-8 threads, many repetitions)." + TRUST),
 "C25": (T + "generated strings and near-miss mutants plus an enumeration of short strings against automata", "All strings of length 0-6 over the relevant alphabet are sampled in blocks, longer ones randomly." + TRUST),
 "C26": (T + "log call sequences against a list model; concurrent logging", "Interleavings come from the real scheduler." + TRUST),
 "C27": (T + "increment sequences against the stated bar rule; concurrent increments", "Interleavings come from the real scheduler." + TRUST),
 "C28": (T + "generated arrays against std::stable_sort", "Sizes 1-257 and a few long arrays." + TRUST),
 "C29": (T + "generated values against bit-by-bit references, split/join round trip", "Bases 2-36." + TRUST),
 "C33": (T + "stateful request/release sequences against a set model; concurrent histories", "Interleavings come from the real scheduler." + TRUST),
 "C36": (T + "generated experiments with balancers that remember their trees; the record is parsed and compared with trees, samples and the triangulation at once", "The graph partitioner is a stand-in." + TRUST),
 "C37": (T + "generated option sets, the component built from them against one configured by hand: same points, same trees, same calls of the graph partitioner", "The graph partitioner is a stand-in that records its calls." + TRUST),
 "C35": (T + "generated conditions, allocations, stack depths and timer sequences against direct observation", "Memory probes are compared with tolerance against touched memory." + TRUST),
 "C15": (T + "stateful operation sequences on sequential and concurrent hash sets against std::set", "Sequential sequences plus split-range iteration; concurrent growth is C18." + TRUST),
 "C16": (T + "stateful operation sequences on hash maps against std::map", "Values include 0; capacities from 0 upwards." + TRUST),
 "C17": (T + "stateful operation sequences on hash multimaps against std::multimap", "Keys with many equal values and lookups over every stored and some absent keys." + TRUST),
 "C18": (T + "insertion histories under generated fiber schedules (every atomic and lock operation is a scheduling point) and under real threads, against the union of what was inserted", "Schedules are sequentially consistent in the fiber runs." + TRUST),
 "C14": (T + "generated pairs of simplices against set computations on their vertex ids", "Fingerprints are required to be equal for equal sets, not to differ for different ones." + TRUST),
 "C19": (T + "operation sequences on bit sets against std::set; concurrent histories under generated fiber schedules and real threads", "Schedules are sequentially consistent in the fiber runs." + TRUST),
 "C20": (T + "stateful block additions, merges and moves against std::map with element addresses", "Blocks are disjoint and non-empty, as the library makes them." + TRUST),
 "C21": (T + "operation sequences on the id-addressed containers against list models; generated point files", "Point files hold well-formed normal numbers." + TRUST),
 "C22": (T + "stateful stores, deletions, filters and merges on simplex containers against a map of live simplices", "Filters name stored simplices, as in the library." + TRUST),
 "C32": (T + "archive round trips of generated objects in text and binary form, field-wise comparison and byte equality of repeated writes", "Coordinates are finite numbers." + TRUST),
 "C07": (T + "generated point sets and id subsets against a scan of the finite points, sequential and parallel", "Signs and magnitudes are generated; the parallel runs use the real scheduler." + TRUST),
 "C10": (T + "generated boxes, points and spheres on a grid where arithmetic is exact, against exact reference computations", "Touching configurations are generated on purpose." + TRUST),
 "C11": (T + "generated partitions, grids and spheres against brute-force distances to points and cells", "Grid variants are bounded from both sides by a cell diagonal." + TRUST),
 "C12": (T + "generated points, cell widths and occupied cells against direct computation", "Point-in-cell is judged up to rounding." + TRUST),
 "C13": (T + "stateful insertion of grid cells and sphere queries against a linear scan", "Inserted boxes are cells of the tree's cell size, as the library inserts." + TRUST),
 "C05": (T + "generated point sets, subsets, provenances and strategies against a scan model of the split", "Sets whose points all coincide are not given to the extend splitter, which refuses them." + TRUST),
 "C08": (T + "generated degenerate, nearly degenerate and random coordinates against exact integer determinants, in two builds (plain and with the repository's -march=native)", "Coordinates are limited so that exact intermediate products stay representable; fused operations are exercised only where the CPU has them." + TRUST),
 "C01": (T + "generated point sets and option combinations; the result is judged by an exact Delaunay checker (facet pairing, exact in-sphere of opposite vertices, hull) and by equality of the sequential and parallel results", "General position is what the generator draws; exact ties are recognised and tolerated. Parallel runs use the real scheduler." + TRUST),
 "C02": (T + "differential: generated point sets, partitioners, thread counts and options; the divide-and-conquer result against the one-piece triangulation and the library's verification", "Built with a base case of 12 points so that small inputs recurse (guarded hook); inputs with exactly co-spherical input points are discarded. Schedules come from the real scheduler." + TRUST),
 "C04": (T + "triangulations and generated damage to them (removed, duplicated, exchanged simplices, wrong, missing or dangling neighbours, hull entries, moved points, flips) against a directly evaluated verdict", "Damage that makes a simplex flat is discarded." + TRUST),
 "C09": (T + "generated simplices (random, flat, nearly collinear, on a lattice, far from the origin) and query points against exact signs and quadruple-precision distances; point location against a scan of all simplices", "In-sphere and in-simplex answers are compared exactly except on the boundary, distances with a condition-based bound." + TRUST),
 "C03": (T + "differential: generated point sets, every load balancing partitioner and option; the load balanced result against the one-piece triangulation by another library and the library's verification, the partition tree it used checked along the way", "Built with a base case of 12 points (guarded hook); inputs with exactly co-spherical input points are discarded. Schedules come from the real scheduler." + TRUST),
 "C06": (T + "generated point sets, partitioners and cutoffs; the resulting trees against the id set given (leaves disjoint and complete) and exact checks of bounds and intersection tests at every node", "Sphere tests are required for every point inside the sphere; the classic strategies are wrapped as the load balancer does." + TRUST),
 "C34": (T + "generated point sets and sample sizes; the sample, its graph, weights and partition against brute force, with reproducible seeding in a second build", "Balance of the third-party graph partitioner is not judged (a stand-in is linked)." + TRUST),
 "C30": (T + "generated generators, boxes, counts and seeds against the requirements on every point, seeds compared, the shape of each distribution judged", "Statistical bounds are more than six standard deviations wide. Boxes from a few units in the last place to 2^20 wide." + TRUST),
 "C31": (T + "generated point sets against a multiset comparison, repeated runs and path lengths; generated ranges, thresholds and ratios with a recording inner sort", "The order itself is judged only by the length of the path through the points." + TRUST),
}
