"""Technique and level note of every claimed check, for MANIFEST.json."""
T = "property-based testing: "
G = " Explores generated cases only; the generator's bounds are in DESIGN.md. Trusts the harness oracle, clang and AddressSanitizer."
S = "Searches of generated finite graphs (integer/real costs, copied and in-place states, hash collisions, zero-cost and parallel edges, several goals, dead ends) through the repository's own search templates. "
NOTES = {
 "P01": (T + "generated state spaces and options, every returned path replayed step by step on the graph", S + "The path is replayed edge by edge." + G),
 "P02": (T + "generated state spaces, differential against Dijkstra", S + "Solution cost compared with Dijkstra's." + G),
 "P03": (T + "generated state spaces and weights, bound checked against Dijkstra", S + "Solution cost compared with weight times Dijkstra's." + G),
 "P04": (T + "generated state spaces, invariant over the reported incumbents against Dijkstra", S + "Every printed incumbent row is checked against Dijkstra's cost, with a virtual clock for the time-dependent variants." + G),
 "P05": (T + "generated state spaces with and without reachable goals, against reachability", S + "Solved or not is compared with graph reachability; not ending is caught by a time limit." + G),
 "P06": (T + "generated limits, metamorphic comparison with the unlimited run", S + "Each run is compared with the unlimited one." + G),
 "P07": (T + "generated state spaces, counters against an instrumented problem", S + "The problem counts and records the calls made to it." + G),
 "P08": (T + "generated search/reset histories, differential against a fresh search under different memory fills", S + "Fresh and reset searches are compared, with uninitialised memory filled differently." + G),
 "P09": (T + "generated safely explorable state spaces and look-aheads; trajectory replayed", S + "Goal reached, trajectory valid, expansions within the look-ahead." + G),
 "P10": (T + "generated state spaces and widths, differential against a reference beam search", S + "Compared with a reference beam search where ties cannot matter." + G),
 "P11": (T + "stateful operation sequences against a sorted-list model, with shrinking", "Random histories of up to some hundred operations on the heap compared with a model after each step." + G),
 "P12": (T + "stateful operation sequences against a multiset model, with shrinking", "Random histories on the integer queue and both open lists compared with a model." + G),
 "P13": (T + "stateful operation sequences against a map model, adversarial hash functions", "Random histories on the hash table and closed list compared with a map, and their statistics with recounts." + G),
 "P14": (T + "generated point sets against exhaustive scan", "Generated insertions and queries, degenerate layouts included." + G),
 "P15": (T + "stateful constraint sequences against Floyd-Warshall", "Random histories of adds, undos, growth, copies and assignments compared with a shortest-path model." + G),
 "P16": (T + "stateful unions and allocations against models; large adversarial join orders", "Random histories compared with a naive partition, and instrumented objects in the pool." + G),
 "P17": (T + "generated boards and move sequences against a reference puzzle; exhaustive 3x3 distances", "Moves, undo, packing and estimates compared with a reference model; estimates with true distances on boards whose distance is known." + G),
 "P18": (T + "generated stacks and flips against a reference; true distances of small stacks", "Compiled at 3, 8 and 50 pancakes; flips, gap counts and searches compared with a model." + G),
 "P19": (T + "generated maps, cost models and scenario files against a reference grid and Dijkstra", "Every cell's moves, costs and estimates compared with a reference grid; all map formats, malformed input and scenario entries." + G),
 "P20": (T + "generated maps and action sequences against a reference vacuum world and Dijkstra", "The whole state space of small instances compared with a model." + G),
 "P21": (T + "generated instances and operator sequences against a reference dock world and Dijkstra", "The whole state space of small instances compared with a model, random walks in larger ones." + G),
 "P24": (T + "generated instances against a reference simulation of the obstacles", "All states up to a time horizon compared with a model, random walks beyond it." + G),
 "P26": (T + "generated records around the buffer sizes, compared byte for byte and read back", "Sequences of pairs, headers and rows of all lengths compared with the expected bytes." + G),
 "P27": (T + "generated byte strings through the encoders and independent decoders", "Round trips, and the encoded forms through decoders written from the standards." + G),
 "P28": (T + "generated arrangements and arguments against direct counting; small cases exhaustively", "Ranks compared with the place in dictionary order, numbers with exact arithmetic." + G),
 "P29": (T + "generated paths, files and histories of tree operations against a model of the tree", "Histories of making, listing and removing in a scratch directory, links included." + G),
 "P30": (T + "generated operands against 128-bit arithmetic; all pairs of the 8-bit types", "Every operation on every width, operands chosen near the limits." + G),
 "P31": (T + "generated integer figures against exact integer geometry", "Degenerate positions included; arcs only where floating point can decide." + G),
 "P32": (T + "generated strings and numbers against reference splitting and grouping", "Tokens, prefixes, digit groups and error messages compared with a reference." + G),
 "P33": (T + "generated seeds, ranges and bytes; metamorphic and statistical checks", "Statistical claims are chosen to fail by chance less than once in 10^15 runs." + G),
 "P34": (T + "generated histories of storing and querying a file tree, against a model of the stored attributes", "Drives the library and the rdb programs on trees in a scratch directory and compares paths, look-ups and attributes with a model; addattrs and dfcmplt with the text they should give." + G),
 "P25": (T + "generated instances and operator sequences against a model that follows each motion by bisection, and Dijkstra", "Motions are decided by following them in ever smaller steps; the few closer than 1e-5 to touching are taken as the domain sees them. Whole state spaces of small instances; plans and generated instances through the programs." + G),
"P23": (T + "generated levels and control sequences against a separate simulation of the rules of a frame, and breadth-first search", "Positions are compared to within 1e-6, and an overlap of up to 1e-7 may count either way. Whole spaces of small levels up to 6000 states; distances within what was seen bound the estimate." + G),
 "P22": (T + "generated maps of integer polygons and bitmaps against exact visibility and Dijkstra, also through the programs", "Polygons have integer corners, so that the reference is exact; positions that only touch an obstacle are decided only where the code's definition is." + G),
 "P37": (T + "generated options and inputs of the generator and converter programs, their output judged by independent readers and solvers", "Puzzles by the parity of their permutation, maps and traffic by a search of the harness's own, polygon maps cell by cell." + G),
 "P38": (T + "generated instances, algorithms and options through the solver programs, their datafiles parsed and compared with a model's cheapest cost", "Ten solver programs; costs and lengths compared with the model's, printed controls and plans replayed, limits and memory exhaustion included, unusable arguments refused." + G),
 "P40": (T + "generated graphs and heuristics whose dumped rows are compared with exact costs and with bounds from all walks of each length; generated whole-number systems and databases of runs compared with an independent fit", "The look-ahead's values are compared with upper and lower bounds which usually meet. Fits are compared where the columns are clearly independent; that the reservoir's sample is uniform is checked only coarsely." + G),
 "P39": (T + "generated problems in the plane searched by the planner, its tree re-grown step by step by a model that recomputes each nearest node exactly from the samples of the seed; seeds and levels through the solver program", "The model shares the generator of random numbers with the planner and nothing else; ties between equally near nodes may go either way." + G),
 "P36": (T + "generated pictures, maps, levels and graphs; the files are run through an interpreter of PostScript written for this, and what it paints is compared with what was drawn", "Coordinates are written with six digits and compared to within 1e-5 of their size; pixels to within one step of 255." + G),
 "P42": (T + "generated state spaces; the sequence of expansions against a plain reference search, up to ties", "The reference scans for the least state in each step. Where several states are equally good only what comes before is compared." + G),
 "P41": (T + "generated names that cannot be opened, given to each of fourteen programs; fopen in the harness gives the expected reason", "Names in missing directories, below plain files, in loops, too long, with signs that mean something to printf; permissions are not used, the checks run as root." + G),
 "P35": (T + "streams of solutions generated as whole numbers; the counts, frequencies and policy are worked out independently from the definitions, and the programs run on generated databases of runs", "Counts and probabilities are compared where rounding cannot move a number to another bin; arbitrary real numbers are checked for proper distributions, exact totals and an exact round trip. Policies are compared except where stopping and going on are worth the same to 1e-9." + G),
}
NA = {
}
