#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

HOOK = "cap on the closed-list size hint (SEARCH_VERIF_SZHINT_MAX), so that thousands of searches can be built cheaply and the table has to grow"
NOSEARCH = "No test runs a search algorithm: the unit tests of search/ cover the closed list and statistics helpers only."

p("P01", "Every reported solution is a real path from the start to a goal",
  "Whatever search algorithm is run on whatever problem, a returned solution starts at the given start state, ends in a goal state, has exactly one operator between consecutive states, and each of those operators is applicable in its state and produces the next state. The cost obtained by summing the operators' costs is the cost the problem itself assigns to the path, and the caller's problem and start state are left as they were.",
  ["inputs", "programs", "configurations"], "all state spaces (integer and real costs, states edited in place or copied, hash collisions, inconsistent heuristics), all algorithms and their options",
  NOSEARCH, ["search/search.hpp", "search/astar.hpp", "search/wastar.hpp", "search/greedy.hpp", "search/idastar.hpp", "search/arastar.hpp", "search/bugsy.hpp", "search/bugsy-slim.hpp", "search/beam.hpp", "search/lsslrtastar.hpp", "search/fhatlrtastar.hpp", "search/dtastar.hpp"],
  [("solpath walks parent pointers", "search/search.hpp solpath()"), ("duplicate handling updates g, parent and operator together", "search/astar.hpp considerkid()"), ("in-place edges are undone when they go out of scope", "search/idastar.hpp dfs()")],
  ["SearchAlgorithm::res.path / res.ops"], hook=HOOK)

p("P02", "A*, IDA* and the other optimal modes return minimum-cost solutions",
  "With a heuristic that never overestimates, A* and IDA*, weighted A* with weight 1 and the utility-directed search with no weight on time return a solution whose cost equals the cheapest path from the start to a goal. This holds for inconsistent heuristics, integer and real costs, zero-cost operators (where the algorithm admits them) and problems with several goals.",
  ["inputs", "programs"], "all finite state spaces with a reachable goal and all admissible heuristics",
  NOSEARCH + " Optimality is a statement about all problems; re-opening and tie-breaking only matter on some.", ["search/astar.hpp", "search/idastar.hpp", "search/wastar.hpp", "search/bugsy.hpp", "search/astar-dump.hpp"],
  [("best-first order on f with reopening of closed nodes", "search/astar.hpp considerkid()"), ("iterative deepening to the least out-of-bound f", "search/idastar.hpp search()"), ("stop when a goal is expanded", "search/astar.hpp search()")],
  ["cost of SearchAlgorithm::res.path"], hook=HOOK)

p("P03", "Weighted A* stays within its weight of the cheapest solution",
  "With an admissible heuristic, weighted A* with weight w returns a solution that costs at most w times the cheapest one, whatever the state space, the weight and the representation of states. Told to drop duplicates it expands no state twice, and still finds a valid solution whenever there is one.",
  ["inputs", "programs", "configurations"], "all finite state spaces, all admissible heuristics, all weights >= 1",
  NOSEARCH, ["search/wastar.hpp"],
  [("nodes ordered on g + w*h", "search/wastar.hpp Node::pred, considerkid()"), ("weight at least one enforced", "search/wastar.hpp Wastar()")],
  ["cost of SearchAlgorithm::res.path"], hook=HOOK)

p("P04", "Anytime search incumbents improve, honour their bounds and converge",
  "An anytime repairing search reports solutions whose costs strictly decrease, and for each reports a suboptimality bound of at least 1. With a consistent heuristic the bound really bounds the ratio of that solution's cost to the cheapest cost, and left to run the search finishes with a cheapest solution, in its plain, monitored and non-repairing variants alike.",
  ["inputs", "programs", "configurations"], "all finite state spaces with consistent heuristics, all initial weights and decrements",
  NOSEARCH + " The bound is printed, never compared with a true optimum.", ["search/arastar.hpp"],
  [("bound from least f of open and inconsistent nodes", "search/arastar.hpp findbound()"), ("INCONS list re-queued on weight change", "search/arastar.hpp improve()/updateopen()")],
  ["the 'sol' rows on standard output", "SearchAlgorithm::res.path"], hook=HOOK)

p("P05", "Searches terminate and find a goal exactly when one is reachable",
  "On every finite problem the complete algorithms stop; they report a solution whenever a goal is reachable from the start and report none when it is not. A start state that is itself a goal gives the one-state solution.",
  ["inputs", "programs", "configurations"], "all finite state spaces, including unreachable goals, dead ends, self-loops, zero-cost cycles and start states that are goals",
  NOSEARCH, ["search/astar.hpp", "search/wastar.hpp", "search/greedy.hpp", "search/idastar.hpp", "search/arastar.hpp", "search/bugsy.hpp", "search/bugsy-slim.hpp", "search/dtastar.hpp"],
  [("main loop ends when the open list is empty", "search/astar.hpp search()"), ("closed list detects duplicates", "search/closedlist.hpp find()"), ("deepening stops when nothing was cut off", "search/idastar.hpp search()")],
  ["SearchAlgorithm::res.path"], hook=HOOK)

p("P06", "Expansion and generation limits stop a search promptly",
  "A search given a limit on expanded or generated states stops once the limit is reached, exceeding it by no more than the work of the step in progress, and then either reports no solution or a genuine one, never a partial path. A limit it does not reach changes nothing about its result, and the command-line options set exactly the limits they name.",
  ["inputs", "configurations"], "all state spaces, all limits, all algorithms",
  NOSEARCH, ["search/search.hpp", "search/search.cc", "search/astar.hpp", "search/idastar.hpp", "search/lsslrtastar.hpp"],
  [("limit checked at each expansion", "search/search.hpp Limit::reached()"), ("options parsed", "search/search.cc Limit(argc, argv)")],
  ["SearchAlgorithm::res.expd / gend / path"], hook=HOOK)

p("P07", "Reported search statistics equal the work actually done",
  "The number of expanded states a search reports equals the number of times it asked the problem for a state's operators, the number generated equals the number of transitions it performed, and for searches that keep one table of states the number of duplicates is the number of those that led to an already known state. Statistics of several searches added together are the sums, the times reported are those that passed, and the statistics and the limits written to the output are the values held.",
  ["inputs", "programs", "configurations"], "all state spaces and the best-first and depth-first algorithms",
  NOSEARCH, ["search/search.hpp", "search/search.cc", "search/astar.hpp", "search/wastar.hpp", "search/greedy.hpp", "search/idastar.hpp"],
  [("counters incremented next to the operations they count", "search/astar.hpp expand()"), ("stats output", "search/search.cc SearchStats::output()")],
  ["SearchAlgorithm::res, output()"], hook=HOOK)

p("P08", "A reset search behaves like a new one, and searches are deterministic",
  "After being reset, a search object run on the same or another problem returns the same path, cost and statistics as a freshly built one. Two runs of the same algorithm with the same options on the same problem return the same path and the same counts.",
  ["histories", "configurations"], "all sequences of searches and resets over random problems, including ones stopped early by limits",
  NOSEARCH, ["search/search.hpp", "search/astar.hpp", "search/wastar.hpp", "search/greedy.hpp", "search/arastar.hpp", "search/bugsy.hpp", "search/beam.hpp", "search/lsslrtastar.hpp"],
  [("reset clears open, closed and the node pool", "search/*.hpp reset()")],
  ["SearchAlgorithm::res"], hook=HOOK)

p("P09", "Real-time searches reach the goal with bounded look-ahead",
  "A real-time search with any look-ahead of at least one state, on a problem where the goal can be reached from every state and the heuristic is consistent, acts its way to a goal; the whole executed trajectory is a valid path and its cost is the sum of the steps taken. Each planning step expands no more states than the look-ahead allows, and the lengths and times of steps that are reported are those of the steps taken; a dynamic look-ahead comes from its table of training data, fresh or cached, and fits the time until the deadline. Local search space LRTA* looks ahead by A*, goes to the cheapest goal it generated or else to the frontier state of least f (or, told to, the last of those of the last complete layer), and raises the values of the states it expanded to the least cost of leaving them by the frontier; f-hat without estimates of distance does the same; so both follow one trajectory wherever nothing ties.",
  ["inputs", "programs", "configurations"], "all finite, positive-cost, strongly connected or safely explorable state spaces and all look-aheads",
  NOSEARCH, ["search/lsslrtastar.hpp", "search/fhatlrtastar.hpp", "search/dtastar.hpp", "search/dtastar-dump.hpp"],
  [("heuristic learning backs values up from the fringe", "search/lsslrtastar.hpp hCostLearning()"), ("look-ahead limit", "search/lsslrtastar.hpp ExpansionLimit"), ("dynamic look-ahead", "search/lsslrtastar.hpp MaxTimeLimit")],
  ["SearchAlgorithm::res.path / ops"], hook=HOOK)

p("P10", "Beam search is safe at any width and complete at full width",
  "Beam search of any width either reports a genuine solution or none, and never fails otherwise; with a width at least as large as the state space it finds a solution whenever one is reachable. Every layer consists of the best-estimated states reached from the previous one, up to the width, and when told to drop duplicates it expands no state twice.",
  ["inputs", "programs", "configurations"], "all finite state spaces, widths and options",
  NOSEARCH, ["search/beam.hpp"],
  [("layer-by-layer expansion with a bounded open list", "search/beam.hpp search()"), ("closed list removes duplicates", "search/beam.hpp considerkid()")],
  ["SearchAlgorithm::res.path"], hook=HOOK)

p("P11", "The binary heap is a priority queue with correct position tracking",
  "After any sequence of pushes, pops, key changes followed by an update, appends, clears and re-initialisations, popping returns the elements that remain in priority order and each exactly once. The position the heap reports to each element is the one under which it can be looked up.",
  ["histories"], "all operation sequences, with repeated priorities and both directions of key change",
  "The tests do a handful of pushes, pops and updates with random keys; they do not mix operations, nor compare with a model.", ["structs/binheap.hpp"],
  [("sift up and down", "structs/binheap.hpp pullup()/pushdown()"), ("position write-back", "structs/binheap.hpp setind")],
  ["BinHeap public operations"])

p("P12", "Integer open lists return a minimum-priority element under any updates",
  "The bucketed integer queue and the open lists used by the searches, generic and integer, hold exactly the elements pushed and not yet popped or removed, and always pop one whose primary priority is least and, among those, whose secondary key is best. Membership tests answer truthfully after every push, pop, update and removal.",
  ["histories"], "all operation sequences over all non-negative integer priorities",
  "Tests exercise pushes and pops of the simple queue with few updates; the two-level bucketed open list has no test.", ["structs/intpq.hpp", "search/search.hpp"],
  [("minimum bucket pointer lowered on push", "structs/intpq.hpp push()"), ("swap-remove inside a bucket", "search/search.hpp OpenList<..., IntOpenCost>::Maxq::rm()")],
  ["Intpq / OpenList public operations"])

p("P13", "Hash tables hold exactly the entries added across growth and removal",
  "After any sequence of additions, removals, look-ups and clears, the hash table and the closed list find exactly the keys present, return for each an entry stored under it, visit each present entry once when iterated over, and report the right size. Growth and colliding hash values do not change this, and the fill statistics they report are those of the entries held.",
  ["histories"], "all operation sequences and all hash functions, from perfect to constant",
  "Tests insert distinct keys and look them up; removal from the middle of a chain, iteration after growth and clears are not covered.", ["structs/htable.hpp", "search/closedlist.hpp"],
  [("chained buckets", "structs/htable.hpp"), ("rehash on growth", "search/closedlist.hpp resize()")],
  ["Htable / ClosedList public operations"])

p("P14", "The k-d tree stores every point and answers neighbour queries exactly",
  "After any sequence of insertions, including repeated and collinear points, the tree iterates over and counts every inserted point once, and a nearest-neighbour query from any position returns an entry at the least distance from it, as an exhaustive scan would.",
  ["histories", "inputs"], "all point sets in one to several dimensions, all insertion orders and query points",
  "The tests use uniformly random points only; degenerate layouts and query positions outside the data are not sampled.", ["structs/kdtree.hpp"],
  [("split-plane pruning", "structs/kdtree.hpp nearest()"), ("box maintenance and re-balancing", "structs/kdtree.hpp insert()")],
  ["KdTree public operations"])

p("P15", "Simple temporal networks track consistency and bounds exactly and undo cleanly",
  "After any sequence of constraint additions and undos a simple temporal network accepts a constraint exactly when the resulting set is satisfiable, and its earliest and latest times are the exact shortest-path bounds. Undoing restores the network to precisely its earlier state, and copies are equal to and independent of their originals.",
  ["histories"], "all networks and all sequences of adds, undos, growths and copies",
  "Tests compare with Floyd-Warshall on a few random networks; nested undo after rejected constraints, growth after constraints and copies are not covered.", ["structs/stn.hpp", "structs/stn.cc"],
  [("incremental propagation with cycle test", "structs/stn.cc propagate()"), ("undo log", "structs/stn.cc undo()")],
  ["Stn public operations"])

p("P16", "Union-find tracks the partition, and object pools never alias live objects",
  "After any sequence of unions two elements have the same representative exactly when they were joined, directly or through others, and this stays cheap however many unions were made and in whatever order. A pool never hands out storage that overlaps a live object, runs each object's constructor and destructor exactly once, and reuses released storage.",
  ["histories"], "all sequences of joins and finds; all sequences of allocations and releases",
  "No test covers the union-find or the pool.", ["structs/djset.hpp", "utils/pool.hpp"],
  [("union by rank with path compression", "structs/djset.hpp"), ("free list inside block storage", "utils/pool.hpp")],
  ["DjSet / Pool public operations"])

DOM = "No stable test explores this domain against a model: "
def dom(id, title, statement, q, why, files, mech):
    p(id, title, statement, ["inputs", "programs", "configurations"], q, why, files, mech, ["domain interface used by the search algorithms", "instance files"])

dom("P17", "Sliding tiles: exact moves, admissible estimates, optimal and valid solutions",
  "In every reachable configuration the legal moves are exactly those of the sliding-tile puzzle, each moves one tile, its reverse restores the configuration, and packing and unpacking is lossless. The goal estimate never exceeds the true remaining cost under the unit cost, incremental and from-scratch estimates agree, and instance files are read and rejected as documented. A pattern database keeps one entry of its own for every placement of its tiles.",
  "all solvable boards of the supported sizes, all move sequences, all cost functions",
  "No stable test touches the tiles; admissibility is a claim about every board.", ["tiles/tiles.hpp", "tiles/tiles.cc", "tiles/mdist.hpp", "tiles/mdist.cc", "tiles/packed.hpp", "tiles/pdb.hpp", "tiles/pdb.cc"],
  [("Manhattan distance increments", "tiles/tiles.hpp"), ("packed permutation", "tiles/packed.hpp")])
dom("P18", "Pancake: flips, gap heuristic, packing and reading are exact",
  "Flipping the top n pancakes reverses exactly those, flipping again restores the stack, and packing a stack is lossless. The gap estimate equals its definition after every flip, never exceeds the true number of flips, and searches return minimum-flip solutions that sort the stack.",
  "all stacks of the compiled size, all flip sequences",
  DOM + "heuristic increments at stack ends matter only for particular flips.", ["pancake/pancake.hpp", "pancake/pancake.cc"],
  [("incremental gap count", "pancake/pancake.hpp")])
dom("P19", "Grid path-finding: legal moves, exact costs, admissible estimates, faithful maps",
  "On every map a move is offered exactly when it is legal (four-way, eight-way, or octile where corners may not be cut; unit, octile or life cost), costs what the cost model says, and successive moves are undone exactly. The estimate never exceeds the true remaining cost, maps in every supported format are read with the blocked cells the file shows, and scenario entries agree with the optimal costs found.",
  "all maps, start and goal cells, move sets and cost models",
  "No stable test touches grid navigation; corner-cutting and life costs depend on local patterns.", ["gridnav/gridnav.hpp", "gridnav/gridnav.cc", "gridnav/gridmap.hpp", "gridnav/gridmap.cc", "gridnav/scenario.cc", "gridnav/scenario.hpp"],
  [("move table with required-clear cells", "gridnav/gridnav.cc initmvs()"), ("octile and life-cost heuristics", "gridnav/gridnav.hpp h()")])
dom("P20", "Vacuum world: moves, sucking, undo, packing and estimate are exact",
  "The robot may move exactly into unblocked neighbouring cells and suck exactly where there is dirt; every transition is undone exactly, and packed states round-trip and compare equal exactly when the states are equal. The estimate never exceeds the true remaining cost, and a search on any instance ends with all dirt removed at least cost.",
  "all maps with up to a few dirts, all action sequences",
  DOM + "the estimate builds a spanning tree whose errors need particular dirt layouts.", ["vacuum/vacuum.hpp", "vacuum/vacuum.cc"],
  [("spanning-tree plus move estimate", "vacuum/vacuum.hpp h()")])
dom("P21", "Dock robot: loads, unloads, moves, undo and estimate are exact",
  "Every offered operator is applicable and every applicable load, unload and move is offered; transitions undo exactly and packed states round-trip and compare equal exactly when the states are the same up to the naming of piles. The estimates of cost and of steps never exceed the true remaining ones and are zero at goals, and solutions deliver every container to its destination at least cost.",
  "all instances with a few locations, cranes, piles and boxes; all operator sequences",
  DOM + "pile canonicalisation and box bookkeeping only fail on particular orders of operations.", ["drobot/drobot.hpp", "drobot/drobot.cc"],
  [("piles kept sorted by bottom box", "drobot/drobot.hpp"), ("shortest-path based estimate", "drobot/drobot.cc initheuristic()")])
dom("P22", "Visual navigation and polygon maps: straight-line legality and optimal routes",
  "Two points are connected in a visibility graph exactly when the open segment between them crosses no obstacle's interior, edge lengths are Euclidean distances, and maps and graphs survive being written and read back, moved and scaled. A map made from a bitmap has the bitmap's free cells free and the blocked ones within its polygons. A search between two points, in the library or through the programs, returns a route as long as the shortest one around the obstacles, or none if there is none; random maps keep to what was asked for.",
  "all maps of disjoint polygons, start and goal points",
  "Tests check a few segment intersections; no test builds a visibility graph.", ["visnav/visgraph.cc", "visnav/visgraph.hpp", "visnav/visnav.hpp", "visnav/polymap.cc", "visnav/grid2poly.cc", "visnav/rand.cc"],
  [("isvisible ray tests", "visnav/visgraph.cc"), ("Euclidean heuristic", "visnav/visnav.hpp")])
dom("P23", "Platformer: movement respects blocks and physics, packing and estimates agree",
  "Each frame moves the player as the rules say: running, drag in water, jumping for as long as jump is held, gravity and the highest falling speed; the player never enters a blocked tile, and an operator named as the reverse leads back. Packed states round-trip, equal states have equal hashes, and the estimate is zero only at the goal and never exceeds the number of frames in which it can be reached, so that A* takes the fewest frames. A control string reads back as the controls written, and levels without a border, start or goal are refused.",
  "all levels, all control sequences",
  DOM + "collision response depends on sub-pixel positions reached only by long sequences.", ["plat2d/plat2d.hpp", "plat2d/player.hpp", "plat2d/player.cc", "plat2d/body.cc", "plat2d/lvl.cc", "plat2d/tile.cc"],
  [("tile collision of the bounding box", "plat2d/lvl.cc isection()"), ("velocity clamp", "plat2d/player.cc")])
dom("P24", "Traffic: moving obstacles, collisions and estimates follow the instance",
  "At every time each obstacle is where its start, velocity and bounces put it. A move, or waiting, is offered exactly when it stays inside the map and does not swap places with an obstacle, and one that ends on an obstacle leads back to the start at time zero; transitions undo exactly. States round-trip through packing, the estimate never exceeds the steps that a way to the goal still needs, and solutions are shortest.",
  "all instances, all time steps and move sequences",
  DOM + "obstacle positions are periodic, so errors show only at particular times.", ["traffic/traffic.hpp", "traffic/traffic.cc", "traffic/gridmap.cc"],
  [("position as a function of time", "traffic/traffic.cc")])
dom("P25", "Segments: rotations and translations are collision-free, invertible and costed",
  "Operators rotate or translate exactly one segment by the instance's steps, cost what the gripper travels plus the step, are offered exactly when the motion stays inside the bounds and meets no other segment on its way, and undoing one puts every segment back. Packed states round-trip, the estimate never exceeds the true cost, the description of an instance and its plan reads back equal, and generated instances hold to the generator's options.",
  "all instances of a few segments, all operator sequences",
  DOM + "sweep collision is geometric and fails at particular angles.", ["segments/segments.hpp", "segments/segments.cc", "segments/mkinst.cc"],
  [("swept-area tests", "segments/segments.cc")])

p("P26", "Datafile output is well formed and carries the values given",
  "Every key/value pair, row header and row written produces exactly one tab-separated, newline-terminated line of the documented form with the key and the value rendered intact, whatever the length of the text. Files open with the start line and close with the end line, in order.",
  ["inputs"], "all keys, values and lengths, including around internal buffer sizes", "No test covers the datafile writer.", ["utils/datafile.cc"],
  [("buffered formatting", "utils/datafile.cc dfpair()/dfrow()")], ["bytes written to the FILE"])
p("P27", "Text encodings round-trip every byte string",
  "Run-length, base-64 and ASCII-85 encodings decode back to exactly the bytes encoded, for every input length and content, and their encoded forms are what a standard independent decoder accepts. Encoders never read beyond their input.",
  ["inputs"], "all byte strings", "Tests encode a few fixed strings.", ["utils/encode.cc"],
  [("group-of-3/4 encoders with tails", "utils/encode.cc")], ["strings returned by the encoders"])
p("P28", "Permutation ranks and combinatorial helpers are exact",
  "Ranking gives every permutation, or every placement of some of the elements, a different number, and the numbers are exactly those from zero up to the count of them. Falling factorials, bit lengths and integer powers, the normal distribution's density and cumulative probability, and trapezoid integrals, equal their mathematical definitions wherever the result is representable.",
  ["inputs"], "all sizes, subsets and permutations that fit", "No stable test covers ranking or these helpers.", ["utils/rank.cc", "utils/math.cc", "utils/utils.hpp"],
  [("popcount-based rank of the remaining elements", "utils/rank.cc"), ("numeric integration", "utils/math.cc")], ["return values"])
p("P29", "File-system helpers agree with the file system",
  "Path splitting and joining follow the usual rules and re-join to an equivalent path, existence and directory tests agree with the operating system, listing a directory returns exactly its entries, and reading lines returns exactly the file's lines. Creating a path creates every missing parent.",
  ["inputs", "histories"], "all paths, directory trees and file contents", "Tests cover basename and dirname on a few literal paths.", ["utils/fs.cc"],
  [("path manipulation", "utils/fs.cc")], ["return values and file-system state"])
p("P30", "Overflow-checked arithmetic is exact or refuses",
  "Checked addition, subtraction and multiplication of fixed-width integers return the mathematical result when it is representable in the type and report an overflow exactly when it is not, for every signed and unsigned width.",
  ["inputs"], "all operand pairs of every supported width", "No stable test covers the checked operations; carries and sign corner cases need particular operands.", ["utils/safeops.hpp"],
  [("pre-checks on operands", "utils/safeops.hpp")], ["return values and thrown errors"])
p("P31", "2-D geometry predicates agree with exact geometry",
  "Bounding boxes, line, segment and arc intersections, point-in-polygon and convexity tests, hulls, quadratic roots, and moved, turned and scaled figures agree with an independent exact computation. Whether two things meet does not depend on the order in which they are given, and intersection points lie on both of them. Random polygons do not cross themselves.",
  ["inputs"], "all configurations of small-coordinate points, segments, boxes, polygons and arcs, degenerate ones included", "Tests sample random general-position segments.", ["utils/geom2d.hpp", "utils/geom2d.cc"],
  [("line equations and inclusive bounds", "utils/geom2d.hpp LineSg")], ["return values"])
p("P32", "String utilities split, format and join text losslessly",
  "Splitting a string into tokens gives exactly its space-separated and quoted fields, all at once or one at a time, and a missing quote is refused; prefix tests agree with comparison; digit grouping puts a comma before every third digit and changes nothing else; and errors and warnings print the message, with the text of the error code where there is one, and end the program only when fatal.",
  ["inputs"], "all strings and numbers", "Few literal examples are tested.", ["utils/str.cc", "utils/utils.hpp"],
  [("two-pass formatting", "utils/str.cc")], ["return values"])
p("P33", "Random numbers stay in range, reproduce from a seed and hashes are stable",
  "Bounded random integers stay within the requested bounds and reach all of them, reals stay in their unit interval, and equal seeds give equal sequences. Hashing depends on exactly the bytes given, wherever they are stored.",
  ["inputs", "histories"], "all seeds, bounds and call sequences", "No test covers the generator.", ["utils/rand.cc", "utils/hash.c", "utils/utils.hpp"],
  [("xorshift state from seed", "utils/rand.cc")], ["return values"])
p("P34", "The results database finds exactly the files whose attributes match",
  "A path is built for a set of attributes by writing it into the database tree, and looking up any subset of attribute values returns exactly the stored files that have those values, and none that lack one of the attributes. The same attributes always give the same path, and different ones different paths. Reading a file's attributes back from the tree gives the attributes it was stored with; attributes given as program arguments, added to a datafile or listed in order are kept as given.",
  ["histories", "inputs"], "all sets of attribute assignments and queries", "Tests cover a few fixed path look-ups in a one- or two-key database.", ["rdb/rdb.cc", "rdb/rdb.hpp"],
  [("KEY= marker files and value directories", "rdb/rdb.cc")], ["returned paths and file-system state"])
p("P35", "Anytime profiles are proper distributions and stopping policies follow them",
  "A profile built from solution streams counts, for each cost bin and elapsed time bin, the solutions and the best solution known by then exactly as the streams say, and gives probabilities in [0,1] that sum to one over outcomes no worse than the incumbent: the counted frequencies, smoothed by half of the smallest one. Saving and reading it back yields the same profile; a profile that is cut off is refused. The stopping policy chooses, for each cost and time bin, the action of greatest expected utility; mkprof, sptcounts and sptpolicy give these answers for a database of runs, and bestwt gives the weight whose runs have the least average cost.",
  ["inputs"], "all sets of solution streams, bin counts and utility weights", "No test covers profiles.", ["search/anyprof/profile.cc", "search/anyprof/profile.hpp", "search/anyprof/mkprof.cc", "search/anyprof/sptcounts.cc", "search/anyprof/sptpolicy.cc", "search/anyprof/bestwt.cc"],
  [("histogram binning", "search/anyprof/profile.cc"), ("dynamic programming over bins", "search/anyprof/profile.cc")], ["AnytimeProfile / AnytimeMonitor interfaces; output of the anyprof programs"])
p("P36", "Exported pictures are well formed and paint exactly what was drawn",
  "An image written as encapsulated PostScript is a well-formed document whose bounding box covers the image, whose image data, decoded independently, is exactly the pixels that were set, and which paints each added line, circle, arc, polygon and caption at its place, in its color and in order. Saving a scene leaves the scene usable. The drawing programs show each blocked cell of a grid, each tile and door of a level, and every obstacle, vertex, edge and route of a visibility graph, and nothing else.",
  ["inputs"], "all image sizes, pixels, components, margins; all maps, levels and graphs", "No test covers the image writer or the drawing programs.", ["graphics/image.cc", "graphics/image.hpp", "graphics/scene.cc", "gridnav/draw.cc", "visnav/draw.cc", "visnav/visgraph.cc", "visnav/polymap.cc", "visnav/visnav.cc", "plat2d/draw.cc", "plat2d/lvl.cc", "plat2d/tile.cc", "plat2d/plat2d.cc", "utils/geom2d.cc"],
  [("run-length then ASCII-85 encoding of the pixel rows", "graphics/image.cc"), ("scaling of maps to the picture", "visnav/visnav.cc VisNav::save")], ["bytes of the EPS file", "interpreting them as PostScript"])
p("P37", "Instance generators produce well-formed, solvable, reproducible instances",
  "Each instance generator writes instances that the matching domain reads and whose parameters are those requested, that are solvable where the generator promises it (sliding tiles, seeded grids, traffic), whose locations are open cells of the map, and that are the same for the same seed. Converters from pictures, scenario files, grids and levels keep what they are given: the same cells are blocked, and every entry is stored under its attributes with its values.",
  ["inputs", "configurations"], "all seeds and sizes", "No test runs a generator.", ["tiles/generator.cc", "gridnav/mkseedinst.cc", "gridnav/randinst.cc", "traffic/randinst.cc", "visnav/rand.cc", "gridnav/ppm2grid.cc", "gridnav/2poly.cc", "gridnav/scenario2rdb.cc", "plat2d/2poly.cc"],
  [("solvability test", "tiles/generator.cc solvable()")], ["generated files"])
p("P38", "The command-line solvers report true costs in well-formed datafiles",
  "Each solver program, given an instance on its input and an algorithm, writes a well-formed datafile whose reported solution cost and length are those of a genuine solution, optimal where the algorithm is, and exits successfully; an unknown algorithm or malformed option is refused with an error.",
  ["inputs", "configurations"], "all instances, algorithms and options", "No test runs a solver program.", ["search/main.hpp", "search/search.cc", "tiles/main_mdist.cc", "gridnav/main_gridnav.cc", "gridnav/main_scenario.cc", "pancake/main.cc", "vacuum/main.cc", "drobot/main.cc", "traffic/main_traffic.cc", "segments/main.cc", "plat2d/main.cc", "visnav/main.cc"],
  [("algorithm selection and output", "search/main.hpp")], ["standard output and exit status"])

p("P39", "The sampling-based planner finds genuine paths and reproduces from its seed",
  "The rapidly-exploring random tree planner returns only genuine paths from the start to the goal. Each of its steps draws a point uniformly, takes the node of the tree nearest to it, and grows that node by the operator, not used at it before, that leads nearest to the point. Equal seeds give equal searches, and the seed given with -s is the one used and reported, a seed that is not a number being refused. The planner stops at its expansion and generation limits, a reset search behaves like a new one, its statistics are true, and the picture it writes shows every node and edge of its tree.",
  ["inputs", "configurations", "histories"], "all levels and problems in the plane, seeds, limits and repeated searches", "No test runs the planner; the k-d tree's tests use a few fixed points.", ["search/rrt.hpp", "structs/kdtree.hpp", "plat2d/main.cc", "utils/utils.hpp"],
  [("grow the nearest node toward a sample", "search/rrt.hpp search()"), ("nearest neighbour queries", "structs/kdtree.hpp nearest()")], ["res.path, res.ops, res.expd, res.gend", "rrt.eps", "standard output"], hook=HOOK)

p("P40", "Training data describes the search truly and fits are least squares",
  "The rows dumped on the path that A* found give each of its states' cost and number of steps from the start and to the goal, and its estimates. With a heuristic that never overestimates, a sampled look-ahead reports, for each state visited, its number of successors and, for each depth to the horizon, the least value backed up from states that many steps away (or goals before): it never falls with depth, is never below the state's own estimate, and never above the cheapest way to a goal. A least-squares fit minimizes the squared error, leaves its input as it was, and fails if there are too few rows; the learning program fits exactly the recorded rows of the matching runs, or a sample of the size asked for, none of them twice, reports the fit and each row's estimate, and refuses unusable arguments.",
  ["inputs", "configurations"], "all graphs and heuristics, horizons, matrices, databases of runs and sample sizes", NOSEARCH + " No test runs the learning code.",
  ["search/astar-dump.hpp", "search/dtastar-dump.hpp", "search/learnh/leastsquares.cc", "search/learnh/leastsquares.hpp", "search/learnh/hlms.cc"],
  [("rows of the solution's nodes", "search/astar-dump.hpp dumpgoal()"), ("depth-limited look-ahead", "search/dtastar-dump.hpp evaluate(), dfs()"), ("batch regression", "search/learnh/leastsquares.cc"), ("reservoir sampling", "search/learnh/hlms.cc dfline()")], ["rows of the datafile", "x", "standard output and lms.spt"], hook=HOOK)

p("P41", "Programs name the files they cannot open, say why, and fail",
  "A program that is given the name of a file which cannot be opened for reading, or for writing where it is to write it, ends of its own accord with an unsuccessful status, and its message names exactly that file and gives the system's reason; whatever signs the name contains, and wherever on the command line it is given. (dfcmplt only answers by its status whether a datafile is complete.)",
  ["inputs", "configurations"], "all programs that open a file they are told of, and all names that cannot be opened", "No test runs a program on a file.", ["search/main.hpp", "search/arastar.hpp", "gridnav/gridmap.cc", "gridnav/draw.cc", "gridnav/randinst.cc", "gridnav/scenario2rdb.cc", "visnav/draw.cc", "visnav/inst.cc", "visnav/rand.cc", "visnav/polymap.cc", "graphics/image.cc", "traffic/main_traffic.cc", "plat2d/main.cc", "tiles/generator.cc", "rdb/addattrs.cc", "search/anyprof/sptcounts.cc", "search/anyprof/sptpolicy.cc", "utils/fatal.cc"],
  [("the reason after the message", "utils/fatal.cc fatalx()")], ["standard error and exit status"])

p("P42", "Best-first searches expand states in the order they promise",
  "A*, weighted A*, greedy and speedy search always expand next the waiting state that is least in their measure: f (of equals the one of greatest g), weighted f and then f, the estimated cost, or the estimated distance; the utility-directed searches the one of greatest utility by the time that expansions were last found to take, before any are timed the one of least cost; with the corrections they are told to apply (mean one-step errors of the estimates, mean delay of an expansion) as they stood at the last sorting, and as they report them. A state waits again exactly when a cheaper path to it is found, never with -dropdups or in the slim variant, and the solution follows the recorded best parents; so, wherever no two states are equally good, the expansions, duplicates, reopenings and the solution are settled by the problem alone. IDA* deepens from the start's estimate, each time to the least f that was cut off, and each iteration expands every path within its bound; the iterations it reports are those.",
  ["inputs", "configurations"], "all finite state spaces, estimates (admissible or not), weights and representations of states", NOSEARCH, ["search/astar.hpp", "search/wastar.hpp", "search/greedy.hpp", "search/bugsy.hpp", "search/bugsy-slim.hpp", "search/idastar.hpp", "search/search.hpp", "structs/binheap.hpp", "structs/intpq.hpp"],
  [("order of the open list", "search/astar.hpp, wastar.hpp, greedy.hpp pred()"), ("duplicate handling", "considerkid()"), ("least f cut off", "search/idastar.hpp dfs()")], ["states whose operators are asked for, in order", "res", "iter rows"], hook=HOOK)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["title"]
        f.write(json.dumps(e, ensure_ascii=False) + "\n")
print(len(P), "properties")
