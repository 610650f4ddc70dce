"""The properties: what each says, where it lives, and how it is decided."""

HOOKS = {
    "guard": "SEARCH_MC_CLOSEDSZ",
    "enable": "the checks compile the harnesses with -DSEARCH_MC_CLOSEDSZ=2, which caps the initial number of "
              "buckets of every closed list, so that a search of four states already makes its hash table grow; "
              "without the define the code is unchanged",
    "source_commits": ["ad78976d3bf7219275aa3692427ea4094929825c"],
}

NOT_APPLICABLE = []
PROPS = []
DIRECT = "stateless bounded model checking of the real code: exhaustive enumeration of "


def P(id, title, statement, over, text, why, files, mech, technique, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, technique=technique, note=note, **kw))


P("C01", "A* and IDA* return optimal solutions",
  "With an admissible heuristic, A* and IDA* return a path from the start to a goal whose cost is exactly the cost of "
  "a cheapest path, and return no path if and only if no goal is reachable (for IDA*, on spaces where that can be "
  "decided without duplicate detection). This holds for inconsistent heuristics, for integer and floating-point "
  "costs, whatever the hash values of states, and whether operators build new states or modify the state in place.",
  ["inputs"],
  "every finite state space, admissible heuristic and hash function; enumerated: every weighted digraph on 4 "
  "vertices, undirected graph on 5, layered graphs up to 8 vertices, grids, with per-state heuristic choices",
  "no test runs a search algorithm at all; re-opening, tie-breaking and duplicate detection errors need particular "
  "graphs and heuristics that only enumeration reaches",
  ["search/astar.hpp", "search/idastar.hpp", "search/search.hpp", "search/closedlist.hpp", "structs/htable.hpp"],
  [("A* expansion, duplicate handling and re-opening", "search/astar.hpp"),
   ("depth-first iterations with increasing bound", "search/idastar.hpp")],
  DIRECT + "graphs, heuristics and hash functions, compared with Bellman-Ford",
  "complete within the listed graph families; costs are small integers (exact in double)")

P("C02", "Weighted A* respects its bound",
  "With an admissible heuristic and weight w, weighted A* returns a solution of cost at most w times optimal, and "
  "finds one if and only if a goal is reachable. With -dropdups it still finds a solution whenever there is one, and "
  "within the bound wherever that is guaranteed (a consistent heuristic and weight 1).",
  ["inputs", "configurations"],
  "every finite space, admissible heuristic and weight >= 1; enumerated over graph families and weights 1 to 3.5",
  "no test runs weighted A*; a wrong re-opening rule only costs optimality on particular graphs",
  ["search/wastar.hpp", "search/closedlist.hpp", "structs/binheap.hpp"],
  [("order on f' = g + w h, re-opening", "search/wastar.hpp")],
  DIRECT + "graphs, heuristics and weights, compared with Bellman-Ford",
  "complete within the listed graph families and weights")

P("C03", "ARA* solutions improve and its bounds are true",
  "ARA* (and its NORA and monitored variants) reports a sequence of solutions of strictly decreasing cost, each a real "
  "path of the reported cost, with suboptimality bounds that, with a consistent heuristic, never increase and are true: no reported solution "
  "costs more than its bound times the optimum. Unless cut short it ends with an optimal solution (or none if there is "
  "none), and cut short at any point it returns the best solution it reported and claims no more than it established.",
  ["inputs", "configurations", "fault_sequences"],
  "every finite space with a consistent heuristic, every weight schedule and every point at which a limit can stop "
  "the search; enumerated over graph families, starting weights, decrements and limits",
  "no test runs an anytime search; a wrong bound or a lost inconsistent state shows only across several iterations "
  "on graphs where states are improved after being expanded",
  ["search/arastar.hpp"],
  [("incons list, weight schedule and bound", "search/arastar.hpp"),
   ("repair without re-expansion", "search/arastar.hpp"),
   ("monitored stopping", "search/arastar.hpp")],
  DIRECT + "graphs, heuristics, weight schedules and cut-off points, compared with Bellman-Ford",
  "complete within the listed families; NORA variants use the harness's deterministic clock")

P("C04", "Every solution any algorithm returns is a real path",
  "Whenever any of the search algorithms returns a solution, it is a sequence of states from a goal back to the start "
  "with one operator between each pair; each operator is applicable in its state, leads to the next one, and no "
  "state is ever used that the domain did not produce.",
  ["inputs", "configurations"],
  "every algorithm and option combination on every finite space; enumerated over graph families, hash functions, "
  "cost types and in-place or copied successors",
  "no test runs a search; wrong parent or operator updates on duplicates corrupt only some paths",
  ["search/search.hpp", "search/astar.hpp", "search/bugsy.hpp", "search/beam.hpp", "search/greedy.hpp",
   "search/lsslrtastar.hpp", "search/fhatlrtastar.hpp", "search/rtastar.hpp", "search/arastar.hpp",
   "search/dtastar-dump.hpp", "search/bugsy-slim.hpp"],
  [("solpath and the parent pointers of every algorithm", "search/search.hpp")],
  DIRECT + "graphs, heuristics and configurations, with every returned path replayed on the graph",
  "complete within the listed graph families and the listed option combinations")

P("C05", "Searches terminate and decide solvability",
  "On a finite space each complete algorithm terminates, and finds a solution if and only if a goal is reachable; the "
  "real-time algorithms reach a goal whenever one stays reachable (for RTA*, whenever moves can also be undone) and "
  "give up without a path, rather than crash or wander, when the start cannot leave a dead end. A start that is "
  "already a goal gives the path of just that state.",
  ["inputs", "configurations"],
  "every algorithm and option combination on every finite space; enumerated over graph families",
  "no test runs a search; loops and lost states need particular graphs and heuristics",
  ["search/astar.hpp", "search/idastar.hpp", "search/wastar.hpp", "search/greedy.hpp", "search/speediest.hpp",
   "search/bugsy.hpp", "search/bugsy-slim.hpp", "search/beam.hpp", "search/arastar.hpp", "search/lsslrtastar.hpp",
   "search/fhatlrtastar.hpp", "search/rtastar.hpp"],
  [("main loops and termination tests of every algorithm", "search/")],
  DIRECT + "graphs, heuristics and configurations with an expansion bound, compared with reachability",
  "termination is decided by an expansion bound far above what the space permits")

P("C06", "Limits cut a search short and change nothing else",
  "A search stopped by an expansion, generation, time or memory limit has done exactly the first part of what the "
  "unlimited search does, stops promptly, returns either no path or a valid one, and never exceeds the expansion "
  "limit by more than one step of the algorithm. The statistics it prints (expanded, generated, duplicates, reopened, "
  "solution cost and length, limits) equal what really happened, and running out of memory ends the search instead "
  "of the process.",
  ["inputs", "fault_sequences", "configurations"],
  "every limit value and every point at which a timer can expire, for every algorithm and graph; enumerated "
  "completely over graph families, with timer signals injected at every expansion and allocation failure injected",
  "tests never set a limit and never look at the statistics",
  ["search/search.cc", "search/search.hpp", "search/main.hpp", "utils/utils.hpp"],
  [("Limit and its signal handlers", "search/search.cc"), ("SearchAlgorithm::limit, Result::output", "search/search.hpp")],
  DIRECT + "cut-off points, injected timer signals and allocation failures over graphs and algorithms",
  "timers are signals delivered at expansions (the only points the algorithms can observe them between)")

P("C07", "A search depends only on the problem and its options",
  "Running any algorithm after earlier searches and a reset gives exactly the behaviour of a fresh instance: the same "
  "expansions in the same order, the same path, and the same statistics. Nothing a search does depends on the previous "
  "contents of memory.",
  ["histories", "inputs"],
  "every sequence of earlier searches (including ones that limits interrupted) and every problem; enumerated: a "
  "history of seven searches before every graph of a family, and different memory fillings",
  "tests never reuse a search object",
  ["search/search.hpp", "search/astar.hpp", "search/arastar.hpp", "search/bugsy.hpp", "search/bugsy-slim.hpp",
   "search/lsslrtastar.hpp", "search/fhatlrtastar.hpp", "search/rtastar.hpp", "search/search.cc"],
  [("reset() of every algorithm", "search/"), ("Limit reset", "search/search.cc")],
  DIRECT + "problems after a history of searches, compared with a fresh instance under several memory fillings",
  "complete within the listed families; one fixed history that exercises success, failure and every limit")

P("C08", "Real-time searches plan, learn and move as defined",
  "RTA* moves at each step to the successor with the lowest edge cost plus backed-up value (of a lookahead of the given "
  "depth, or the value learned when it was left) and remembers the second best value for the state it leaves. LSS-LRTA* "
  "and f-hat expand at most the lookahead number of states per step, raise heuristic values to those of the local "
  "search space's frontier, never lower a consistent heuristic, and commit to the path to the best frontier node (or "
  "only its first move with -onestep): the one of lowest f for LSS-LRTA*, and for f-hat of lowest f plus the heuristic "
  "error that its previous lookahead predicts over the remaining distance.",
  ["inputs", "configurations", "schedules"],
  "every graph, heuristic, lookahead and every way in which ties are broken; enumerated over graph families with the "
  "random tie-breaks of RTA* enumerated too",
  "no test runs a real-time search; a learning error shows as extra or wrong moves only on some graphs",
  ["search/rtastar.hpp", "search/lsslrtastar.hpp", "search/fhatlrtastar.hpp"],
  [("RTA* lookahead and table", "search/rtastar.hpp"), ("expandLss, hCostLearning, move", "search/lsslrtastar.hpp")],
  DIRECT + "graphs, heuristics, lookaheads and tie-breaks, each move checked against a reference of the definition",
  "the references of LSS-LRTA* and f-hat use generic edge costs so that the definition leaves no ties; executions in "
  "which a reopened node is still open when learning starts are compared only for lookahead and optimality")

P("C09", "Best-first searches expand nodes in their defining order",
  "A* always expands an open node of lowest f (highest g among equals), weighted A* of lowest g + w h, greedy search of "
  "lowest h, speediest search of lowest d, and beam search keeps, at each level, the best nodes of that level and no "
  "more than its width; each ends only when a goal is selected or the open list is empty. IDA* makes exactly the depth-first "
  "iterations of its increasing f bounds and reports them; A*-dump reports the true g, h, depth, d and "
  "remaining cost and length of the nodes on the solution path.",
  ["inputs", "configurations"],
  "every finite space and heuristic; enumerated over graph families; at each expansion every open node is compared",
  "tests check no search; an ordering error leaves paths valid and often still optimal",
  ["search/astar.hpp", "search/astar-dump.hpp", "search/wastar.hpp", "search/greedy.hpp", "search/beam.hpp",
   "search/idastar.hpp", "search/search.hpp", "structs/binheap.hpp"],
  [("open list predicates", "search/astar.hpp, wastar.hpp, greedy.hpp"), ("bucket open list", "search/search.hpp")],
  DIRECT + "graphs and heuristics, replaying each expansion trace against the set of open nodes",
  "complete within the listed graph families")

P("C10", "Bugsy selects by the utility it defines",
  "Bugsy always expands an open node of the highest utility -(wf f + wt t d (expansion delay)), with f = g + h, its "
  "depth-to-go estimate d and its running averages of time per expansion and of expansion delay, re-sorting the open "
  "list on its schedule; with only cost weighted it returns optimal solutions, and it finds a solution whenever one "
  "exists. The options (-noresort, -expdelay, -hhat, -dhat, -dropdups, the learned models) change only the estimate "
  "each names (the correction of d applies while the mean error of a step stays below one), and the reported values are "
  "those used.",
  ["inputs", "configurations", "schedules"],
  "every space, weighting, option combination and every clock reading; enumerated over grids, layered graphs and "
  "digraphs, weightings, option combinations and clock profiles",
  "no test runs Bugsy; errors in the utility leave the returned paths valid",
  ["search/bugsy.hpp", "search/bugsy-slim.hpp", "structs/binheap.hpp"],
  [("utility, resort schedule and correction terms", "search/bugsy.hpp"), ("compact variant", "search/bugsy-slim.hpp")],
  DIRECT + "graphs, weightings, options and clocks, recomputing every node's utility at every expansion",
  "the clock is the harness's; complete within the listed graph families and clock profiles")

P("C11", "Priority queues always give a minimum",
  "The binary heap, the bucketed and heap open lists and the integer queue hold exactly the elements pushed and not "
  "yet removed; pop and front always give an element of least priority by the queue's order, removal and priority "
  "changes of any element keep that so, and the positions recorded in elements are always those at which the heap "
  "holds them.",
  ["histories", "inputs"],
  "every sequence of operations; enumerated completely up to a depth, plus every arrangement of up to 7 or 8 keys",
  "the tests push random elements and pop them; removals and updates in the middle are sampled only",
  ["structs/binheap.hpp", "structs/intpq.hpp", "search/search.hpp"],
  [("push/pop/update/remove of the heap", "structs/binheap.hpp"), ("int buckets", "structs/intpq.hpp"),
   ("OpenList and its integer specialisation", "search/search.hpp")],
  DIRECT + "operation sequences, each step compared with a reference set",
  "complete up to the stated sequence lengths; Intpq::clear is claimed for elements that are pushed afresh")

P("C12", "Hash tables hold exactly what was added",
  "After any sequence of additions, removals, searches, iterations and clears, the closed list and the intrusive hash "
  "table find exactly the elements that are in, whatever their hash values and through every growth of the table, and "
  "iteration gives each element once. The reported fill, bucket number and greatest bucket fill are the true ones.",
  ["histories", "inputs"],
  "every sequence of operations and every hash function; enumerated up to a depth with constant, colliding, identity "
  "and mixing hash functions and small initial tables",
  "the tests use one good hash function and never remove and then grow",
  ["search/closedlist.hpp", "structs/htable.hpp"],
  [("add, find, remove, resize, iterate", "search/closedlist.hpp"), ("buckets and growth", "structs/htable.hpp")],
  DIRECT + "operation sequences and hash functions, each step compared with a reference set",
  "complete up to the stated sequence lengths; elements are unique in a closed list, as the searches use it")

P("C13", "kd-tree, disjoint sets and pool behave as their definitions",
  "A kd-tree holds every inserted point with its data and nearest() gives a point at the least distance from any query; "
  "disjoint sets join and find give exactly the partition that the joins describe; a pool gives aligned, constructed, "
  "non-overlapping objects, destroys each once, and re-uses freed space.",
  ["histories", "inputs"],
  "every insertion order, query, join sequence and construct/destruct sequence; enumerated completely over lattices "
  "and sequence lengths",
  "the tests use random points, which never tie and never lie on a splitting plane",
  ["structs/kdtree.hpp", "structs/djset.hpp", "utils/pool.hpp"],
  [("insertion and pruned search", "structs/kdtree.hpp"), ("union-find", "structs/djset.hpp"), ("free list and blocks", "utils/pool.hpp")],
  DIRECT + "insertion orders, queries and operation sequences, compared with brute force",
  "coordinates are small integers and halves, so distances are exact")

P("C14", "Temporal networks keep the minimal time bounds",
  "A simple temporal network accepts a constraint if and only if all its constraints together are consistent, and then "
  "gives each event its earliest and latest time exactly; a refused constraint changes nothing. Undoing the last "
  "constraint gives back the earlier network, and copying, growing and comparing networks agree with their "
  "constraints.",
  ["histories", "inputs"],
  "every sequence of constraints, undos, growths and copies; enumerated to a depth, plus every three-event network "
  "over a set of constraint kinds",
  "the tests add a handful of fixed constraints and never grow after them",
  ["structs/stn.cc", "structs/stn.hpp"],
  [("forward and backward propagation with undo records", "structs/stn.cc")],
  DIRECT + "operation sequences, each step compared with Floyd-Warshall on the constraints",
  "complete up to the stated sequence lengths; times that no constraint bounds are compared as infinite")

P("C15", "Sliding tiles states, heuristics and generator are right",
  "In the sliding tile domain each state's successors are exactly the boards that a move of the blank gives, undoing a "
  "move gives the state back, packing loses nothing and equality and hash agree with the boards. The Manhattan "
  "distance heuristic is always the sum of the tiles' distances to their goal places, pattern databases number every "
  "placement of their tiles uniquely and densely, A* and IDA* find optimal solutions, instances of the wrong size are "
  "refused, and the generator writes only solvable puzzles of the size that was asked for.",
  ["inputs"],
  "every board and goal; all 181440 states of the eight puzzle, boards around several starts of the 4x4, 2x8 and 8x2 "
  "puzzles, and every outcome of the generator's first shuffle for small sizes",
  "the tests solve nothing: an incremental heuristic that drifts on one kind of move costs optimality only",
  ["tiles/tiles.hpp", "tiles/tiles.cc", "tiles/mdist.hpp", "tiles/mdist.cc", "tiles/pdb.hpp", "tiles/generator.cc"],
  [("operators, edges, undo, packing", "tiles/tiles.hpp"), ("incremental Manhattan distance", "tiles/mdist.hpp"),
   ("placement addressing", "tiles/pdb.hpp"), ("parity and output", "tiles/generator.cc")],
  DIRECT + "the state space, compared with a reference puzzle, and of the generator's random choices",
  "3x3 is complete; the larger boards are explored to a number of states around their starts")

P("C16", "Pancake states and the gap heuristic are right",
  "In the pancake domain each state's successors are exactly the stacks that flips give, undoing a flip gives the state "
  "back, packed states stay as they were packed, and equality and hash agree with the stacks. The gap heuristic is "
  "exactly the number of gaps at every state reached, so A* and IDA* find optimal solutions. Instances of the wrong "
  "size are refused.",
  ["inputs"],
  "every stack; all stacks of 2, 4, 5 and 8 cakes",
  "the tests solve nothing; the heuristic is kept incrementally and states are modified in place",
  ["pancake/pancake.hpp", "pancake/pancake.cc"],
  [("in-place edges, incremental gap count", "pancake/pancake.hpp")],
  DIRECT + "the state space, compared with a reference model",
  "complete for 2, 4, 5 and 8 cakes from several starts")

P("C17", "Vacuum world states, heuristics and plans are right",
  "In the vacuum world each state's successors are exactly those of moving to free cells and cleaning a dirty one, "
  "equality and hash agree with the world's contents, both heuristics are admissible, a state without dirt is the "
  "goal, and searches find optimal plans; the plan printed for a solution cleans the whole world when followed.",
  ["inputs"],
  "every world; each assignment of free, dirty, blocked and start cells for small grids, and some larger layouts",
  "the tests solve nothing; heuristics are kept incrementally over a set of dirty cells",
  ["vacuum/vacuum.hpp", "vacuum/vacuum.cc", "gridnav/gridmap.cc"],
  [("operators, reverse operations, spanning tree heuristic", "vacuum/vacuum.hpp"), ("reading and dirt numbering", "vacuum/vacuum.cc")],
  DIRECT + "worlds and their state spaces, compared with a reference model",
  "complete for the listed sizes")

P("C18", "Dock robot states and heuristics are right",
  "In the dock robot domain each state's successors are exactly those of moving the robot, loading, unloading and "
  "lifting and putting boxes with cranes, with the costs and reverse operators the domain defines; packing loses "
  "nothing, states that differ only in the order of piles are the same, the count of boxes out of place is right, the "
  "cost and distance heuristics are admissible, and searches return plans of optimal cost.",
  ["inputs"],
  "every arrangement and goal; enumerated over 2 or 3 locations, 2 to 4 boxes, cranes, piles and travel costs",
  "there are no tests of this domain",
  ["drobot/drobot.hpp", "drobot/drobot.cc"],
  [("operators, canonical pile order, heuristics", "drobot/drobot.cc")],
  DIRECT + "arrangements, goals and state spaces, compared with a reference model",
  "complete for the listed numbers of locations, boxes, cranes and piles")

P("C19", "Grid maps and grid navigation are right",
  "Grid maps are read from each of the file formats cell for cell. In four-way, eight-way and octile navigation with "
  "unit and life costs each state's successors, costs, operators and reverse operators are exactly those that the map "
  "allows (no diagonal move cuts a corner on octile maps), the cost heuristic is admissible, searches find optimal "
  "paths, octile cost arithmetic is exact, an instance made from a seed is reproducible and unblocked, and scenarios "
  "compute and check the optimal costs.",
  ["inputs"],
  "every map, start and goal; enumerated over all small maps",
  "the tests read maps and never navigate",
  ["gridnav/gridmap.hpp", "gridnav/gridmap.cc", "gridnav/gridnav.hpp", "gridnav/gridnav.cc", "gridnav/scenario.cc"],
  [("precomputed moves", "gridnav/gridmap.cc"), ("costs, reverse costs and heuristics", "gridnav/gridnav.hpp"), ("scenario entries", "gridnav/scenario.cc")],
  DIRECT + "maps, starts and goals, compared with a reference model",
  "complete for all 3x3, 2x4, 4x2 maps and 2x2/3x2/3x3 octile maps; larger maps are empty or have one wall")

P("C20", "Plane geometry agrees with exact geometry",
  "The geometry library answers as exact geometry does: whether and where two segments meet, whether a point is within, "
  "on or above a line, which segments and polygon sides a segment or ray hits, whether a polygon contains a point, which "
  "of its vertices are reflex, the convex hull of a set of points, and where an arc is hit. Polygons lose only their "
  "duplicate and collinear vertices, random polygons are simple, and a polygon that is written and read again is the same.",
  ["inputs"],
  "every arrangement of segments, polygons, points and arcs; all on small lattices, where exact arithmetic decides",
  "unit tests use a few hand-picked or random figures; degenerate, collinear and rounding-sensitive ones are where "
  "geometry fails",
  ["utils/geom2d.hpp", "utils/geom2d.cc"],
  [("segments, lines, polygons, arcs", "utils/geom2d.cc"), ("bounding boxes and inline predicates", "utils/geom2d.hpp")],
  DIRECT + "figures with vertices on small lattices (and of the random generator's draws), compared with exact integer geometry",
  "lattices up to 4x4 in several placements; polygons of up to 6 vertices")

P("C21", "Polygon maps, visibility graphs and navigation among them are right",
  "A polygon map made from a framed grid obstructs exactly the cells outside one connected region of free cells; the "
  "extent of a map encloses its polygons; maps and graphs keep their meaning when scaled, translated, or written and read "
  "again. The edges of a visibility graph are symmetric, as long as the distance between their ends, never go through an "
  "obstacle, and join all corners that see each other, so among disjoint obstacles the paths that searches of VisNav find "
  "from any start to any goal are the shortest; its estimates are admissible and its reverse operators lead back. The "
  "programs that make random maps and instances write valid ones.",
  ["inputs"],
  "every grid, arrangement of polygons, start and goal; all small grids, all small polygons and pairs of triangles on a lattice",
  "there are no tests of this; a missing edge only makes some path longer",
  ["visnav/polymap.hpp", "visnav/polymap.cc", "visnav/grid2poly.cc", "visnav/visgraph.cc", "visnav/visgraph.hpp", "visnav/visnav.hpp",
   "visnav/visnav.cc", "visnav/rand.cc", "visnav/inst.cc", "visnav/pbm2poly.cc", "visnav/mkgraph.cc"],
  [("tracing obstacles of a grid", "visnav/grid2poly.cc"), ("visible pairs", "visnav/visgraph.cc"), ("operators and estimates", "visnav/visnav.hpp")],
  DIRECT + "maps, starts and goals, compared with exact visibility and exact shortest paths",
  "grids of up to 4x3 cells in a frame (thorough: 4x4), polygons of up to 5 (6) corners on 3x3, pairs of triangles on 4x3 (4x4), "
  "triples of five shapes; grids in which cells meet at corners only are not navigated")

P("C22", "Segments collide exactly when what they sweep meets something",
  "In the segments domain a segment may be moved or turned by a step exactly when the region that it sweeps meets neither "
  "a wall of the work space nor another segment; costs, poses, lines and the number of segments out of place are right "
  "in every state reached; packed states, equality and hash agree; both estimates are admissible, so searches find "
  "optimal plans; undoing an operator restores the poses; the instance and plan that are printed are read back as they "
  "were; generated instances have neither colliding starts nor colliding goals.",
  ["inputs"],
  "every arrangement of segments; all of one and two in small work spaces, and their state spaces",
  "there are no tests of this domain; a missed collision only makes plans shorter",
  ["segments/segments.hpp", "segments/segments.cc", "segments/mkinst.cc", "utils/geom2d.hpp"],
  [("swept regions and operators", "segments/segments.cc"), ("states and packing", "segments/segments.hpp"), ("generator", "segments/mkinst.cc")],
  DIRECT + "arrangements and their state spaces, compared with a reference that clips segments against the convex swept regions",
  "work spaces up to 5x4, 2 to 16 angles, up to three segments; arrangements in which something only touches are set aside")

P("C23", "The platform game moves its player lawfully and is searched correctly",
  "In the platform game the player is never inside a block, moves no faster than its velocity, goes the full way when "
  "nothing is in it, and is stopped only by blocks that it touches; walking, swimming, jumping, cutting a jump short, "
  "bumping its head, landing and falling change its velocity as specified. Each control's effect is reached by some "
  "operator, frames cost one, a reverse operator leads back, packing keeps the state, equality and hash agree. The "
  "estimate never exceeds the frames that are needed (levels with connected free tiles); A* finds the fewest frames, "
  "weighted A* is within its bound, the RRT's way is valid and the same for the same seed; no search finds a way where "
  "there is none. Levels are read tile for tile, or refused; control strings are read as they were written.",
  ["inputs"],
  "every level and every state that play can reach; all small levels and their complete state spaces",
  "there are no tests of this game; a box that slips through a corner, or an estimate too high by one frame, shows in single states",
  ["plat2d/plat2d.hpp", "plat2d/plat2d.cc", "plat2d/body.cc", "plat2d/player.cc", "plat2d/lvl.cc", "plat2d/tile.cc", "search/rrt.hpp",
   "visnav/visgraph.cc"],
  [("motion", "plat2d/body.cc"), ("collision", "plat2d/lvl.cc"), ("controls", "plat2d/player.cc"), ("heuristic and states", "plat2d/plat2d.hpp"),
   ("rapidly-exploring random trees", "search/rrt.hpp")],
  DIRECT + "all small levels and every state reached in them, frame by frame against a reference of the motion; A* and the heuristic against breadth-first search of the complete space",
  "levels up to 3x2 (with water, 3x2 to a bounded number of states), up to 5x3 to a bounded number of states; levels with several separate free regions are set aside")

P("C24", "Traffic moves its obstacles and the player in step, and finds the fewest steps",
  "In the traffic domain obstacles move each step and bounce off the edges; the player may wait or move to a neighbour in "
  "the grid unless it would change places with an obstacle, and is sent back to the start at time 0 when it meets one; "
  "every operator costs one. Packing keeps the state, equality and hash agree, and the estimate never exceeds the steps "
  "that are needed without being sent back, so A*, IDA* and ARA* find the fewest steps, weighted A* is within its bound, "
  "and no search finds a way where there is none. The controls that are printed are a way; instances are printed as they "
  "were read; generated instances can be solved and are the same for the same seed.",
  ["inputs"],
  "every instance and every state in time; all small grids with one obstacle, many with two and three",
  "there are no tests of this domain; an obstacle that is off by one step at an edge shows only at that time and place",
  ["traffic/traffic.hpp", "traffic/traffic.cc", "traffic/gridmap.hpp", "traffic/gridmap.cc", "traffic/randinst.cc"],
  [("states and operators", "traffic/traffic.hpp"), ("obstacles and moves", "traffic/gridmap.hpp"), ("generator", "traffic/randinst.cc")],
  DIRECT + "all small instances and their states over time, compared with obstacles simulated step by step and breadth-first search over the period",
  "grids up to 4x4 with one obstacle, up to 3x2 with two, larger ones in part; well-formed instances with obstacles in the grid; widths and heights of at least 2 for the generator")

P("C25", "Encodings, datafiles, checked arithmetic and numbers are right for every input",
  "Run-length, base64 and ASCII-85 encodings mean the bytes that were encoded, and decoding gives them back; datafile "
  "pairs, rows and headers are written whole or refused, and read back as they were written, just the lines of these "
  "kinds; lines and tokens are split as documented and open quotes refused; checked addition, subtraction, "
  "multiplication and division fail exactly when the result does not fit, and otherwise give it; ilog2, ipow, falling "
  "factorials, commas, the normal distribution and integrals have their values; ranks number permutations, and parts of "
  "them, in lexicographic order; hashes depend on each of the bytes and on nothing else; random numbers stay in their "
  "range, reach all of it, and are the same for the same seed.",
  ["inputs"],
  "every string, number and permutation; all short ones and all lengths around the limits",
  "the tests have a dozen strings; an error shows at one length, such as where a run or a buffer is just full, or at one pair of numbers",
  ["utils/encode.cc", "utils/datafile.cc", "utils/str.cc", "utils/fs.cc", "utils/safeops.hpp", "utils/math.cc", "utils/rank.cc", "utils/hash.c",
   "utils/rand.cc", "utils/testing.cc"],
  [("encodings", "utils/encode.cc"), ("datafiles", "utils/datafile.cc"), ("tokens", "utils/str.cc"), ("checked arithmetic", "utils/safeops.hpp"),
   ("permutation ranks", "utils/rank.cc"), ("hash", "utils/hash.c")],
  DIRECT + "all short strings, all lengths around every limit, all pairs of 8-bit numbers and of the boundary numbers of the other types, all permutations up to 8, compared with independent definitions",
  "strings up to 14 (thorough: 18) of two bytes, stretches around every limit; keys of pairs up to 200 characters; tokens whose quotes stand apart; alignment up to 16 bytes")

P("C26", "The database finds each file that is put into it, whoever else puts files there, and loses none",
  "Attribute lists are first-in first-out maps, and command lines become these. pathfor gives a file's place by its "
  "attributes, the same each time, and makes only the directories and keys that lead there; attributes that a file lacks "
  "are UNSPECIFIED, and files in the way are an error. pathattrs gives a file's attributes, withattrs the files with given "
  "attributes, and nothing else. When processes ask for paths at the same time, with attributes in the same order, or one "
  "of them stops anywhere, each directory still has one key and every path is found again. addattrs inserts the attributes "
  "that are missing, and leaves the old or the new file, whole, when it is stopped or cannot write; dfcmplt is right about "
  "which files are complete. rmrecur removes a tree, and nothing that its links lead to; directories are made as needed, and "
  "paths are split and joined as documented.",
  ["inputs", "histories", "schedules", "crash_points", "fault_sequences"],
  "every sequence of files, interleaving of processes and place to stop",
  "the tests place files one after another; two processes that make the same directory, a full disk, or a link in the tree are in none",
  ["rdb/rdb.cc", "rdb/rdb.hpp", "rdb/pathfor.cc", "rdb/withattrs.cc", "rdb/pathattrs.cc", "rdb/addattrs.cc", "rdb/dfcmplt.cc", "utils/fs.cc"],
  [("paths and keys", "rdb/rdb.cc"), ("attribute lists", "rdb/rdb.hpp"), ("inserting attributes", "rdb/addattrs.cc"), ("files and directories", "utils/fs.cc")],
  DIRECT + "all interleavings of the processes' file operations, with one stop anywhere, by running the real code as coroutines with visited states pruned; every stop, torn write and failed write of addattrs; all small sequences of files, trees and paths against a model of the tree",
  "values without slashes and not '.'; lists of two or three attributes over two values; up to three processes at once (three: quick, into an empty database), one stop; runs that use different orders of attributes at the same time are set aside")

P("C27", "Anytime profiles estimate what was seen, and searches stop exactly when their policy says",
  "The profile of some streams of solutions has, for each bin of cost and elapsed time, the number of solutions that were "
  "seen, and for each two bins the smoothed relative frequency with which one led to the other: a distribution over the "
  "costs that are not worse. A profile that is saved and read, or made by mkprof from datafiles, is the same. The monitor's "
  "policy is the one with the greatest expected utility: it stops in a bin if and only if no waiting has a greater one, "
  "at the end of the range always, and before it never. ARA* with a monitor, or with the NORA criterion, expands "
  "just what ARA* expands, up to the first moment at which the policy says stop of its incumbent. bestwt prints a weight of the "
  "greatest average utility; hlms prints the least squares fit of a uniform sample of the records.",
  ["inputs", "histories"],
  "every stream of solutions, binning, and moment to stop",
  "there are no tests of these; an error in one bin, or a search that stops one expansion late, needs a particular stream and clock",
  ["search/anyprof/profile.hpp", "search/anyprof/profile.cc", "search/arastar.hpp", "search/anyprof/mkprof.cc", "search/anyprof/bestwt.cc",
   "search/anyprof/sptcounts.cc", "search/anyprof/sptpolicy.cc", "search/learnh/hlms.cc", "search/learnh/leastsquares.cc"],
  [("profiles and monitors", "search/anyprof/profile.cc"), ("searches with a policy", "search/arastar.hpp"), ("sampling and fit", "search/learnh/hlms.cc")],
  DIRECT + "all streams of solutions and binnings against exact counting and dynamic programming; all small graphs searched under every policy with the clock as part of the enumeration; all outcomes of the sampling's draws",
  "streams of up to 4 solutions, 3 streams; values at the edges of bins whose width is rounded are set aside; LAPACK's least squares is a stand-in; learnsig is not claimed (it says itself that it is a mess)")

P("C28", "Map and instance tools convert and generate what they say",
  "The 2poly programs of grid navigation and of the platform levels give polygons of which a point is in an obstacle "
  "exactly if its cell is blocked, whatever the map's size. ppm2grid writes a board whose cells are free exactly where the "
  "picture is white, for every maximum colour value and with comments. mkseedinst writes the instance of the first seed, from "
  "the given one on, whose map has a path from its start to its goal, and the instance that is read back is that map with the options asked for. "
  "randinst repeats the map and adds a start and a goal that are in the map and not blocked, any of which may be chosen. scenario2rdb "
  "writes for each entry of a scenario one datafile that has the entry's values as they are and is found by its attributes.",
  ["inputs"],
  "every map, picture, seed, sequence of random numbers, and list of entries",
  "there are no tests of these programs; square maps and common values hide most errors",
  ["gridnav/2poly.cc", "plat2d/2poly.cc", "gridnav/ppm2grid.cc", "gridnav/mkseedinst.cc", "gridnav/randinst.cc", "gridnav/scenario2rdb.cc", "gridnav/gridmap.cc"],
  [("pictures", "gridnav/ppm2grid.cc"), ("random instances", "gridnav/randinst.cc"), ("scenario entries", "gridnav/scenario2rdb.cc")],
  DIRECT + "the programs run on all small maps, pictures and entries, with every sequence of random numbers, against the cells",
  "maps of up to 3x3; polygons are compared cell by cell where the free cells are in one piece; pictures have their header on three lines")

P("C29", "The solvers report what they found",
  "A solver program (grid navigation, scenarios, tiles, pancakes, dock robot, vacuum, platform, segments, traffic, visibility navigation) "
  "that is given an instance and an algorithm exits with 0, whether or not it solves the instance or reaches a limit. Its output is one datafile, "
  "complete from header to footer, with the heuristic and distance estimates of the instance's initial state, the name of the algorithm, and the cost and length of the solution: "
  "the cost is the sum that the domain's moves cost, never below the optimum, within the bound of algorithms that have one, and -1 with length 0 only if "
  "there is no solution, the algorithm is not complete, or a limit was reached; a limit on expansions is kept. Reading the instance with -lvl gives what reading it from the input does. "
  "The scenario solver has one row for each chosen entry, with the entry's numbers and the optimal cost, and rejects a wrong optimal cost. The maps and paths that are written are Encapsulated PostScript. "
  "Without an algorithm, with one that is unknown or lacks its arguments, or with an instance that is cut short or blocked, a solver exits with an error message.",
  ["programs", "inputs", "configurations"],
  "every instance and choice of algorithm and options",
  "tests call parts of the domains; no test runs a solver from its arguments to its output",
  ["search/main.hpp", "search/search.hpp", "gridnav/main_gridnav.cc", "gridnav/main_scenario.cc", "gridnav/scenario.cc", "tiles/main_mdist.cc", "pancake/main.cc", "drobot/main.cc", "vacuum/main.cc",
   "vacuum/main_cs730.cc", "plat2d/main.cc", "segments/main.cc", "traffic/main_traffic.cc", "visnav/main.cc", "visnav/visnav.cc", "graphics/image.cc"],
  [("dispatch of algorithms and report", "search/main.hpp"), ("scenarios", "gridnav/scenario.cc"), ("results", "search/search.hpp")],
  DIRECT + "the programs run, each in a process of its own, on all small instances of every domain with 17 algorithms, limits and malformed input, against Dijkstra's algorithm on the domain's own moves",
  "real-time algorithms are run where every state can reach the goal; platform levels whose open cells are connected; fixed parts of the instance families in the quick tier; costs are compared within 0.1%")
