# One entry per property: its text (-> properties.jsonl) and how its simulator
# is built and run (-> MANIFEST.json, evidence).  tools/gen.py writes both files.
PROPERTIES = {}      # claimed: id -> build/run configuration + text
NOT_APPLICABLE = {}  # listed but not claimed: id -> text + reason

HOW = ("Each run draws its inputs, operation sequence, thread interleaving (at every memory access of library code), "
       "allocation failures and callback faults from one seed; ")
REAL = "real: the library headers compiled unchanged from /repo's working tree, the C++ standard library and Boost headers they include"
SIM = "simulated: thread scheduler (seeded preemption at memory accesses), heap (layout, fill pattern, failures, bounds and lifetime checks), locks"


def text(title, statement, over, qtext, why, files, mech, observe=None):
    return dict(title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None))


def prop(pid, sources, rule, bounds, stub=None, defines=(), quick=(60000, 20), thorough=(1200000, 600), assumptions=(), required_probes=(), note="", **t):
    PROPERTIES[pid] = dict(sources=list(sources), defines=list(defines), quick=quick, thorough=thorough, rule=HOW + rule, bounds=bounds,
                           components=dict(real=REAL, simulated=SIM + ("; " + stub if stub else "")), assumptions=list(assumptions),
                           required_probes=list(required_probes), note=note, text=text(**t))


def na(pid, reason, **t):
    NOT_APPLICABLE[pid] = dict(reason=reason, text=text(**t))

prop("C01", ["kd_tree.cpp"],
     rule="a run is non-trivial when some search had both points inside and outside its range, or when an injected failure surfaced.",
     bounds="none or 1-60 points (rarely up to 500) on integer lattices of radius 1-12 (rarely up to 60), 2 or 3 dimensions, up to 4 concurrent searchers, up to 4 searches each",
     required_probes=["no-points", "oom-surfaced", "callback-exception-surfaced"],
     title="k-d tree range search visits exactly the points in range, each once",
     statement="A range search over a k-d tree calls the visitor for every stored point that lies in the closed query box, exactly once per stored occurrence, and for no other point, whatever valid partition strategy built the tree. "
               "Searches leave the tree unchanged, so concurrent, nested and repeated searches, and searches after one whose visitor threw, return the same answer. "
               "Construction that runs out of memory leaks nothing and leaves the caller's points untouched.",
     over=["inputs", "schedules", "fault_sequences", "programs"],
     qtext="every point multiset (ties and duplicates included), every partition strategy choice, every closed box, every interleaving of searchers, every visitor that throws or re-enters, every failing allocation",
     why="The tests build one tree of a few points and run one search with one visitor; they reach no duplicate coordinates on split planes, no concurrent or nested search, no throwing visitor and no failed allocation.",
     files=["geometrix/algorithm/kd_tree.hpp", "geometrix/algorithm/median_partitioning_strategy.hpp", "geometrix/primitive/axis_aligned_bounding_box.hpp"],
     mech=[("region containment/intersection decides report or descend", "geometrix/algorithm/kd_tree.hpp search()"), ("median split", "geometrix/algorithm/median_partitioning_strategy.hpp")])

SOLID_FILES = ["geometrix/algorithm/solid_leaf_bsp_tree.hpp", "geometrix/algorithm/hyperplane_partition_policies.hpp", "geometrix/algorithm/classify_simplex_to_plane.hpp", "geometrix/algorithm/split_segment.hpp"]
prop("C02", ["solid_bsp.cpp"], defines=["-DPROP_C02"],
     rule="a run is non-trivial when its queries met at least two of inside/outside/border or an injected failure surfaced.",
     bounds="solids of unit cells, star rings, multi-component and holed solids on integer lattices with up to ~30 edges (rarely up to ~100); up to 4 concurrent queriers of up to 10 (rarely 60) points; queries on a 1/8 lattice, exactly on or at least 1/64 off the border",
     title="Solid BSP classifies points and measures distance to the solid correctly",
     statement="For a closed polygonal solid given as consistently oriented border edges, the solid BSP says of every query point whether it is inside, outside or on the border, and returns the true distance from a point to the solid together with a border edge at that distance. "
               "The answers depend neither on which splitting edges the build chose nor on the order of the edges, and not on concurrent queries. "
               "A build or query that runs out of memory leaks nothing and leaves the tree and the input as they were.",
     over=["inputs", "schedules", "fault_sequences"],
     qtext="every closed solid (disconnected, holed, collinear and duplicate-free edges), every choice of splitting edge, every edge order, every query point off or on the border, every interleaving of queries, every failing allocation",
     why="The tests query a handful of fixed solids with the first-index selector; the split sequence, fragment handling and coplanar edges behave differently for each build order, and no test runs queries concurrently or with failing allocations.",
     files=SOLID_FILES,
     mech=[("leaf labelling by splitting side", "solid_leaf_bsp_tree.hpp build_tree"), ("descent into both sides on the plane", "solid_leaf_bsp_tree.hpp point_in_solid_space_impl"), ("distance search with pruning", "solid_leaf_bsp_tree.hpp get_min_distance_sqrd_to_solid_impl")])
prop("C03", ["solid_bsp.cpp"], defines=["-DPROP_C03"],
     rule="a run is non-trivial when at least one ray hit the solid and one missed it, or an injected failure surfaced.",
     bounds="as C02; ray origins on the 1/8 lattice off the border, integer directions of size up to 8, rays that graze vertices are excluded",
     title="Solid BSP ray query returns the first border hit",
     statement="A ray cast through the solid BSP from outside the solid reports the nearest point where it enters the solid, at the true distance and with a border edge through that point, or no hit if it never does. "
               "From inside, the plain query reports a hit at distance zero and the border query reports the point where the ray leaves the solid. "
               "The answer is the same for every splitting choice and under concurrent queries, and running out of memory leaks nothing.",
     over=["inputs", "schedules", "fault_sequences"],
     qtext="every closed solid, every split choice, every ray that does not graze a vertex, every interleaving, every failing allocation",
     why="The tests shoot a few axis-aligned rays at fixed solids; the near/far traversal order, and origins that lie on a splitting plane, depend on the tree shape.",
     files=SOLID_FILES,
     mech=[("near/far stack with [tmin,tmax] interval", "solid_leaf_bsp_tree.hpp ray_intersection_impl"), ("closest edge among the planes crossed", "solid_leaf_bsp_tree.hpp find_closest_hit")])
BSP = ["geometrix/algorithm/node_bsp_tree_2d.hpp", "geometrix/algorithm/orientation.hpp", "geometrix/algorithm/line_intersection.hpp"]
BSPMECH = [("classification of edges against the splitting line", "node_bsp_tree_2d.hpp classify()"), ("recursive children per side", "node_bsp_tree_2d.hpp constructor and insert()")]
prop("C04", ["node_bsp.cpp"], defines=["-DPROP_C04"],
     rule="every run builds a tree and locates points in it from several tasks; distinctness is by the hash of all choices, results and simulator events.",
     bounds="solids (and complements) of up to ~40 edges on integer lattices, three selectors (first, scored, simulator-chosen), edges partly or all added later in batches (also to a tree made empty), up to 4 concurrent readers, points on a 1/8 lattice biased to vertices, edges and splitting lines",
     required_probes=["inside", "outside", "boundary", "insert", "made-empty", "oom-surfaced"],
     title="Node BSP locates points inside, outside or on the boundary",
     statement="For the oriented border edges of a closed shape (interior on the left), the node-storing BSP tree locates every point as inside, outside or boundary exactly as the shape says, including points on vertices and on splitting lines. "
               "The answer does not depend on the partition selector, on the order of the edges or on whether edges were given at construction or inserted later, nor on concurrent readers. "
               "A construction or insertion that runs out of memory leaks nothing.",
     over=["inputs", "histories", "schedules", "fault_sequences"],
     qtext="every closed shape, every selector choice at every node, every batching of insertions, every query point, every reader interleaving, every failing allocation",
     why="The tests build two trees with one selector each and locate a few points; no test inserts later, places the query on a splitting line, shares the tree, or fails an allocation.",
     files=BSP, mech=BSPMECH + [("descent by orientation, boundary test on coincident edges", "node_bsp_tree_2d.hpp locate_point()")])
prop("C05", ["node_bsp.cpp"], defines=["-DPROP_C05"],
     rule="a run is non-trivial when a complete traversal visited more than two fragments or a failure surfaced.",
     bounds="1-14 segments (rarely up to 40; crossing, overlapping and duplicate ones included) on lattices of radius 2-6, three selectors, batched insertion, up to 3 concurrent traversals, nested traversals, visitors that throw",
     required_probes=["occlusion-pair", "insert", "made-empty", "callback-exception-surfaced", "edge-on-skipped"],
     title="Painter's traversal visits every edge once, farther before nearer",
     statement="A painter's traversal from a viewpoint visits fragments that together cover every stored edge exactly once (edges seen exactly edge-on may be skipped) and nothing else, and never visits a fragment before one that it hides from the viewpoint. "
               "A visitor that throws stops the traversal and its exception reaches the caller; the tree stays usable and nested or concurrent traversals see the same fragments.",
     over=["inputs", "programs", "schedules", "fault_sequences"],
     qtext="every segment set, selector, insertion batching and viewpoint (on splitting lines too), every visitor that throws or re-enters, every interleaving",
     why="No test calls the traversal at all.",
     files=BSP, mech=BSPMECH + [("far side, own edges, near side", "node_bsp_tree_2d.hpp painters_traversal()")])

prop("C06", ["grid_store.cpp"],
     rule="a run is non-trivial when more than two hashed cells were live at the end of its history.",
     bounds="grids up to 7x7 cells (rarely up to 41x41) of dyadic and non-dyadic width, histories of up to 31 operations (rarely 251), payloads that own memory (hashed grid) or plain values (dense grid), up to 4 concurrent readers",
     required_probes=["failed-creation", "erased", "clear", "moved", "dense-copy"],
     title="Grids store exactly what was stored, cell by cell, across any history",
     statement="A grid contains exactly the points within its bounds; each of them addresses exactly one cell, the one whose corners enclose it, and a cell holds exactly what was last stored in it, whatever sequence of creations, lookups, erasures, clears, copies and moves came before. "
               "The hashed grid has precisely the cells created and not erased, lookups never create cells, and references to a live cell stay valid while others are created or erased. "
               "A cell creation that runs out of memory changes nothing, and concurrent readers see the stored contents.",
     over=["histories", "inputs", "fault_sequences", "schedules"],
     qtext="every operation sequence, every grid geometry, every failing allocation, every interleaving of readers",
     why="The tests create one grid and use it only to guide a traversal; no test erases, clears, moves, copies, reads concurrently or fails an allocation.",
     files=["geometrix/algorithm/grid_2d.hpp", "geometrix/algorithm/hash_grid_2d.hpp", "geometrix/algorithm/grid_traits.hpp"],
     mech=[("index from scaled coordinate", "grid_traits.hpp get_x_index/get_y_index"), ("find then emplace", "hash_grid_2d.hpp get_cell"), ("multi_array indexing", "grid_2d.hpp get_cell")])
prop("C07", ["grid_lines.cpp"],
     rule="a run is non-trivial when some complete traversal crossed more than two cells or a visitor interrupted one.",
     bounds="grids up to 10x10 cells (rarely up to 65x65) of dyadic width, segment ends on a 1/8-cell lattice up to two cells outside the grid, four traversals, visitors that stop or throw at the n-th cell, up to 3 concurrent traversals",
     required_probes=["complete", "clipped", "bresenham"],
     title="Grid line traversals visit the cells a segment crosses, in order, and can stop",
     statement="Traversing a grid along a segment visits every cell whose interior the segment crosses within the grid's bounds, no cell it does not touch, none twice, in order and without gaps, and always ends (the integer line variant visits the cells of a digital line between the end cells). "
               "When the visitor asks to stop or throws, it is not called again.",
     over=["inputs", "programs", "schedules"],
     qtext="every grid, every segment inside, across or outside of it, every point at which the visitor stops or throws, every interleaving of traversals of a shared grid",
     why="The tests traverse some ten fixed segments; descending segments within one column, clipped slopes and early stops are not among them.",
     files=["geometrix/algorithm/fast_voxel_grid_traversal.hpp", "geometrix/algorithm/orientation_grid_traversal.hpp", "geometrix/algorithm/bresenham_grid_traversal.hpp", "geometrix/algorithm/cohen_sutherland_line_clipping.hpp"],
     mech=[("parametric stepping to the nearest cell border", "fast_voxel_grid_traversal.hpp"), ("stepping by orientation to the cell corner", "orientation_grid_traversal.hpp"), ("clipping to the bounds", "cohen_sutherland_line_clipping.hpp")])

prop("C08", ["floodfill.cpp"],
     rule="a run is non-trivial when a complete fill visited more than four cells, or an injected failure surfaced.",
     bounds="grids of 2-9 cells a side (rarely up to 31), convex polygons and convex disjoint holes on a 1/8-cell lattice inside the grid; star-shaped polygons for the colour flood; up to 3 concurrent fills of shared inputs",
     required_probes=["several-holes", "helper", "convex", "seed-cell", "oom-surfaced", "callback-exception-surfaced"],
     title="Flood fill visits the polygon's cells, skips holes and never leaks out",
     statement="Filling a convex polygon (with or without disjoint convex holes) on a grid visits every cell that holds part of its interior exactly once, no cell the polygon does not touch and no cell that lies inside a hole. "
               "A colour flood started in any cell visits exactly the cells connected to it that no boundary cell cuts off, each cell at most once over the life of the fill, and reports whether it started on a boundary. "
               "A fill whose visitor throws or that runs out of memory stops, leaks nothing and has visited no wrong cell.",
     over=["inputs", "histories", "programs", "fault_sequences", "schedules"],
     qtext="every convex polygon and hole arrangement, every simple polygon and sequence of colour floods, every visitor that throws, every failing allocation, every interleaving of fills",
     why="The test fills one circle and one circle with two holes and checks nothing about the cells; holes stacked in one column, repeated floods and failures are not reached.",
     files=["geometrix/algorithm/floodfill_grid_traversal.hpp", "geometrix/algorithm/hash_grid_2d.hpp", "geometrix/algorithm/fast_voxel_grid_traversal.hpp", "geometrix/primitive/polygon_with_holes.hpp"],
     mech=[("boundary marking and column bounds", "floodfill_grid_traversal.hpp mark_boundary/mark_hole_boundary"), ("column scan around hole ranges", "floodfill_grid_traversal.hpp scan"), ("span flood by colour", "floodfill_grid_traversal.hpp traversal")])

prop("C09", ["mesh.cpp"], defines=["-DPROP_C09"],
     rule="a run is non-trivial when the mesh has more than three triangles, or an injected failure surfaced.",
     bounds="meshes of up to 32 unit-cell triangles (rarely up to 288) or star fans of up to 12 (rarely up to 43), optionally split further, under lattice affine maps; dense and sparse caches; up to 4 concurrent tasks of up to 8 lookups on a 1/8 lattice (vertices, edges, interiors, outside)",
     required_probes=["located", "outside", "copied", "oom-surfaced"],
     title="Mesh point location finds a triangle holding the point, or none outside",
     statement="A mesh built from points and index triples holds exactly the triangles that are not degenerate, counter-clockwise, in order. find_triangle returns a triangle that contains the point (borders included) whenever one exists and nothing otherwise, with the dense as with the sparse cell cache. "
               "Concurrent lookups on one shared mesh change nothing and race on nothing, and a construction that runs out of memory leaks nothing.",
     over=["inputs", "programs", "fault_sequences", "schedules"],
     qtext="every triangle mesh and point, both caches, every failing allocation during construction, every interleaving of concurrent lookups",
     why="The test locates a handful of points in one mesh from one thread with the dense cache; a lookup that fills in a sparse cell on the fly passes it and races in every concurrent use.",
     files=["geometrix/algorithm/mesh_2d.hpp", "geometrix/algorithm/grid_2d.hpp", "geometrix/algorithm/hash_grid_2d.hpp", "geometrix/algorithm/eberly_triangle_aabb_intersection.hpp", "geometrix/algorithm/point_in_polygon.hpp"],
     mech=[("triangle bucketing by cell", "mesh_2d.hpp triangle_grid_cache"), ("bucket lookup and containment test", "mesh_2d.hpp find_triangle"), ("triangle and box overlap", "eberly_triangle_aabb_intersection.hpp")])

prop("C10", ["mesh.cpp"], defines=["-DPROP_C10"],
     rule="a run is non-trivial when a complete search visited more than three triangles, or an injected failure surfaced.",
     bounds="meshes as in C09; up to 4 concurrent tasks of up to 3 searches, with visitors that decline neighbours, stop early, throw or search again from inside a visit",
     required_probes=["complete-search", "stopped", "callback-exception-surfaced", "oom-surfaced"],
     title="Mesh adjacency is exact and a search visits what its visitor accepted",
     statement="The adjacency of a mesh names, for every side of every triangle, the triangle on its other side or none; get_triangle_adjacent_side agrees. A search offers its visitor exactly the bordering triangles of the one just visited except the one it came from, visits every accepted item once and nothing else, "
               "and ends at once when the visitor says so or throws. Concurrent and nested searches of one mesh do not affect each other.",
     over=["inputs", "histories", "programs", "fault_sequences", "schedules"],
     qtext="every triangle mesh, every visitor that accepts, declines, stops, throws or re-enters at any visit, every interleaving of searches",
     why="The test runs one search to completion on one mesh; early stops, exceptions, re-entry and concurrency are histories no test drives.",
     files=["geometrix/algorithm/mesh_2d.hpp"],
     mech=[("edge map", "mesh_2d.hpp create_adjacency_matrix"), ("depth-first visitor protocol", "mesh_2d.hpp search"), ("shared side", "mesh_2d.hpp get_triangle_adjacent_side")])

prop("C11", ["mesh.cpp"], defines=["-DPROP_C11"],
     rule="a run is non-trivial when a complete sweep of the first random number was checked, or an injected failure surfaced.",
     bounds="meshes as in C09; random numbers drawn by the simulator, including 0, 1 and their neighbours; a sweep of 240 evenly spread values per mesh; up to 2 concurrent tasks",
     required_probes=["upper-extreme", "lower-extreme", "oom-surfaced"],
     title="Random mesh positions lie in the mesh and fall by area, for every number",
     statement="get_random_position maps every triple of numbers in [0, 1], both ends included, to a point of the mesh, and the share of the first number's range that leads to a triangle is that triangle's share of the area. Concurrent calls on one mesh do not affect each other.",
     over=["inputs", "programs", "schedules"],
     qtext="every triangle mesh and every triple of random numbers in [0, 1], extremes included",
     why="A test draws a few random numbers; the ends of the range and the rounding of the summed areas, where an off-by-one reads past the triangles, come up once in 2^53 draws.",
     files=["geometrix/algorithm/mesh_2d.hpp"],
     mech=[("summed area weights", "mesh_2d.hpp mesh_2d_base"), ("selection", "mesh_2d.hpp get_random_position")])

prop("C12", ["mesh.cpp"], defines=["-DPROP_C12"],
     rule="a run is non-trivial when a search over a mesh of more than six vertices was checked, or an injected failure surfaced.",
     bounds="meshes as in C09; viewpoints strictly inside a triangle (1/12 lattice, so often aligned with several vertices) or exactly at a vertex; vertices seen only along the mesh border are not judged; up to 4 concurrent tasks of up to 4 searches; 5 million steps per search",
     required_probes=["visible", "hidden", "oom-surfaced"],
     title="The visible-vertex search ends and reports exactly the vertices in view",
     statement="A visible-vertices search from a point of a mesh ends, reports every vertex whose line of sight runs through the interior of the mesh, and no vertex whose line of sight leaves the mesh, also when the viewpoint is aligned with vertices or coincides with one. Concurrent searches of one mesh do not affect each other.",
     over=["inputs", "programs", "schedules"],
     qtext="every triangle mesh and viewpoint, every interleaving of searches",
     why="The test searches one mesh from one point in general position; aligned vertices, where a cone of sight shrinks to a line or a fan is walked round for ever, are not reached.",
     files=["geometrix/algorithm/visible_vertices_mesh_search.hpp", "geometrix/algorithm/mesh_2d.hpp", "geometrix/algorithm/is_segment_in_range.hpp", "geometrix/utility/utilities.hpp"],
     mech=[("cone propagation", "visible_vertices_mesh_search.hpp prepare_adjacent_traversal"), ("vertex in cone", "visible_vertices_mesh_search.hpp visit"), ("edge meets cone", "is_segment_in_range.hpp")])

prop("C13", ["dcel.cpp"],
     rule="a run is non-trivial when a list of more than two edges was calculated and compared, or an injected failure surfaced.",
     bounds="up to 4 (rarely 16) vertex-disjoint chains or rings of 2-7 lattice points, edges added in any order and with sub-tolerance noise; three lists per task, up to 15 (rarely 60) operations, up to 4 concurrent tasks sharing one list they copy from",
     required_probes=["chains-and-rings", "copied", "assigned", "moved", "add-failed"],
     title="Edge list links directed edges into exactly their chains and rings",
     statement="A doubly connected edge list given directed edges of vertex-disjoint chains and rings, in any order and with end points equal within tolerance, calculates exactly those chains as polylines and exactly those rings as polygons, each in edge direction. "
               "Recalculating after more edges gives the sequences of all edges so far. Copies and moves, by construction or assignment, carry the edges and sequences, answer and grow like the original, and are independent of it. "
               "An operation that runs out of memory leaks nothing and leaves a list that can be destroyed or assigned to, and copying a list concurrently does not affect it.",
     over=["inputs", "histories", "schedules", "fault_sequences"],
     qtext="every set of vertex-disjoint chains and rings, every order of edges, every history of additions, calculations, copies, moves and assignments, every failing allocation, every interleaving of readers",
     why="The tests add the edges of two or three fixed figures to one list once; copies, moves, recalculation, memory exhaustion and concurrent readers are not driven at all.",
     files=["geometrix/algorithm/doubly_connected_edge_list.hpp", "geometrix/utility/member_function_fusion_adaptor.hpp"],
     mech=[("edge insertion and tolerant vertex map", "doubly_connected_edge_list.hpp add_edge"), ("component graph walk", "doubly_connected_edge_list.hpp calculate_point_sequences"), ("copy and move", "doubly_connected_edge_list.hpp constructors and assignment")])

prop("C14", ["sweep.cpp"],
     rule="a run is non-trivial when a completed sweep reported more than three meeting points, or an injected failure surfaced.",
     bounds="2-17 segments (rarely up to 33) on integer lattices of radius 2-15 (random, connected, axis-parallel, nearly concurrent), overlapping collinear segments kept out; up to 3 concurrent tasks of up to 3 sweeps, visitors that throw or start a nested sweep",
     required_probes=["complete", "three-meet", "oom-surfaced", "callback-exception-surfaced"],
     title="Segment sweep reports every meeting point once, in order, with its segments",
     statement="The Bentley-Ottmann sweep over segments that do not overlap along a line calls the visitor once for every point where two or more segments meet (crossings, touching and shared end points), in order of x and then y, each time with exactly the segments through that point. "
               "The caller's segments are unchanged; concurrent and nested sweeps, and sweeps after one whose visitor threw, report the same. A sweep that runs out of memory leaks nothing.",
     over=["inputs", "programs", "schedules", "fault_sequences"],
     qtext="every set of segments without collinear overlaps (vertical and horizontal ones, many through one point), every visitor that throws or re-enters, every interleaving of sweeps, every failing allocation",
     why="The tests sweep a few fixed segment sets and count events; the status structure misorders only for particular combinations of simultaneous starts, ends and crossings, and no test throws from a visitor, nests, or runs sweeps concurrently.",
     files=["geometrix/algorithm/bentley_ottmann_segment_intersection.hpp", "geometrix/algorithm/bentley_ottmann_sweep.hpp", "geometrix/algorithm/intersection/segment_segment_intersection.hpp"],
     mech=[("event queue and sweep-line reordering", "geometrix/algorithm/bentley_ottmann_segment_intersection.hpp"), ("order of segments on the sweep line", "geometrix/algorithm/bentley_ottmann_sweep.hpp")])

prop("C15", ["scope_timer.cpp"], defines=["-DGSIM_DISK"],
     rule="a run is non-trivial when more than two scopes were timed, or an injected failure hit a timer.",
     bounds="up to 3 concurrent tasks of up to 4 (rarely 40) nested scope trees (depth 4), six names (quotes, commas, empty), scope times up to ~17 s of simulated time, clock set back and forth, disk open/short write/full/close errors",
     required_probes=["exact-statistics", "file-complete", "sample-at-risk", "oom-at-exit", "left-by-exception"],
     stub="clocks (seeded, wall clock jumps), file streams (in-memory disk that fails)",
     title="Scope timings count every scope once with its real duration despite failures",
     statement="Every scope that ends adds exactly one sample to the entry of its name, of a duration no longer than the real time around the scope and no shorter than inside it, also when the wall clock is set meanwhile, scopes nest, run in several threads, or are left by an exception. "
               "Count, total, mean and deviation are those of the samples, from the first sample and after a clear. "
               "A timer whose end runs out of memory loses at most its own sample and never ends the program, and the timings written to a working disk hold every name and its figures in a well-formed file, whatever failed before.",
     over=["histories", "schedules", "fault_sequences", "inputs"],
     qtext="every tree of scopes and names, every clock adjustment, every interleaving of threads, every failing allocation and disk error",
     why="No test covers the timers; clock steps, thread interleavings, exhausted memory inside a destructor and disk errors cannot be produced by a unit test.",
     files=["geometrix/utility/scope_timer.hpp", "geometrix/utility/scope_timer.ipp"],
     mech=[("timer start and end", "scope_timer.hpp scope_timer"), ("running statistics", "scope_timer.hpp running_stat"), ("file output", "scope_timer.ipp call_map::write")])

prop("C16", ["private_alloc.cpp"],
     rule="a run is non-trivial when its containers held more than three elements in all, or an injected failure surfaced.",
     bounds="up to 3 concurrent tasks of up to 15 (rarely 151) operations on a vector, list, map and shared pointers with private allocators; single requests of up to 128 elements and of more than the address space; constructors that throw",
     required_probes=["oversized-request", "shared", "oom-surfaced"],
     title="Private allocators pair each construction with one destruction under failures",
     statement="Containers and shared pointers that use a GEOMETRIX_PRIVATE_ALLOCATOR of a class with private constructors hold exactly the elements put in, construct each object on fresh memory once and destroy it once, and return every block, also when a constructor throws, memory runs out, or owners drop a shared object concurrently. "
               "allocate(n) returns memory for n elements or throws bad_alloc, also when n elements exceed the address space.",
     over=["histories", "fault_sequences", "schedules"],
     qtext="every history of container and shared-pointer operations, every throwing constructor and failing allocation, every interleaving of owners",
     why="The test constructs one object through the allocator; exception paths, exhausted memory, oversized requests and concurrent owners are not reached.",
     files=["geometrix/utility/private_allocator.hpp"],
     mech=[("allocate/construct/destroy/deallocate", "private_allocator.hpp private_allocator"), ("derived allocator and rebind", "private_allocator.hpp GEOMETRIX_PRIVATE_ALLOCATOR")])

prop("C17", ["fixed_io.cpp"],
     rule="a run is non-trivial when numbers were read back complete, or an arithmetic step was compared.",
     bounds="decimal, binary, truncating binary, short decimal, 64-bit decimal (arithmetic only), and decimal and binary run-time scaled formats, twelve arithmetic types of plain numbers, with numbers of different run-time scales in one program; whole range of the format; up to 5 numbers per stream; streams that deliver 1-4 bytes at a time, end early, run full or throw; up to 3 concurrent tasks; register machines of up to 10 steps without overflow",
     required_probes=["round-trip", "refused", "accepted", "output-failed", "output-exception", "arithmetic", "mixed", "different-scales", "tie", "converted", "other-type", "function"],
     stub="stream buffers (piecemeal delivery, truncation, full, throwing)",
     title="Fixed-point numbers survive streams, and their arithmetic is exact",
     statement="A fixed-point number written to a stream and read back is the same number (within one unit for truncating formats), however the stream splits its bytes, and writing leaves the stream's formatting as it was, also when the output fails. "
               "Input that is no number or out of range is refused and leaves the variable unchanged. "
               "Sums, negation and comparison are exact, products and quotients are within one unit of the exact result, and conversion to floating point keeps the fraction; also between a number and a plain number of any arithmetic type on either side (refused only when the result is out of range), and between numbers of different run-time scales, where a sum is the nearest number in the scale of the left one. "
              "Assigning a fraction or a number of another format rounds as the format's policy says, ties to even or towards zero.",
     over=["inputs", "histories", "fault_sequences"],
     qtext="every number of every format, every sequence of operations without overflow, every split, truncation or failure of the stream",
     why="No test covers fixed-point numbers; the precision needed for a round trip shows only for values of many digits, and failing streams do not occur in a unit test.",
     files=["geometrix/numeric/fixed_point.hpp", "geometrix/numeric/fixed_point_traits.hpp"],
     mech=[("stream operators", "fixed_point.hpp operator<< operator>>"), ("scaling", "fixed_point_traits.hpp scale policies"), ("rounding", "fixed_point_traits.hpp rounding policies")])

prop("C18", ["random.cpp"],
     rule="a run is non-trivial when a generator was drawn from more than three times, elements were selected from more than one, or a colour was compared.",
     bounds="limits of 1-1000 and, rarely, around the powers of two from 2^10 to 2^49; mt19937 and an engine of the simulator whose extremes come up often; three generators per task, up to 22 (rarely 200) operations, up to 3 concurrent tasks with generators of their own",
     required_probes=["copied", "reseeded", "original-gone", "elements", "partition", "palette"],
     stub="random engine (half the runs)",
     title="Random generators stay in their documented range and repeat by seed",
     statement="random_index_generator(n) and random_integer_generator()(n) return integers of [0,n), random_real_generator(x) reals of [0,x), whatever the engine yields. "
               "Generators of one type, limit and seed give one sequence; a copy continues the sequence of its original independently of it, also when the original is gone; reseeding starts the sequence of the seed. random_element and the random selection of a partition return an element of their range, writable or constant. Colours keep the hue, saturation and value asked for, also in a palette of random hues, which is whole or, out of memory, not there.",
     over=["inputs", "histories", "fault_sequences", "schedules"],
     qtext="every limit and seed, every engine output, every history of draws, copies, destructions and reseeds, every interleaving of tasks with their own generators",
     why="Tests use the generators as a source of noise; the end of the range comes up rarely, and no test copies a generator and lets the original go.",
     files=["geometrix/utility/random_generator.hpp", "geometrix/utility/golden_ratio_color_generator.hpp", "geometrix/algorithm/hyperplane_partition_policies.hpp"],
     mech=[("range of the distribution", "random_generator.hpp constructors"), ("engine ownership", "random_generator.hpp m_randomNumberGenerator")])

prop("C19", ["memoize.cpp"],
     rule="a run is non-trivial when more than three values were cached, or an injected failure surfaced.",
     bounds="functions of two arguments of up to 20 different pairs (rarely 240), plain, recursive and doubly recursive through the memoised function itself, ordered and flat map caches in the natural order, the opposite and one of their own, up to 11 calls per task (rarely 61), copies of the function, up to 3 concurrent tasks with caches of their own",
     required_probes=["hit", "recursive", "own-order", "oom-surfaced"],
     title="A memoised function returns its function's value, computed once per argument",
     statement="A function made by memoize returns for every argument the value of the function given, evaluates it at most once per argument whose value was stored, and stores exactly the values of evaluations that completed, also when the function calls its memoised self, throws, or memory runs out, and for copies sharing the cache. Nothing is leaked.",
     over=["histories", "programs", "fault_sequences"],
     qtext="every sequence of calls, every recursion through the memoised function, every throwing evaluation and failing allocation, ordered and contiguous caches",
     why="The test memoises a product in a std::map; recursion that changes the cache under an evaluation, exceptions and failed insertions are not reached.",
     files=["geometrix/utility/memoize.hpp"],
     mech=[("look-up, evaluation and insertion", "memoize.hpp memoize_helper")])

prop("C20", ["polylines.cpp"], defines=["-DPROP_C20"],
     rule="a run is non-trivial when a query had more than one meeting to report, or when an injected failure surfaced.",
     bounds="polylines of 2-8 (rarely 32) and polygons of 3-8 (rarely 43) vertices on integer lattices of radius 2-7 (vertices repeated, edges collinear, folded back and crossing), scaled by powers of two, offset up to 200; edges of zero length are excluded; up to 3 concurrent tasks with up to 4 queries each",
     required_probes=["overlap", "cross", "touch", "callback-exception-surfaced"],
     title="Polyline and border intersection visits every meeting of two edges once",
     statement="Intersecting a segment with a polyline or a polygon's border, two polylines with each other, or a polyline with itself, calls the visitor exactly once for every pair of edges that meet, with the indices of the edges, the kind of meeting (a proper crossing, a touch at an end point, an overlap of positive length) and the point, or the two ends of the overlap, where they meet; never for a pair that does not meet. "
               "A self-intersection query does not report the joint between consecutive edges, straight or not, unless the edges overlap. "
               "The result tells whether anything met; a visitor that asks to stop is not called again; exceptions of the visitor reach the caller; nested and concurrent queries of the same points give the same answers.",
     over=["inputs", "programs", "schedules"],
     qtext="every pair of polylines or polygon (repeated vertices, collinear, folded and closed chains included), every segment, every visitor that stops, throws or queries again, every interleaving of concurrent queries",
     why="The tests intersect a few fixed polylines in general position with visitors that only record; collinear edges that touch at their ends, vertices on edges, overlaps, stopping, throwing and nested visitors are not reached.",
     files=["geometrix/algorithm/intersection/segment_segment_intersection.hpp", "geometrix/algorithm/intersection/segment_polyline_intersection.hpp", "geometrix/algorithm/intersection/segment_polygon_intersection.hpp", "geometrix/algorithm/intersection/polyline_polyline_intersection.hpp", "geometrix/algorithm/point_sequence/self_intersection.hpp"],
     mech=[("kind and place of one meeting", "segment_segment_intersection.hpp segment_segment_intersection, parallel_intersection"), ("edge enumeration and stop", "segment_polyline_intersect, segment_polygon_border_intersect, polyline_polyline_intersect"), ("joints of consecutive edges", "self_intersection.hpp polyline_self_intersection")])

prop("C21", ["polylines.cpp"], defines=["-DPROP_C21"],
     rule="a run is non-trivial when it decided simplicity of a ring, containment with touching borders, or the place of points level with vertices, or when an injected failure surfaced.",
     bounds="rings of 3-10 vertices (rarely up to 43; simple and not, spikes, repeated vertices, straight joints) on integer lattices of radius 2-8, up to 2 holes, scaled by powers of two, offset up to 200; points on a 1/8 lattice; edges of zero length and triangles of zero area are excluded; up to 3 concurrent tasks",
     required_probes=["oom-surfaced", "yes", "no", "holes-simple", "holes-not-simple", "contained-touching", "crossing", "point-border"],
     title="Polygon simplicity, containment and point location are exact",
     statement="is_polygon_simple (memoized or not) says yes exactly when no two edges of the polygon meet other than consecutive edges at their common vertex, and is_polygon_with_holes_simple exactly when every ring is simple and no two rings meet. "
               "A polygon or polyline is reported contained in a simple polygon exactly when no point of it lies outside, touching the border or running along it included; a point is reported as vertex, border, interior or exterior point of a simple polygon exactly as it lies. "
               "None of these changes its arguments, nor does building a polygon with holes from the caller's polygons; concurrent queries agree, and running out of memory leaks nothing.",
     over=["inputs", "schedules", "fault_sequences"],
     qtext="every ring with at least three vertices and no edge of zero length, every polygon with holes, every pair of container and content, every query point, every interleaving of concurrent queries, every failing allocation",
     why="The tests try a few fixed figures; contents that touch the container's border from inside or outside, edges that run along it, spikes, vertices on edges and failing allocations are not reached.",
     files=["geometrix/algorithm/point_sequence/is_polygon_simple.hpp", "geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp", "geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp", "geometrix/algorithm/intersection/segment_projects_outside_polygon.hpp", "geometrix/algorithm/point_in_polygon.hpp", "geometrix/primitive/polygon_with_holes.hpp"],
     mech=[("pairs of edges", "is_polygon_simple.hpp"), ("border crossings and sub-segment midpoints", "segment_projects_outside_polygon.hpp"), ("ray parity on both sides", "point_in_polygon.hpp point_polygon_containment_or_on_border")])

prop("C22", ["polylines.cpp"], defines=["-DPROP_C22"],
     rule="a run is non-trivial when a segment was cut by the border, or two convex polygons had a common part, or an injected failure surfaced.",
     bounds="simple polygons of 3-10 vertices (rarely up to 43) and convex polygons of 3-10 vertices on integer lattices of radius up to 12, scaled by powers of two, offset up to 200; convex polygons whose borders touch without crossing are only checked for points outside and termination; up to 3 concurrent tasks",
     required_probes=["cut-segment", "convex-apart", "convex-crossing", "convex-nested", "callback-exception-surfaced"],
     title="Intersections with polygons yield exactly the common part",
     statement="Intersecting a segment with a simple polygon hands the visitor pieces of the segment that cover exactly its part inside the polygon or on its border, no piece twice, and tells whether they meet at all. "
               "Intersecting two counter-clockwise convex polygons of which no vertex lies on the other's border hands the visitor exactly the vertices of their common part, in order around it, whether the borders cross or one polygon lies inside the other, and says none exactly when they have nothing in common; the order of the arguments does not matter. If their borders touch, it still ends and reports no point outside of either. "
               "Exceptions of the visitor reach the caller, nested and concurrent queries agree, and running out of memory leaks nothing.",
     over=["inputs", "programs", "schedules", "fault_sequences"],
     qtext="every simple polygon and segment (through vertices, along edges, ending on the border), every pair of convex polygons in general position, every visitor that throws or queries again, every interleaving, every failing allocation",
     why="The tests intersect a box with a triangle or a box in eight fixed positions, and never intersect a segment with a polygon.",
     files=["geometrix/algorithm/intersection/segment_polygon_intersection.hpp", "geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp"],
     mech=[("cut points in order along the segment", "segment_polygon_intersection"), ("advance rules and containment fallback", "convex_polygon_polygon_intersection")])

prop("C23", ["cutting.cpp"], defines=["-DPROP_C23"],
     rule="a run is non-trivial when a polyline was cut strictly inside, or when an injected failure surfaced.",
     bounds="polylines of 2-8 vertices (rarely up to 36) on integer lattices of radius 2-7 (folded back, self-crossing and closed chains included), scaled by powers of two, offset up to 200; positions before, at, between and beyond the vertices; edges of zero length are excluded; up to 3 concurrent tasks",
     required_probes=["front", "back", "ends", "split", "position", "characteristics", "subsequence", "oom-surfaced"],
     title="Cutting and measuring polylines conserves length and shape",
     statement="Clipping a length off the front, the back or both ends of a polyline, and splitting it at a position, yield exactly the named parts: together they run through the same points in the same order, their lengths add up, a cut beyond an end leaves nothing on that side, and no vertex is lost or repeated. "
               "The point at a position along a polyline lies on it that far from its start, the midpoint at half its length, and the position reported for a point on it leads back to that point; a subsequence of a polygon is its run of vertices between the two given, wrapping around. Inputs are unchanged, concurrent calls agree, and running out of memory leaks nothing.",
     over=["inputs", "schedules", "fault_sequences"],
     qtext="every polyline without edges of zero length, every position before, on and beyond it, every interleaving of concurrent calls, every failing allocation",
     why="The tests cut a handful of straight or L-shaped polylines at round positions; cuts at and beyond the ends, folded and closed chains and failing allocations are not reached.",
     files=["geometrix/algorithm/point_sequence/clip_polyline_ends.hpp", "geometrix/algorithm/point_sequence/polyline_split.hpp", "geometrix/algorithm/point_sequence/polyline_mid_point.hpp", "geometrix/algorithm/point_sequence/find_subsequence.hpp", "geometrix/algorithm/point_sequence/length.hpp"],
     mech=[("segment and offset of a cut", "clip_polyline_ends.hpp"), ("end of the walk", "polyline_split.hpp"), ("both walks from the point", "find_subsequence.hpp polygon_subsequence")])

prop("C24", ["cutting.cpp"], defines=["-DPROP_C24"],
     rule="a run is non-trivial when vertices were removed, or when an injected failure surfaced.",
     bounds="polylines and polygons of 3-10 vertices (rarely up to 43) on integer lattices of radius 2-7 with repeated, collinear and folded-back vertices, also at the seam, scaled by powers of two, offset up to 200; up to 3 concurrent tasks",
     required_probes=["simplified", "closed", "collinear-removed", "equal-removed", "identified", "polyline-cleaned", "oom-surfaced"],
     title="Simplifying and cleaning point sequences keeps the shape",
     statement="Simplifying a polyline keeps its ends and a subsequence of its vertices, and no vertex dropped is farther from the line of the edge that replaces it than the tolerance. "
               "Removing equal or collinear vertices from a polygon or polyline leaves a subsequence of the vertices with none equal to or collinear with its neighbours, at the seam of a polygon included, through the same shape; the functions that identify such vertices report exactly those a removal would drop. Concurrent calls agree, and running out of memory leaks nothing.",
     over=["inputs", "schedules", "fault_sequences"],
     qtext="every polyline and polygon, every tolerance, repeated and collinear vertices anywhere including the seam, every interleaving of concurrent calls, every failing allocation",
     why="The tests clean a few fixed polygons and simplify fixed open polylines; closed chains, runs of collinear vertices over the seam and repeated vertices at the end are not reached.",
     files=["geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp", "geometrix/algorithm/point_sequence/remove_collinear_points.hpp"],
     mech=[("farthest vertex from the chord", "ramer_douglas_peucker_algorithm.hpp"), ("runs and the seam", "remove_collinear_points.hpp")])

prop("C25", ["collision.cpp"],
     rule="a run is non-trivial when a contact ahead was timed against the simulated motion, or more than three contacts followed each other.",
     bounds="up to 6 bodies (balls, lines, segments, axis-aligned and oriented boxes, convex polygons of 3-7 vertices) on half-integer lattices, scaled by powers of two, velocities on a half-integer lattice; up to 3 rounds of queries by up to 3 concurrent tasks while the clock runs, jumps and velocities change; worlds of up to 4 balls between walls and pins for up to 27 contacts; grazing contacts (overlap below 1e-6) may be reported or not",
     required_probes=["sphere", "line", "segment", "segment-end", "box", "oriented-box", "oriented-boxes", "polygons", "overlapping", "inside", "billiards"],
     title="Moving bodies are reported in contact exactly at their first contact",
     statement="For a ball moving against another moving ball, a line, a segment, an axis-aligned box or an oriented box, and for two moving oriented boxes or convex polygons, a contact is reported exactly when one lies ahead (within the time limit where one is given), at the first time they touch, at once if they overlap now, and with the point where they touch (for a ball already overlapping the side of a box, the closest point of the box); the last time of contact of boxes and polygons is when they part. "
               "The static overlap tests of balls with boxes and of oriented boxes agree with the same motion. Moving a world of balls and walls from contact to contact, whatever the clock does in between, no body ever cuts into another, none is lost, and time goes on. Concurrent queries agree.",
     over=["inputs", "histories", "schedules"],
     qtext="every placement, size, direction and speed (axis-parallel, tangential, at rest and overlapping starts included), every sequence of contacts, every jump of the clock and change of velocity, every interleaving of concurrent queries",
     why="The tests throw a few balls at one wall and one box; starts inside the box's rounded margin, contacts with far edges, chains of contacts and bodies at rest are not reached.",
     files=["geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp", "geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp", "geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp", "geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp", "geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp", "geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp", "geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp", "geometrix/algorithm/intersection/obb_obb_intersection.hpp"],
     mech=[("region of the entry point", "moving_sphere_aabb_intersection.hpp, moving_sphere_obb_intersection.hpp"), ("interval overlap in time per axis", "detail/separating_axis_common.hpp no_intersect"), ("line contact, then end cap", "moving_sphere_segment_intersection.hpp")])

prop("C26", ["ordered.cpp"], defines=["-DPROP_C26"],
     rule="a run is non-trivial when an operation changed a set of more than one segment, or an injected failure surfaced.",
     bounds="lines through lattice points in ten directions (vertical, oblique and not representable exactly included), segments between 25 marks on the line, drawn in either direction, up to 16 operations per set (rarely 122), up to 3 tasks with a set each; a failing allocation at any point of an operation",
     required_probes=["oom-surfaced", "oom", "bridged", "split", "erased", "already-in", "reversed"],
     title="Sets of collinear segments obey union and difference",
     statement="After any sequence of collinear_segment_union and collinear_segment_difference with segments of one line, in either direction, the set holds exactly the maximal runs of what is covered: united segments that overlap, contain or touch each other are one, and what was taken out splits, shortens or removes segments; taking out a segment of no length changes nothing, and a segment of the set itself may be the argument. "
               "A piece is found in the set exactly when it is covered. Running out of memory leaks nothing, leaves disjoint segments that cover nothing new, and loses none that the operation does not concern; sets used concurrently do not affect each other.",
     over=["histories", "inputs", "fault_sequences", "schedules"],
     qtext="every sequence of unions and differences, every line and direction of the segments, every failing allocation, every interleaving of work on separate sets",
     why="The tests subtract a few fixed segments from one; unions, bridges over several segments, touching ends, reversed segments, longer histories and failing allocations are not reached.",
     files=["geometrix/utility/utilities.hpp"],
     mech=[("interval order and equivalence of overlapping segments", "utilities.hpp segment_interval_compare"), ("case analysis per overlapped segment", "utilities.hpp collinear_segment_difference, collinear_segment_union")])

prop("C27", ["ordered.cpp"], defines=["-DPROP_C27"],
     rule="a run is non-trivial when a container held more than three elements or three directions were compared, or an injected failure surfaced.",
     bounds="points, vectors and segments with lattice coordinates up to 6, scaled by powers of two, zeros of either sign, up to 29 (rarely 205) operations on a container, up to 3 tasks with a container each; null vectors, points at the origin of an angular order and segments of no length are excluded",
     required_probes=["oom-surfaced", "duplicate", "erased", "lexicographical_comparer", "reverse_lexicographical_point_compare", "dimension_compare", "lexicographical_segment_compare", "vector_angle_compare", "vector_angle_compare from a reference", "point_angle_compare", "pair_first_compare", "pair_second_compare", "lexicographical_compare of three keys", "lexicographical_compare of computed keys", "angles"],
     title="Containers ordered by the library's comparisons keep every element",
     statement="A set or map ordered by one of the library's comparisons (points lexicographically in either order or by one coordinate first, any elements by several keys in turn, pairs by either member, segments by their lower and upper end whichever way they are drawn, vectors or points by angle counter-clockwise from a reference direction) keeps exactly what was inserted and not erased, in the stated order, and takes two elements for the same exactly when they are the same point, the same segment or the same direction. "
               "A vector is between two others exactly when turning counter-clockwise from the first to the second passes it, and the pseudo angle lies in [0,4) and grows with the angle.",
     over=["histories", "inputs", "fault_sequences", "schedules"],
     qtext="every sequence of insertions, erasures and lookups, every element (zeros of either sign, opposite and parallel directions), every reference direction and origin, every failing allocation",
     why="The tests sort eight fixed vectors twice; opposite directions, segments drawn both ways, negative zeros and erasure are not reached, and an inconsistent order loses elements only for some histories.",
     files=["geometrix/utility/utilities.hpp", "geometrix/utility/vector_angle_compare.hpp", "geometrix/utility/point_angle_compare.hpp"],
     mech=[("lower and upper end of each segment", "utilities.hpp lexicographical_segment_compare"), ("half plane, then turn", "vector_angle_compare.hpp, point_angle_compare.hpp, utilities.hpp is_vector_between")])

prop("C28", ["distance.cpp"],
     rule="a run is non-trivial when two figures lay apart, or an injected failure surfaced.",
     bounds="points, segments (also of no length), polylines and polygons of 3-36 vertices (repeated vertices included), axis-aligned and oriented boxes on integer lattices of radius up to 40, points at fractions along or off edges that are not representable, scaled by powers of two, offset up to 500; up to 3 concurrent tasks; a failing allocation at any point of the branch-and-bound searches",
     required_probes=["stretch", "closing-edge", "oom-surfaced", "zero", "apart", "branch-and-bound", "boxes", "oriented-box"],
     title="Distances and closest points are the true minimum",
     statement="The distance (or squared distance) of two points, a point or a segment and a segment, a polyline, the border of a polygon or an oriented box, a point and a line or an axis-aligned box, two axis-aligned boxes, two polylines or the borders of two polygons is the least distance between a point of one and a point of the other (boxes are solid; boxes and points also in space), zero when they meet, and never an invalid number. "
               "Closest points lie on the figures at the reported edges and positions and are that far apart; the order of the arguments does not matter. The searches over long polylines and polygons leave nothing allocated, also when memory runs out, and concurrent queries agree.",
     over=["inputs", "fault_sequences", "schedules"],
     qtext="every pair of figures (touching, crossing, parallel, degenerate and repeated vertices included), every number of vertices on either side of the branch-and-bound limit, every failing allocation, every interleaving of concurrent queries",
     why="The tests measure a few fixed pairs; closing edges of long polygons, first vertices that are closest, points on edges whose squared distance rounds below zero, edges of no length and the far side of oriented boxes are not reached.",
     files=["geometrix/algorithm/distance"],
     mech=[("branch and bound over index ranges", "polygon_polygon_distance.hpp, polyline_polyline_distance.hpp and the closest_point variants"), ("clamped closest points", "segment_segment_closest_point.hpp, point_segment_closest_point.hpp"), ("case analysis", "eberly_segment_segment_distance.hpp, segment_obb_distance.hpp, aabb_aabb_distance.hpp")])

prop("C29", ["straight.cpp"],
     rule="a run is non-trivial when two figures met.",
     bounds="points, segments, rays, lines, triangles, boxes (also in space), polylines of up to 7 (rarely 28) and simple polygons of up to 9 (rarely 43) vertices on integer lattices of radius up to 48, aligned, repeated and halfway points included, scaled by powers of two, offset up to 500; up to 3 concurrent tasks; a failing allocation at any point of the triangle query; a ray, line or clipped segment that only grazes a corner of a box and a segment that only touches a plane may go either way",
     required_probes=["meeting", "apart", "crossing", "overlapping", "endpoint", "grazing", "ray-from-inside", "box-in-polygon", "clipped-both-ends", "triangle-touched", "plane-in-space", "space-meeting", "space-apart"],
     title="Rays, lines and segments meet figures exactly where they do",
     statement="A ray is reported to meet a segment or line, two lines to meet, a line to meet a segment, a segment to meet a plane, triangle or axis-aligned box (in the plane and in space), a ray or endless line to meet an axis-aligned box, a triangle, polyline or simple polygon to meet an axis-aligned box, exactly when they have a point in common, touching included. "
               "The kind reported is right (overlapping for collinear pieces, endpoint at the end of a segment, crossing otherwise, also by the variants that report only the kind), reported parameters and points are the first and last common points, a ray knows whether it starts inside the box, and clipping a segment to a box leaves exactly its part inside. Grazing a box's corner or touching a plane with an end may count either way.",
     over=["inputs", "fault_sequences", "schedules"],
     qtext="every ray, line, segment, triangle and box (parallel, collinear, touching, degenerate and enclosing ones included), every failing allocation, every interleaving of concurrent queries",
     why="The tests check a few generic positions; parallel and collinear rays, lines parallel to a side of a box, starts inside, touching ends and figures that contain one another are not reached.",
     files=["geometrix/algorithm/intersection", "geometrix/algorithm/line_intersection.hpp", "geometrix/algorithm/cohen_sutherland_line_clipping.hpp", "geometrix/algorithm/eberly_triangle_aabb_intersection.hpp"],
     mech=[("parallel and collinear branches", "ray_segment_intersection.hpp, ray_line_intersection.hpp, line_intersection.hpp"), ("slabs", "ray_aabb_intersection.hpp, line_aabb_intersection.hpp"), ("separating axes", "segment_aabb_intersection.hpp, segment_triangle_intersection.hpp, eberly_triangle_aabb_intersection.hpp"), ("out codes", "cohen_sutherland_line_clipping.hpp")])

prop("C30", ["round.cpp"],
     rule="a run is non-trivial when two figures met.",
     bounds="points, segments (also of no length), circles, balls in space, capsules (also with equal ends), axis-aligned and oriented boxes, polylines of up to 8 (rarely 32) vertices and strictly convex polygons of up to 15 vertices in either winding on integer lattices of radius up to 24, tangent and coincident circles included, scaled by powers of two, 0.1 and 1/3, offset up to 100; up to 3 concurrent tasks; visitors that stop or throw; figures that touch within 1e-8 may go either way but never give an invalid number",
     required_probes=["meeting", "apart", "touching", "from-inside", "no-length", "tangent", "two points", "one inside the other", "the same circle", "visitor-threw", "stopped", "polyline-crossed", "boxes-apart", "boxes-meet", "polygons-apart", "polygons-meet", "clockwise"],
     title="Circles, balls, capsules, boxes and convex polygons overlap when they do",
     statement="A ray or segment meets a circle or ball, a segment a capsule, a circle an axis-aligned or oriented box, two oriented boxes and two convex polygons (wound either way) each other exactly when they have a point in common (figures are solid; mere touching may go either way), and the parameter and point reported are the first in the figure, the start if it lies inside. "
               "Two circles are reported apart, one inside the other, tangent, crossing in two points or the same, with the points common to both; a segment or polyline and a circle give just the places where each edge crosses the circle, edge by edge in order, until the visitor asks to stop or throws. No answer contains an invalid number.",
     over=["inputs", "fault_sequences", "schedules"],
     qtext="every pair of figures (tangent, concentric, parallel, enclosing and degenerate ones included), every visitor that stops or throws, every interleaving of concurrent queries",
     why="The tests check a few generic positions; tangent circles whose discriminant rounds below zero, segments parallel to a capsule or starting inside it, enclosed figures and either winding are not reached.",
     files=["geometrix/algorithm/intersection"],
     mech=[("quadratic along the segment", "ray_sphere_intersection.hpp, segment_sphere_intersection.hpp"), ("radical line", "circle_circle_intersection.hpp, sphere_sphere_intersection.hpp"), ("cylinder and end caps", "segment_capsule_intersection.hpp"), ("separating axes", "obb_obb_intersection.hpp, separating_axis_convex_polygons.hpp")])

prop("C31", ["boxes.cpp"],
     rule="a run is non-trivial when a box was made of a sequence or grew.",
     bounds="boxes in the plane and in space in 3 slots each per task, histories of up to 14 (rarely over 70) operations, sequences of up to 9 (rarely 36) points (also empty ones and stretches of them) on integer lattices of radius up to 10 scaled by powers of two, cones of less than a half turn; 1-3 concurrent tasks; a segment that meets a cone only in its apex may go either way",
     required_probes=["from-bounds", "grown", "grown-by-itself", "inside", "boxes-meet", "boxes-apart", "empty-box", "point-inside", "point-outside", "diagonals-meet", "diagonals-apart", "cone-met", "cone-missed"],
     title="Bounding boxes stay the least through any history and answer exactly",
     statement="An axis-aligned box in the plane or in space made from a sequence of points, a stretch of one, a segment, two corners or the bounds of these, and grown by any sequence of other boxes or bounds (itself and the box of nothing included), has exactly the least and greatest coordinates of what it was made of, and its bounds and corners say so; other boxes do not change. "
               "A point is in a box, two boxes or the boxes around two diagonals meet (touching included), and a box contains another, exactly when the coordinates say so. A segment is in the range between two directions from a point, less than a half turn apart (`is_segment_in_range_2d` giving only the answer), exactly when part of it lies in that cone, its border included.",
     over=["inputs", "histories", "schedules"],
     qtext="every history of making, assigning and growing boxes, every pair of boxes, point, diagonal pair, and every cone and segment",
     why="The tests build a few boxes and ask each once; boxes that touch, grow by themselves, start empty or come from a stretch of a sequence, and segments on the border of a cone or past its apex, are not reached.",
     files=["geometrix/primitive/axis_aligned_bounding_box.hpp", "geometrix/primitive/point_sequence_utilities.hpp", "geometrix/algorithm/is_segment_in_range.hpp", "geometrix/algorithm/bounding_box_intersection.hpp"],
     mech=[("bounds per dimension", "point_sequence_utilities.hpp get_bounds, update_bound"), ("recursion over the dimensions", "axis_aligned_bounding_box.hpp dimension_processor"), ("turns against both directions", "is_segment_in_range.hpp")])

prop("C32", ["predicates.cpp"],
     rule="a run is non-trivial when a turn or a pair of segments was decided.",
     bounds="points, segments and simple polygons of up to 12 (rarely 43) vertices on integer lattices of radius up to 12 scaled by powers of two, anywhere within 500 of the origin; convex polygons strictly convex and counter-clockwise; angles of up to 24 turns; the comparison policy is the caller's: it yields to other tasks or throws in the middle of a question; 1-3 concurrent tasks; segments in space of positive length",
     required_probes=["left", "right", "strictly-between", "at-an-end", "collinear-outside", "equal-ends", "none", "crossing", "overlapping", "endpoint", "left to right", "right to left", "point-on-segment", "point-off-segment", "apart-in-space", "crossing-in-space", "endpoint-in-space", "overlapping-in-space", "at-vertex", "on-border", "inside", "outside", "convex-inside", "convex-border", "convex-outside", "quadrilateral", "in-triangle", "off-triangle", "policy-threw"],
     title="Turns, meetings of segments and containment agree with exact geometry",
     statement="For inputs whose answer is separated from the tolerance: the turn of three points or two vectors, whether three points are collinear, one lies between two others (with or without them) and two points are level or upright are exact. Two segments in the plane or in space are told apart, crossing (inside both), meeting at an end of one, or overlapping, the same whichever comes first and however each is directed, and the points reported are where they meet or the ends of what they share; a segment without length meets another exactly when it lies on it. The directed test says from which side to which a segment is crossed. "
               "A point is in a polygon, a strictly convex one, a quadrilateral or a triangle (counter-clockwise) exactly when it is inside; on the border the convex tests say inside, containment tells vertex, border, interior and exterior apart, and of two parts of a polygon cut along a chord exactly one has a point of the whole. Normalised angles are whole turns away and in range. The caller's comparison policy may throw (the exception surfaces) or run other work.",
     over=["inputs", "programs", "fault_sequences", "schedules"],
     qtext="every pair of segments, point triples, polygons and points, and every point at which the comparison policy throws or yields",
     why="Tests sample fixed coordinates; symmetric, degenerate and collinear cases are unbounded, and no test interleaves questions or makes a policy throw.",
     files=["geometrix/algorithm/orientation.hpp", "geometrix/algorithm/intersection/segment_segment_intersection.hpp", "geometrix/algorithm/point_in_polygon.hpp", "geometrix/utility/utilities.hpp"],
     mech=[("exterior product sign under tolerance", "orientation.hpp"), ("overlap by betweenness", "segment_segment_intersection.hpp parallel_intersection"), ("crossing counts left and right", "point_in_polygon.hpp point_polygon_containment_or_on_border")])

prop("C33", ["sequences.cpp"],
     rule="a run is non-trivial when an area, the edges of a sequence or a comparison was decided.",
     bounds="polygons of up to 12 (rarely 43) and polylines of up to 9 (rarely 36) points on integer lattices of radius up to 10 scaled by powers of two, anywhere within 100 of the origin, given as polygon, polyline or plain vector; half the polygons may cross themselves; 1-3 concurrent tasks; centroids only where there is an area, congruence only without repeated points; segments split down to a quarter of the unit",
     required_probes=["counter-clockwise", "clockwise", "edgeless", "edges-oom", "reversed", "equal", "equal-shifted", "different", "offset", "no-offset", "concave", "convex", "congruent", "incongruent", "split", "not-split"],
     title="Area, centroid, edges, reversal and comparison of point sequences are exact",
     statement="The signed area of a sequence is positive when it runs counter-clockwise and its size is the area; the centroid is that of the region. The edges of a polygon or polyline are its consecutive points in order (closing for a polygon), a reversed copy has the same points backwards, the next and previous index go round, and a corner is concave exactly when it does not turn left. "
               "Two sequences are equal, equal from a shift, or congruent (one moved and turned onto the other, not mirrored) exactly when their points say so, and the shift between two simple polygons is found or said to be missing. A segment splits into the fewest equal halvings not longer than asked, in order, and its middle is the middle. When memory runs out the sequences are unchanged and nothing leaks.",
     over=["inputs", "fault_sequences", "schedules"],
     qtext="every polygon and polyline, pair of them, corner and segment, and every allocation that fails",
     why="The tests use one or two shapes each, never clockwise or crossing ones, shifts, near misses or failing allocations.",
     files=["geometrix/primitive/point_sequence_utilities.hpp", "geometrix/algorithm/point_sequence/is_congruent.hpp", "geometrix/algorithm/split_segment.hpp", "geometrix/algorithm/segment_mid_point.hpp"],
     mech=[("shoelace sums", "point_sequence_utilities.hpp get_signed_area, get_centroid"), ("lengths and turns edge by edge", "is_congruent.hpp"), ("halving", "split_segment.hpp")])

prop("C34", ["sequences.cpp"], defines=["-DBENDING"],
     rule="a run is non-trivial when a side, a curvature, a splitting or a line beside a polyline was decided.",
     bounds="polylines of up to 9 (rarely 36) points on integer lattices of radius up to 10 scaled by powers of two, crossing themselves or not; 1-3 concurrent tasks; sides are not judged for points equally near to two places or at a fold, curvature not where a polyline returns to the point before, offsets not at folds; the trimmed offset (liu_polyline_offset) is not covered",
     required_probes=["at-corner-of-the-next-edge", "on-polyline", "beside-edge", "beyond-end", "straight-beyond-end", "at-corner", "bends-left", "bends-right", "does-not-bend", "inflections", "split", "not-split", "split-by-curvature", "to-the-left", "to-the-right", "straight-joint"],
     title="The side, curvature, splitting and offset of a polyline are exact",
     statement="A point is on the left or right of a polyline according to the edge nearest to it, at a corner according to the wedge there, past an end according to the end edge's line, and on neither side when it is on the polyline or straight past an end. The curvature at a vertex is that of the circle through it and its neighbours, positive to the left, zero at the ends; the curvature with its length and the total curvatures are its sums, signed or absolute. Inflections are the vertices that bend right where the one before did not, or the reverse (ends and straight vertices count as not bending right). "
               "Splitting at inflections, or wherever the absolute curvature since the last cut exceeds a limit, gives the polyline's points in order in pieces that share the vertices cut at. The line beside a polyline at a distance, left or right, has one point per vertex, at that distance from the edges there on the side asked, straight across at the ends and at straight vertices. When memory runs out the polyline is unchanged and nothing leaks.",
     over=["inputs", "fault_sequences", "schedules"],
     qtext="every polyline, point, vertex, limit and distance, and every allocation that fails",
     why="Side, offset and curvature are tested on one polyline each or not at all; corners seen from outside, straight joints, cuts at the last vertex and failing allocations are not.",
     files=["geometrix/algorithm/point_sequence/point_polyline_orientation.hpp", "geometrix/algorithm/point_sequence/curvature.hpp", "geometrix/algorithm/point_sequence/polyline_offset.hpp"],
     mech=[("nearest edge, then wedge at its end", "point_polyline_orientation.hpp"), ("area over the three lengths", "curvature.hpp polyline_signed_curvature_at_index"), ("crossings of the shifted lines", "polyline_offset.hpp polyline_offset_impl")])

prop("C35", ["algebra.cpp"], title="Algebraic expressions equal ordinary linear algebra",
     statement="However an expression over points, vectors, matrices and scalars is grouped, and whether or not its destination is among its operands, it evaluates to what ordinary linear algebra gives (exactly, where every intermediate number is representable), and leaves its other operands alone: sums, differences, scalings, dot, cross, outer and matrix products, transposes, determinants, traces, minors, norms, projections, normals and the bisector of the counter-clockwise turn from one vector to another. Inversion and LUP decomposition yield the inverse, a permuted product of triangular factors and solutions for regular matrices, and report singular ones by throwing. A matrix composed of blocks, rows and columns is a view of them: it reads and writes through to them and takes part in expressions like any other.",
     over=["inputs", "programs"], qtext="every program of expressions over private and shared operands, any aliasing of destination and operands, every interleaving of tasks", why="Tests sample operand values and a few expression shapes, one evaluation each, into a fresh destination.",
     rule="a run is non-trivial when a value was compared with the model; every step evaluates one of about a hundred expression shapes, drawn from a table, into a register that may be an operand.",
     bounds="Registers of points, vectors and matrices with integer coordinates; up to 4 tasks of up to 10 steps; coordinates within 100 so that results are exact; LUP of 2x2 to 6x6; 2x2, 3x3, 4x4, 2x3 and 3x2 matrices, of one or of mixed number types, and 4x4, 3x4 and 4x3 ones composed of blocks, rows and columns.",
     required_probes=["aliased", "vector", "point", "scalar", "matrix", "plane", "singular", "inverted", "composed", "written-through", "row-column", "mixed", "antiparallel", "parallel", "bisected", "4x4", "null-column", "decomposed"],
     files=["geometrix/algebra", "geometrix/tensor", "geometrix/arithmetic"], mech=[("proto grammar and evaluation", "geometrix/algebra/grammar.hpp"), ("LUP decomposition", "geometrix/algebra/lup_decomposition.hpp")])
prop("C36", ["frames.cpp"], title="A point keeps its place between Cartesian and polar frames",
     statement="Carrying a point or vector in two or three dimensions from a Cartesian frame into a polar one or back, by construction, assignment, transform or coordinate by coordinate, keeps its place to rounding; the polar coordinates have the distance from the origin as radius, the azimuth in (-pi, pi] and the inclination in [0, pi]. There and back gives the place one started from, copies within a frame are unchanged, and the original is left alone.",
     rule="a run is non-trivial when a place was compared after a change of frame.",
     over=["inputs", "histories", "schedules"], qtext="every point of a lattice at several scales, axes, origin and branch cut included, every chain of conversions, every interleaving of tasks", why="Tests convert one point on an axis, once each way, in the plane only.",
     bounds="Chains of up to 10 conversions in up to 4 tasks sharing constant points; coordinates up to 320; radius also negative, azimuth to +-3 pi.",
     required_probes=["plane", "space", "there-and-back", "origin", "branch-cut"],
     files=["geometrix/space/cartesian_polar_transformation.hpp", "geometrix/space/polar_cartesian_transformation.hpp", "geometrix/space/reference_frame_transformation.hpp"], mech=[("angle terms", "cartesian_polar_transformation.hpp term_calculator"), ("products of sines", "polar_cartesian_transformation.hpp term_calculator"), ("frame of an adaptor", "geometrix/space/cartesian_reference_frame.hpp, polar_reference_frame.hpp")])
prop("C37", ["numbers.cpp"], title="Dimensioned quantities and tolerance comparisons keep their laws",
     statement="Every tolerance comparison policy (absolute, fractional, relative, direct and mapped by type) says of two finite signed numbers, whole or not, exactly one of less, equal and greater, the inclusive relations being their unions; the order is that of the numbers, equality is symmetric, every number equals itself, and two numbers are equal exactly when their distance is within the policy's tolerance (absolute: the tolerance; fractional: the fraction of both, or the absolute tolerance next to zero; relative: the tolerance times one plus both magnitudes). The free functions and function objects agree. "
               "Geometry over dimensioned coordinates (lengths, areas, speeds, times) gives the numbers the same geometry gives over plain ones. Strongly typed numbers compute and compare as the numbers they wrap, and an operation leaves its operands alone.",
     rule="a run is non-trivial when a comparison, a query of dimensioned geometry or a strongly typed computation was decided.",
     over=["inputs", "programs", "fault_sequences", "schedules"], qtext="every pair of numbers and tolerance, every one of 81 queries over every figure of a lattice, every interleaving of tasks and every allocation that fails", why="Tests sample a few values of one policy, and use dimensioned coordinates in a handful of queries.",
     bounds="Exact laws on sixty-fourths up to 200 with tolerances up to 39/64; symmetry, trichotomy and order on any finite double or float, subnormal and huge included; queries on integer lattices of radius up to 8 scaled by 1/4 to 4, up to 12 shared points; up to 4 tasks of up to 10 (rarely 70) steps.",
     required_probes=["integers", "functors", "mapped", "within-tolerance", "at-tolerance", "laws", "dimensioned", "typed"],
     files=["geometrix/numeric/boost_units_quantity.hpp", "geometrix/numeric/number_comparison_policy.hpp", "geometrix/utility/tagged_quantity.hpp"], mech=[("absolute, fraction and relative tolerance policies", "geometrix/numeric/number_comparison_policy.hpp"), ("units in arithmetic results", "geometrix/numeric/boost_units_quantity.hpp"), ("tagged arithmetic", "geometrix/utility/tagged_quantity.hpp")])
prop("C38", ["figures.cpp"], title="Figures and points of any type keep what they are made of",
     statement="Polylines, polygons, polygons with holes and other sequences of points, however constructed, copied, moved, assigned, swapped and edited, hold exactly the points that history says, read forwards, backwards or by index; copies are independent, arguments of a copy and shared figures are left alone, and the edges of a polygon with holes are those of its border and of each hole, in order. When memory runs out an operation either did nothing or, for an assignment to a polygon with holes, left each part old or new; nothing leaks. "
               "Points of any type adapted to the library (tuples, member functions of mixed types, storage on the heap) convert, compute and compare as their coordinates do. Segments, circles, capsules, rectangles, boxes and lines answer with what they were made of; points and segments are before, behind, on or across a line exactly. A matrix applied to a point given a one, or a direction given a zero, yields the transformed coordinates.",
     rule="a run is non-trivial when an operation finished and every figure of the task was compared with the model.",
     over=["inputs", "histories", "fault_sequences", "schedules"], qtext="every history of constructions, copies, moves, assignments and edits over private and shared figures, every allocation that fails, every interleaving of tasks", why="Tests construct a figure and look at it once; no history, failing allocation, shared source or mixture of point types is tried.",
     bounds="Up to 4 tasks of up to 16 (rarely 102) operations, each on its own two polylines, polygons and polygons with holes, vectors, deques and points of six types, and on shared constant ones; integer coordinates up to 2000.",
     required_probes=["constructed", "assigned", "moved", "edited", "traversed", "holed", "holes-assigned", "holes-edited", "interrupted", "edges", "converted", "figures", "sided", "straddling", "homogeneous", "out-of-memory"],
     files=["geometrix/primitive", "geometrix/tensor/fusion_vector_access_policy.hpp", "geometrix/tensor/homogeneous_adaptor.hpp", "geometrix/utility/construction_policy.hpp", "geometrix/utility/assignment_policy.hpp", "geometrix/algorithm/classify_simplex_to_plane.hpp"], mech=[("construction and assignment of sequences", "geometrix/primitive/polygon.hpp, polyline.hpp, polygon_with_holes.hpp"), ("access policies", "geometrix/tensor/fusion_vector_access_policy.hpp, tuple_vector_access_policy.hpp"), ("one more coordinate", "geometrix/tensor/homogeneous_adaptor.hpp")])
prop("C39", ["motions.cpp"], title="Turning and shifting a figure is a rigid motion",
     statement="Turning a point, a vector or a whole polygon, polyline or set of points from one unit direction to another about any point, and turning then shifting it, puts every point exactly where the turn by the angle between the two directions takes it (counter-clockwise from the first to the second), to rounding: distances, enclosed area and sense are kept through any chain of motions, turning there and back returns, the number and order of points stay, the first direction goes into the second, and the matrix of the turn is that of its cosine and sine. "
               "The source is left as it was, also when memory runs out, and shared figures can be turned by several tasks at once.",
     rule="a run is non-trivial when a turned point, vector, matrix or figure was compared with the model.",
     over=["inputs", "histories", "fault_sequences", "schedules"], qtext="every figure, centre, shift and pair of directions, every chain of motions, every allocation that fails, every interleaving of tasks over shared figures", why="No test turns anything.",
     bounds="Figures of up to 9 (rarely 60) points with coordinates up to 640, centres and shifts as far, directions from Pythagorean triples of all eight octants and at any of 4096 angles, chains of up to 9 (rarely 41) motions in up to 4 tasks.",
     required_probes=["polygon", "polyline", "point-set", "there-and-back", "chain", "point", "vector", "matrix", "out-of-memory"],
     files=["geometrix/algorithm/rotation.hpp", "geometrix/algebra/exterior_product.hpp"], mech=[("cosine and sine from dot and exterior products", "rotation.hpp make_rotation_matrix"), ("shift to the centre, turn, shift back", "rotation.hpp rotate_point, rotate_points, rotate_translate_points")])

import not_applicable  # noqa: E402,F401
