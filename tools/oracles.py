"""What each check compares the code with, and what it leaves undecided.  Text for DESIGN.md only."""
O = dict(
C01=("Linear scan of the point multiset on exact integers; visits counted per stored occurrence. Nested searches are started from inside visitors, visitors throw, concurrent searchers share one tree.",
     "Partition strategies are those the library ships plus ones that pick an arbitrary valid pivot."),
C02=("Exact integer winding of the query point (on an eighth lattice) against the border edges, and the least distance over all edges; the same query is repeated on trees built with other splitting choices and edge orders.",
     "Points within the tolerance of the border but not on it are not drawn (lattice inputs)."),
C03=("Ray against every border edge; the first entering (or leaving) hit, its distance and edge. Queries whose answer is not separated by a margin are skipped.",
     "Rays that graze a corner are skipped."),
C04=("Exact point-in-region test of the shape the edges were taken from; the tree is built by every mixture of construction and insertion.", ""),
C05=("Fragments are collected and glued back onto the stored edges (exact cover), and every pair of visited fragments is tested for 'the earlier hides the later from the viewpoint'.",
     "Edges collinear with the viewpoint may be skipped."),
C06=("A std::map from cell index to the value stored is run beside the grid through the whole history (create, find, erase, clear, copy, move, failing creation); addresses of live cells are remembered.", ""),
C07=("All cells the segment's interior crosses by exact clipping; visited sequence must be a superset-free, gap-free ordering of them; the digital-line variant is compared with connectivity and the end cells.",
     "Cells touched only at a corner or along a side may be visited or not."),
C08=("Cell/polygon area test in exact arithmetic for the convex fill; breadth-first flood over a reference bitmap for the colour flood, kept over the life of the fill object.",
     "Cells the polygon only touches may be visited or not."),
C09=("Every triangle tested for every query point; triangles kept, their order and orientation recomputed from the index triples. Dense and sparse caches are both used, with shared lookups.", ""),
C10=("Adjacency recomputed from vertex triples; the search's offers and visits are replayed against a reference frontier.", ""),
C11=("Containment of each returned point (numbers 0 and 1 included); 240 evenly spread first numbers are counted per triangle, 576 evenly spread pairs of second and third numbers per quarter of a triangle.", ""),
C12=("Visibility by exact walking: the line of sight, cut at every mesh edge it meets, must lie piece by piece in some triangle; a vertex strictly inside the view must be reported, one whose segment leaves the mesh must not.",
     "Lines of sight that run along the border or through a vertex may be reported or not."),
C13=("Union-find over end points gives the chains and rings; copies, moves and assignments are compared with the model's copies after further growth.",
     "Chains sharing a vertex (other than closing a ring) are outside the property."),
C14=("All pairwise meetings by exact rationals, grouped by point, in order.",
     "Overlapping collinear segments are excluded (the statement does)."),
C15=("The simulator owns every clock: true durations are known. The registry is compared with the list of samples; the written file is parsed. The disk gives short writes, errors and runs full; allocations fail inside destructors.",
     "The file is compared only when the disk worked during the writing."),
C16=("Ledger of constructions, destructions and blocks per address; owners are dropped by concurrent tasks.", ""),
C17=("The number of units is tracked as an integer, between different scales by an exact rational reference with the rounding rule of the operation; streams are simulated buffers that split, cut, fill up and throw.", "'0x' may be read as 0 or refused (strtod and num_get differ)."),
C18=("Engines that yield their minimum, maximum and drawn values; sequences are replayed by seed and compared between copies.",
     "Uniformity is not tested, only range and repeatability."),
C19=("A map of argument to value for completed evaluations, counting evaluations.", ""),
C20=("All pairs of edges by exact rational intersection: kind, point, ends of the overlap, multiset of visits.", ""),
C21=("Pairwise edge test for simplicity; containment by splitting each edge at every crossing and classifying the pieces exactly.", ""),
C22=("Segment: exact interval union along the segment. Convex polygons: clipping in exact rationals.",
     "Convex polygons with a vertex on the other's border are only checked for termination and for points outside of either."),
C23=("Arc-length positions of every vertex before and after; pieces are glued and compared. Lengths are sums of lattice lengths, compared with a relative tolerance; repeated points may differ by the comparison tolerance.", ""),
C24=("Reference removal on exact integers; the distance bound is recomputed from the kept edges.",
     "The simplification's distance is that to the line through the kept edge (as the library documents); folded polylines are checked for subsequence and ends, not shape."),
C25=("The separation of the two figures is a convex function of time; its least value and first zero are searched numerically, and the reported time is tested against them: touching then, apart before. The world of balls is then moved from contact to contact and checked for overlaps.",
     "Grazing contacts within 1e-6 may go either way; the contact point of figures already overlapping with their ends is not specified; balls at rest relative to each other are not timed."),
C26=("A bitmap of covered lattice intervals on the line.", "Union with a segment of no length is outside the property."),
C27=("Sorted vectors under exact comparison; std::set/std::map with the library's comparison through histories of insertions and erasures with failing allocations.", "Null vectors are excluded (they have no direction)."),
C28=("Brute force over all pairs of features in floating point on lattice inputs, relative tolerance.", "The distance of a polygon is that of its border."),
C29=("Exact rational parameters of the common part.",
     "Segments of no length against rays and lines, and boxes or planes that are merely grazed by a rounding, go either way; the overload of segment_triangle that returns points needs counter-clockwise triangles."),
C30=("Closed forms, with a margin around touching; reported points are tested for lying on both figures.", "Touching goes either way; convex polygons are strictly convex."),
C31=("Minimum and maximum tracked coordinate by coordinate through the history; cones by exact cross products.",
     "A segment that meets a cone only at its apex goes either way; cones are smaller than a half turn. The overload of is_segment_in_range_2d that returns points is not claimed."),
C32=("Exact integer orientation, rational segment meetings and winding; tasks run the predicates with a comparison policy of the caller's that yields to other tasks or throws.",
     "Segments of no length in space are excluded; oriented_intersection is not judged for figures that only touch."),
C33=("Exact integer sums and permutation comparison.", "Polygons of one point are excluded."),
C34=("Nearest edge by exact comparison, then the side of it or of the wedge; curvature as the circle through three points; the splits and offsets are recomputed.",
     "Points as near to two parts that disagree, and folded polylines, are skipped. By the library's convention a straight vertex counts as bending left for inflections."),
C35=("A plain model of points, vectors and matrices in long double beside the library's registers: every step evaluates the same expression in both. Values are compared exactly where every intermediate number is representable (integers), within a few units in the last place otherwise; LUP factors are multiplied back and the solution of a system is put into it.",
     "Expressions the grammar accepts but cannot evaluate are not drawn (they do not compile); nearly singular matrices are judged by the residual only."),
C36=("The place is tracked in long double through the whole chain of conversions; after each, the coordinates of the new point are turned into a place by the textbook formula.",
     "The library does not reject arithmetic between points of different frames (it uses the raw coordinates), so nothing is claimed of it. Frames in four dimensions do not compile."),
C37=("Comparisons against exact integers (sixty-fourths) for value; the laws alone for arbitrary finite numbers. Each query is evaluated twice on the same numbers, plain and dimensioned, and the results compared. Strongly typed numbers against the doubles they wrap.",
     "That mismatched dimensions are refused is a fact about compilation and is not claimed. Unsigned numbers are excluded (their differences wrap). A handful of queries do not compile with dimensioned coordinates (see Not covered)."),
C38=("Every task keeps plain integer copies of all its figures; after each operation all of them, and the shared ones, are compared point by point. After an interrupted assignment each part must be the old or the new one, and the model follows what is found.",
     "What a figure moved from holds is not specified: it is cleared before it is used again."),
C39=("A model turns exact long double copies of the points by the cosine and sine of the angle of the two exact directions; what the library returns is compared point by point, and distances between all pairs and the enclosed area with those before, after each motion and after the whole chain.",
     "Directions are unit vectors as near as doubles come, as the library asks for; tolerance 1e-13 of the reach of figure and centre."),
)
