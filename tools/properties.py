HOOK_COMMITS = ['df66bbb7c49b944be5395063577b8576ec2a3684', 'd365a25e99e2364baf3a022af5a1c7364aa88bf3']
FLT = "Assumes finite inputs whose exact intermediate polynomials neither overflow nor underflow the double range. Trusts the oracle's own big-integer arithmetic (self-tested against 128-bit integers at start) and covers only the executed cases."

prop("P01", "Plane and space orientation of coordinates is exact",
 "For all finite double coordinates whose products neither overflow nor underflow, the 2D orientation test (of coordinate pairs and of a chosen axis projection) and the 3D orientation test return a number whose sign is exactly the sign of the true determinant, zero if and only if the points are collinear respectively coplanar.",
 ["inputs"], "all finite double coordinates away from overflow/underflow, in every argument order",
 "The tests call the predicates only through a few meshes with small coordinates; the adaptive stages run only on nearly degenerate inputs with full mantissas, which no test constructs.",
 [PR + "predicates.rs"],
 [("floating-point filter, then adaptive expansion stages", PR + "predicates.rs orient2d/orient2d_adapt, orient3d/orient3d_adapt")],
 ["return value of orient2d / orient3d / orient2d_by_axis on coordinates"],
 "runtime oracle: exact big-integer determinant compared online with every predicate call on hostile, nearly degenerate inputs",
 "Every call's sign is compared with an independently computed exact determinant. " + FLT)

prop("P02", "Circle, sphere and lifted orientation tests of coordinates are exact",
 "For all finite double coordinates whose products neither overflow nor underflow, the in-circle, in-sphere and lifted 4D orientation tests return a number whose sign is exactly the sign of the true determinant, zero if and only if the points are cocircular, cospherical respectively lifted-coplanar.",
 ["inputs"], "all finite double coordinates (and heights) away from overflow/underflow, in every argument order",
 "The tests reach these predicates only through one or two small triangulations; the exact stages and exact ties are never compared with the truth.",
 [PR + "predicates.rs"],
 [("floating-point filter, adaptive stages, full expansion evaluation", PR + "predicates.rs incircle*, insphere*, orient4d*")],
 ["return value of incircle / insphere / orient4d"],
 "runtime oracle: exact big-integer determinant compared online with every predicate call on hostile, nearly degenerate inputs",
 "Every call's sign is compared with an independently computed exact determinant. " + FLT)

prop("P03", "Expansion arithmetic is exact and keeps its canonical form",
 "For all finite doubles and all well-formed expansions (non-overlapping, components ordered by increasing magnitude) away from overflow/underflow, every expansion operation - sums, differences, scalings, products, negation and the error-free two-term transformations - yields components whose exact sum is exactly the mathematical result. The zero-eliminating operations return a well-formed expansion with at least one component and no zero component unless the value is zero, so that the last component carries the sign of the value.",
 ["inputs", "programs"], "all operand expansions and all straight-line programs over the operations",
 "The unit tests multiply two fixed two-component expansions; carries, cancellation to zero and single-component operands never occur in them.",
 [PR + "predicates.rs", PR + "expansion_number.rs"],
 [("error-free transformations", PR + "predicates.rs two_sum, two_product, split"),
  ("expansion sums, scalings and products", PR + "predicates.rs grow_expansion_zeroelim, fast_expansion_sum_zeroelim, scale_expansion_zeroelim, mul_expansion_zeroelim"),
  ("operators", PR + "expansion_number.rs")],
 ["returned component arrays and lengths; ExpansionNum operators"],
 "runtime oracle: exact dyadic big-integer sum of the components compared online with the exact result, plus form monitors, over random operator programs",
 "Compares value and form of every result. " + FLT)

prop("P04", "Interval arithmetic encloses the exact result",
 "For all finite doubles away from overflow, an interval built from exact numbers by any sequence of additions, subtractions, multiplications and negations contains the exact result of the same sequence. Whenever it declares its value positive, negative or non-zero, the exact result really has that sign.",
 ["inputs", "programs"], "all finite operands and all straight-line programs over the interval operations",
 "The one unit test subtracts a number from itself; mixed-sign multiplications and rounding at the bounds are not exercised.",
 [PR + "interval_number.rs"],
 [("bounds rounded outward, nine sign cases of multiplication", PR + "interval_number.rs mul/add/sub/next_up")],
 ["positive() / negative() / not_zero() of computed intervals"],
 "runtime oracle: exact dyadic evaluation of random operator programs in parallel, bounds probed through the public sign queries",
 "Every declared sign and probed enclosure is compared with the exact value. " + FLT)

prop("P05", "An implicit point's cached representations all denote that point",
 "For a line-plane or three-plane intersection point with finite defining coordinates, every representation it hands out (filtered floating-point, interval, exact) has a positive denominator and denotes the true intersection point: the exact one exactly, the interval one by enclosure, and the rounded coordinates to within a few units in the last place. When the lines and planes have no single intersection point no representation is handed out, and the order and number of requests (also on clones) never changes the answers.",
 ["inputs", "histories"], "all defining points away from overflow/underflow; all orders of representation requests",
 "The unit test looks at one point; sign normalisation, caching order and degenerate definitions are not visited.",
 [PR + "generic_point.rs", PR + "interval_number.rs", PR + "expansion_number.rs"],
 [("three cached levels with sign normalisation", PR + "generic_point.rs static_filter/dynamic_filter/exact of ImplicitPointLPI and ImplicitPointTPI"),
  ("rounding with exponent normalisation", PR + "generic_point.rs to_explicit")],
 ["static_filter(), dynamic_filter(), exact(), to_explicit()"],
 "runtime oracle: exact rational intersection point compared online with each representation, asked in random order",
 "Every representation handed out is compared with the exact intersection. " + FLT)

prop("P06", "2D orientation of represented points is exact",
 "For any three points, each given explicitly, as a line-plane intersection or as a three-plane intersection, and each axis projection, the orientation returned is exactly the sign of the true 2D orientation of the projected points, whichever of the 27 kind combinations and argument orders is used. If one of the points does not exist the answer is undefined.",
 ["inputs"], "all kinds and defining coordinates away from overflow/underflow, all argument orders",
 "The tests reach a few combinations through two models in easy position; exact ties and most combinations are never compared with the truth.",
 [PR + "orient2d.rs", PR + "generic_point.rs"],
 [("dispatch over kind combinations with sign bookkeeping", PR + "orient2d.rs orient2d_xy/zx/yz"),
  ("static filter, interval filter, expansion evaluation", PR + "orient2d.rs orient2d_*_impl")],
 ["return value of orient2d_xy / orient2d_yz / orient2d_zx / orient2d_by_axis"],
 "runtime oracle: exact homogeneous-coordinate determinant compared online with every call",
 "Every call is compared with the exact sign. " + FLT)

prop("P07", "3D orientation of represented points is exact",
 "For any four points, each given explicitly, as a line-plane intersection or as a three-plane intersection, the orientation returned is exactly the sign of the true 3D orientation, whichever of the 81 kind combinations and argument orders is used. If one of the points does not exist the answer is undefined.",
 ["inputs"], "all kinds and defining coordinates away from overflow/underflow, all argument orders",
 "The tests reach a few combinations through two models in easy position; exact ties and most combinations are never compared with the truth.",
 [PR + "orient3d.rs", PR + "generic_point.rs"],
 [("dispatch over kind combinations with sign bookkeeping", PR + "orient3d.rs orient3d"),
  ("static filter, interval filter, expansion evaluation", PR + "orient3d.rs orient3d_*_impl")],
 ["return value of orient3d on represented points"],
 "runtime oracle: exact homogeneous-coordinate determinant compared online with every call",
 "Every call is compared with the exact sign. " + FLT)

prop("P08", "Coordinate comparison of represented points is an exact total order",
 "For any two points, each explicit, line-plane or three-plane, the comparison along x, y or z returns the exact sign of the difference of their true coordinates, for every combination of kinds and both argument orders. If one of the points does not exist the answer is undefined.",
 ["inputs"], "all kinds and defining coordinates away from overflow/underflow, both argument orders, three axes",
 "No test compares represented points; equal coordinates of differently represented points and mixed kinds are never visited.",
 [PR + "less_than.rs", PR + "generic_point.rs"],
 [("dispatch over kind combinations with sign bookkeeping", PR + "less_than.rs less_than_on_*"),
  ("static filter, interval filter, expansion evaluation", PR + "less_than.rs less_than_ie / less_than_ii")],
 ["return value of less_than_on_x / _y / _z"],
 "runtime oracle: exact rational comparison done online for every call",
 "Every call is compared with the exact order. " + FLT)

prop("P09", "Segment and triangle incidence tests are exact",
 "For all finite double coordinates away from overflow/underflow, the tests that ask whether three points are misaligned, whether two points lie on the same side of a line, whether coplanar segments cross in their interiors, whether a segment's interior passes through a non-degenerate triangle (its corner, side or interior) or properly crosses the triangle's interior, and whether a point lies in a segment or a coplanar triangle (with or without its boundary) answer exactly what real-number geometry says. The axis reported as the longest of a triangle's normal is one along which the normal is not zero and longest up to rounding. Collinear, touching and endpoint-sharing configurations are included, and swapping segment ends or permuting a triangle's corners never changes the answer.",
 ["inputs"], "all coordinates satisfying each test's coplanarity/collinearity precondition",
 "No test calls them directly; the algorithms reach them only in generic position.",
 [PR + "mod.rs"],
 [("sign combinations of exact orientations in axis projections", PR + "mod.rs point_in_inner_triangle, inner_segment_cross_inner_triangle, inner_segments_cross, point_in_segment, same_half_plane, mis_alignment, max_comp_in_tri_normal")],
 ["return values"],
 "runtime oracle: exact big-integer geometry evaluated online next to every call", "Every call's answer is compared with an independently computed exact one. " + FLT)

TRI = "src/triangle/triangle.rs"
TET = "src/triangle/tetrahedron.rs"
prop("P10", "Planar triangulation is a constrained Delaunay triangulation of its input",
 "For any finite set of distinct planar points without segments, triangulation returns positively oriented triangles that exactly cover the convex hull without overlap, use every point and are Delaunay (none for fewer than three or collinear points). With segments that bound a region on their left (outer loops counterclockwise, holes clockwise), meet only at shared endpoints or pass through input points, it returns exactly that region, with every segment an edge or a chain of edges, and locally Delaunay across every other edge.",
 ["inputs"], "all point sets and region-bounding segment sets, in every order, including collinear, cocircular and grid-like sets",
 "The one test prints a small example; cocircular ties, collinear runs, segments through vertices and deep cavities are not visited.",
 [TRI], [("divide and conquer Delaunay", TRI + " div_and_conq_recurse / merge_hulls"), ("segment recovery by flips", TRI + " insert_segment / constrained_edge / delaunay_fixup"), ("region by parity of the constraints crossed", TRI + " mark_ghost / triangulate")],
 ["returned triangle index list of triangulate"],
 "runtime oracle: exact planar-geometry checker (orientation, Euler count, hull, in-circle, region membership) over every triangulation of hostile point/segment workloads",
 "Every triangle returned is checked exactly; hull coverage follows from exact areas. " + FLT)

prop("P11", "Polygon triangulation fills exactly the polygon's interior",
 "Given closed loops describing a polygon with holes, listed in any order with the region on the left as seen along the given plane axes, and lying in any plane of space, the polygon triangulations return triangles over the given vertices that cover exactly the region inside and nothing else, with no overlap, oriented like the plane. Every loop edge is an edge of the result, and triangulating a soup of polygons reports for each triangle the polygon it came from.",
 ["inputs"], "all simple polygons with holes and islands, vertex orders, planes and coordinate magnitudes",
 "No test calls them with holes or non-convex loops and checks the area.",
 [TRI], [("carving outside-in by constraint parity", TRI + " mark_ghost / triangulate"), ("projection to a plane basis", TRI + " triangulate_polygon / triangulate_polygon_soup")],
 ["returned triangles of triangulate_polygon and triangulate_polygon_soup"],
 "runtime oracle: exact area, coverage and edge checker over generated polygons with holes", "Every triangle returned is checked exactly. " + FLT)

prop("P12", "The tetrahedral mesh is a consistent complex over the input points",
 "For any finite set of points in space not contained in a plane, tetrahedralization returns a mesh whose tetrahedra all have positive volume, are glued face to face symmetrically with matching vertices, and together with the ghost tetrahedra around the hull form a closed complex that exactly fills the convex hull. Each used vertex's stored tetrahedron contains it and asking for the tetrahedra around a vertex yields exactly those containing it, each once, leaving the mesh unmarked.",
 ["inputs", "schedules"], "all point sets (grids, cospheres, coplanar subsets, clusters, repeated points) and all random insertion orders",
 "The one test builds one mesh and checks nothing about it; the insertion order is drawn at random on every run.",
 [TET], [("ghost tetrahedra, face adjacency with orientation codes", TET + " bond / insert_vertex_bw"), ("incident-tet walk", TET + " incident")],
 ["TetMesh.tets, p2t, incident()"],
 "online structural monitor: exact volumes, reciprocal adjacency and closedness of every mesh produced, repeated over the library's own random orders", "Every tetrahedron, face and vertex star of every mesh is checked. " + FLT)

prop("P13", "The tetrahedral mesh is Delaunay and complete",
 "For any finite set of points in space that is not contained in a plane, no input point lies strictly inside the circumsphere of any tetrahedron returned, and every distinct input point is a vertex of the mesh (of coinciding points one is used). It terminates without failing on cospherical, collinear, coplanar, repeated and clustered points and on cavities of any size.",
 ["inputs", "schedules"], "all point sets and all random insertion orders",
 "The one test never evaluates a circumsphere; cospherical ties and repeated points never occur in it.",
 [TET], [("Bowyer-Watson cavity by exact in-sphere with symbolic perturbation", TET + " insphere_s / insert_vertex_bw"), ("randomised Hilbert order", TET + " brio_multiscale_sort / hilbert_sort")],
 ["TetMesh.tets"],
 "runtime oracle: exact in-sphere test of every mesh against its points", "Against all points for small sets, across every face for large ones. " + FLT)

SM = "src/mesh/"
prop("P14", "A surface mesh built from polygons represents exactly those polygons",
 "Building a surface mesh from any list of polygons (each a cycle of at least three distinct vertices using every vertex index at least once; edges may be shared by any number of polygons in either direction) yields one face per polygon, whose vertex cycle read from the mesh is that polygon's, one edge per distinct vertex pair, and one halfedge per polygon side. The element counts, the cyclic next/previous links, the edge cycles and the per-vertex incoming and outgoing cycles are mutually consistent.",
 ["inputs"], "all polygon lists, manifold or not",
 "The one test builds a single non-manifold mesh and checks a handful of values.",
 [SM + "surface_mesh.rs", SM + "mesh.rs"], [("halfedge construction with sibling and vertex cycles", SM + "surface_mesh.rs new")],
 ["mesh accessors, element iterators"],
 "online monitor: abstract polygon model compared with every accessor of the built mesh", "Compares the whole observable state with an independent model. Covers only executed cases.")

prop("P15", "Mesh edits keep the mesh faithful to the edited polygons",
 "For any history of edge splits, face splits (between two non-adjacent corners) and face additions (along a simple closed chain of existing halfedges) on a surface mesh, after every step the mesh represents exactly the polygon set obtained by applying the same edit to the polygons: a split edge inserts the new vertex into every polygon using that edge, a split face cuts its polygon along the chosen diagonal, a new face adds its polygon. All links, cycles, counts and identifiers stay consistent and identifiers of untouched elements keep their meaning.",
 ["histories"], "all finite edit histories over manifold and non-manifold meshes",
 "No test edits a mesh.",
 [SM + "surface_mesh.rs"], [("in-place link surgery", SM + "surface_mesh.rs split_edge / split_face / add_face_by_halfedges")],
 ["mesh accessors after every step"],
 "online monitor: model-based comparison of the full mesh state after every step of random edit histories", "Compares the whole observable state with an independent model after every step. Covers only executed histories.")

prop("P16", "Mesh traversals visit each incident element exactly once",
 "On any surface mesh, iterating all vertices, halfedges, edges or faces visits exactly the valid ones once each, and iterating around a vertex, an edge or a face visits exactly the incident halfedges, edges, vertices or faces that incidence says, once each, and terminates. Stepping from an element to its halfedge, ends, twin, sibling, next, previous, edge and face always lands on the element that incidence defines.",
 ["inputs", "histories"], "all meshes reachable by construction and edits",
 "The one test iterates around one vertex of one mesh.",
 [SM + "element/vertex.rs", SM + "element/halfedge.rs", SM + "element/edge.rs", SM + "element/face.rs", SM + "element/macros.rs"],
 [("cyclic iterators over links", SM + "element/*.rs")],
 ["sequences produced by the iterators"],
 "online monitor: exactly-once and completeness check of each iterator's sequence against incidence computed from the polygons", "Every iterator of every element is drained under a step bound. Covers only executed cases.")

GC = "src/graphcut/"
prop("P17", "FIFO push-relabel computes a maximum flow and a minimum cut",
 "For every finite network with non-negative capacities, the FIFO push-relabel solver terminates and the nodes it reports on the sink side contain the sink, not the source, and form a minimum cut: the capacity of the arcs entering them equals the value of a maximum flow. This holds for capacities whose sums are exactly representable.",
 ["inputs"], "all networks, capacities, arc orders, including parallel, antiparallel, zero and disconnected arcs",
 "The test solves one small network and looks only at the value.",
 [GC + "push_relabel_fifo.rs", GC + "mod.rs"], [("push, relabel, gap and global relabelling", GC + "push_relabel_fifo.rs")],
 ["is_sink() of every node after find_max_flow()"],
 "runtime oracle: independent augmenting-path maximum flow and cut capacity on every solved network", "The reported cut's capacity is compared with an independent solver's maximum flow. Covers only executed networks.")

prop("P18", "The graph-cut solver computes a maximum flow and a minimum cut",
 "For every network given by source and sink capacities per node and two-way edge capacities between different nodes, all non-negative, the graph-cut solver returns exactly the maximum flow value and terminates. The nodes it reports as belonging to the sink side form a cut whose capacity equals that value.",
 ["inputs"], "all networks with exactly representable capacities",
 "It is exercised by the tests only inside the mesh pipeline, never compared with another solver.",
 [GC + "mod.rs"], [("augmenting trees with orphan adoption", GC + "mod.rs max_flow / augment / process_orphan")],
 ["max_flow() value, is_sink()"],
 "runtime oracle: independent augmenting-path maximum flow and cut capacity on every solved network", "Compares value and cut with an independent solver. Covers only executed networks.")

prop("P19", "Disjoint sets are the partition generated by the merges",
 "After any sequence of merges over n elements, the reported groups are exactly the equivalence classes generated by the merged pairs: every element appears in exactly one group and two elements share a group if and only if a chain of merges connects them. The number of groups reported agrees, and asking for the groups changes nothing.",
 ["histories"], "all merge sequences, interleaved with queries",
 "No test uses it directly.",
 ["src/disjoint_set/mod.rs"], [("union by rank with path compression", "src/disjoint_set/mod.rs find/merge/output")],
 ["output()"],
 "online monitor: comparison of the reported partition with a naive model along random histories", "The whole partition is compared after every query. Covers only executed histories.")

PO = "src/polygonlization/"
prop("P20", "Duplicate removal merges exactly the coinciding points",
 "Merging duplicate points with a positive tolerance returns a list of pairwise distinct points together with an index for every input point, such that each input point, rounded to a grid no coarser than the tolerance, equals the point its index names, and every returned point is named by some input point. With a zero tolerance the points are kept bit for bit, in order, each named by its own index.",
 ["inputs"], "all finite point lists and tolerances",
 "The tests only run it on models without duplicates of interest.",
 [PO + "mod.rs"], [("round and compare", PO + "mod.rs remove_duplicates")],
 ["returned points and indices"],
 "runtime oracle: recomputation of the partition for every call", "Covers only executed cases.")

POLYNOTE = "Covers only executed inputs with moderate coordinates whose points span space. "
prop("P21", "Repaired surfaces are watertight",
 "Whatever triangles or polygons are given - open, self-intersecting, inconsistently oriented, overlapping, degenerate, in several shells - as long as the points span space, the call returns, and the mesh returned is a closed surface: every undirected edge of the returned polygons or triangles is used equally often in both directions, no triangle has a repeated or out-of-range corner and every returned vertex is used. Up to the coordinate rounding the surface bounds a solid, every point of space being wound around zero times or once, never negatively or twice.",
 ["inputs", "schedules"], "all triangle and polygon soups spanning space, all shell labellings, all internal random orders",
 "The tests run four models, write files and check nothing about them.",
 [PO + "mod.rs", PO + "bsp_complex.rs", PO + "conforming_mesh.rs", GC + "push_relabel_fifo.rs", TRI, TET],
 [("boundary of a set of cells of a convex subdivision chosen by a minimum cut", PO + "bsp_complex.rs complex_partition"),
  ("faces merged to outlines and triangulated", PO + "mod.rs make_mesh_for_triangles, extract outlines, TRI")],
 ["returned points and triangles/polygons of make_polyhedral_mesh and make_mesh_for_triangles"],
 "runtime oracle: combinatorial closedness monitor and exact winding-number probes on the output of every run over generated defective inputs, internal assertions enabled",
 "Closedness is decided exactly, winding at probe points away from the rounded surface. " + POLYNOTE)

prop("P22", "A clean solid is reproduced, and clean shells are united",
 "When the input shells are closed, outward oriented and free of self-intersections, the returned surface bounds the union of the solids they enclose, with outward orientation: every point inside some input solid is inside the result, every point outside all of them is outside, and a single solid keeps its volume. This holds for disjoint, nested, touching and crossing shells, up to the rounding of output coordinates.",
 ["inputs", "schedules"], "all families of clean closed shells, disjoint, nested, touching or crossing",
 "The tests write result files for people to look at.",
 [PO + "mod.rs", PO + "bsp_complex.rs", PO + "conforming_mesh.rs"],
 [("cell classification by minimum cut per shell", PO + "bsp_complex.rs complex_partition")],
 ["returned points and faces"],
 "runtime oracle: exact winding-number probes and volume comparison between input and output of every run", "Inside/outside is probed away from the surface by more than the rounding. " + POLYNOTE)

prop("P23", "Repair invents no geometry away from the input",
 "For any triangle or polygon soup spanning space, every returned vertex lies in the convex hull of the input up to rounding, and the returned surface is exactly the border of the cells of the space subdivision that were chosen as inside, with its corners at their vertices. Where the input is a family of clean closed shells, every point of the returned surface lies on the input surface and the whole border of their union is covered by it.",
 ["inputs", "schedules"], "all triangle and polygon soups spanning space",
 "The tests write result files for people to look at.",
 [PO + "bsp_complex.rs", PO + "conforming_mesh.rs", PO + "mod.rs"], [("convex subdivision by input planes", PO + "bsp_complex.rs"), ("border faces collected by group, merged and triangulated", PO + "mod.rs")],
 ["returned points and faces"],
 "runtime oracle: distance and winding comparison of every output with its input and with the chosen cells observed through the hook", "Sampled points of the surfaces, compared up to rounding. " + POLYNOTE, hook="the chosen-cells family reads the final subdivision; the others need no hook")

prop("P24", "Repair does not depend on how the input is told or on internal randomness",
 "Repairing the same clean closed shells again, or told differently, encloses the same solid. Told differently means: vertices, triangles or shells renumbered, corners rotated, vertices duplicated or left unused, triangles repeated or degenerate triangles added, a side divided consistently, the plane axes of a polygon chosen differently, or triangles handed over as polygons.",
 ["inputs", "schedules", "histories"], "all families of clean closed shells, all retellings, all internal random draws",
 "The tests run each model once in one order.",
 [PO + "mod.rs", PO + "bsp_complex.rs", PO + "conforming_mesh.rs", TET], [("exact predicates make the result independent of evaluation order", PO)],
 ["returned points and faces of repeated runs"],
 "runtime oracle: metamorphic comparison of the solids of repeated and retold runs by exact winding-number probes", "Solids are compared at probe points and by volume, up to rounding. " + POLYNOTE)

prop("P25", "The space subdivision is a conforming complex of convex cells",
 "While a model is repaired, the intermediate subdivision of space is at every stage a conforming complex: each face is a planar convex polygon bounding one or two cells, each cell is a closed convex polyhedron lying on one side of each of its faces, vertices lie exactly on the planes and lines that define them, and the cells fill the convex hull without overlap.",
 ["inputs", "schedules"], "all triangle soups spanning space, all internal random orders, every intermediate stage",
 "Nothing in the tests looks at the intermediate state.",
 [PO + "bsp_complex.rs", PO + "conforming_mesh.rs"], [("cell splitting by constraint planes with exact implicit points", PO + "bsp_complex.rs split_cell / split_face / split_edge")],
 ["hooked snapshots of the subdivision after construction and after each split"],
 "hooked-state monitor: every snapshot of the subdivision checked with exact rational arithmetic", "Every snapshot taken is checked exactly. " + POLYNOTE, hook="read-only snapshot of the subdivision")

prop("P26", "Every input triangle ends up on faces of the subdivision",
 "After subdivision, each input triangle is exactly covered by faces of the complex lying on it: no cell's interior is crossed by any input triangle. A face counts as belonging to a shell, when inside and outside are decided, if and only if its interior lies on a triangle of that shell.",
 ["inputs", "schedules"], "all triangle soups spanning space, all internal random orders",
 "Nothing in the tests looks at the intermediate state.",
 [PO + "bsp_complex.rs", PO + "conforming_mesh.rs"], [("mapping triangles to tetrahedra they cross or lie on, then splitting", PO + "conforming_mesh.rs insert_constraints")],
 ["hooked snapshots of the final subdivision"],
 "hooked-state monitor: coverage and marks of every final subdivision checked with exact rational arithmetic", "Faces thinner than the rounding of their corners are not judged. " + POLYNOTE, hook="read-only snapshot of the subdivision")

prop("P27", "Inside and outside are chosen at least cost",
 "For every shell, the cells decided to be inside minimise the sum of two costs: the area of each face not on the shell that separates an inside cell from an outside one (the space around the convex hull being outside), and half the area of each face on the shell for each neighbouring cell decided against the side of the face it lies on (behind: inside, in front: outside). No other decision costs less, up to the rounding of areas, unless triangles of the shell face both ways on one face.",
 ["inputs", "schedules"], "all triangle soups spanning space, all shells, all internal random orders",
 "The tests never look at the labels or compute a cost.",
 [PO + "bsp_complex.rs", GC + "push_relabel_fifo.rs"], [("network built from face areas, solved by push-relabel", PO + "bsp_complex.rs complex_partition")],
 ["hooked labels of the cells per shell and the network's areas"],
 "hooked-state monitor: cost of the chosen labels compared with an independent minimum cut over the observed subdivision; hook-free oracle: models whose two cells are known, returned volume compared with the enumerated cheapest choice", "Costs compared up to rounding of areas. " + POLYNOTE, hook="read-only snapshot of labels")

prop("P28", "Vector, sign and exponent helpers compute their textbook results",
 "For vectors of any length whose products and sums are exactly representable, the cross product (three components), dot product and difference return exactly the mathematical result, and the norm is right up to rounding. For every finite number the sign helper names its sign, and for every normal number the exponent is that of the power of two just below its magnitude. Reversing an orientation exchanges positive and negative only.",
 ["inputs"], "all representable operands", "No test calls them.",
 ["src/math/mod.rs", PR + "mod.rs"], [("componentwise arithmetic", "src/math"), ("sign and exponent extraction", PR + "mod.rs double_to_sign / sign_reverse / sign_reversed / get_exponent")], ["return values"],
 "runtime oracle: independent integer arithmetic compared online with every call", "Covers only executed operands, small integers and powers of two.")

prop("P29", "Walking around the tetrahedral mesh lands where the steps say",
 "In every tetrahedral mesh over points that span space, the twelve directed faces of a tetrahedron are its twelve even corner arrangements, and every step - next, previous and opposite edge, their combinations, through a face, around an edge - lands on exactly the directed face that its definition names. Going through a face twice returns, and going around an edge visits every tetrahedron at that edge (ghosts included) once before it returns. Corner lookup, coordinates, orientation and the two kinds of marks report exactly what was stored.",
 ["inputs", "histories"], "all meshes, all directed faces and all sequences of steps and marks",
 "No test steps through a tetrahedral mesh; the algorithms use some of the steps in some versions only.",
 [TET], [("precomputed version tables", TET + " *_TBL, *_PIVOT"), ("adjacency with orientation codes", TET + " bond / fsym / fnext_self"), ("bit masks", TET + " infect / mark_test")],
 ["TriFace steps, org/dest/apex/oppo, fsym, fnext_self, index, point, orient3d, infect/mark_test"],
 "online monitor: every step of every directed face compared with the corner arrangement it is defined to reach, edges walked around and compared with incidence", "Every version of every tetrahedron of the meshes visited. Covers only executed meshes.")

prop("P30", "A repaired surface is left as it is by another repair",
 "For any triangle or polygon soup spanning space whose repair encloses something, repairing the returned surface once more (as one shell) succeeds, gives a closed surface again, and encloses the same solid up to the coordinate rounding.",
 ["inputs", "schedules"], "all inputs of the repair, clean or damaged, and all of the library's internal random orders",
 "No test feeds a result back; the results contain needle triangles, touching sheets and vertices of high degree that no test model has.",
 ["src/polygonlization/", "src/triangle/", "src/graphcut/"],
 [("subdivision, cheapest labelling and extraction of the border applied to their own output", "src/polygonlization/mod.rs make_mesh_for_triangles"), ("points merged on a grid", "src/polygonlization/mod.rs remove_duplicates")],
 ["points and triangles returned by the second call"],
 "runtime oracle: volume and winding numbers of the surfaces of two successive repairs compared, plus the watertightness monitor on the second", "Solids compared at probes and by volume, up to rounding. Covers only executed inputs.")
