IN=["inputs"]; IH=["inputs","histories"]
TODO=dict(claim=False, reason="check not built yet (under construction)")
P("C01","k-d tree queries agree with exhaustive search",
  "For every point set (duplicates and degenerate layouts included) a k-d tree reports its size and hands back exactly the points it was built from. k-nearest, nearest, in-sphere and in-box queries return exactly what an exhaustive scan of those points would (the n smallest distances for k-nearest; every point inside, each as often as it occurs, and none outside for the others), and every query returns instead of crashing.",
  IN,"every point cloud and every query point, count, sphere and box","The one k-d test builds a handful of points; pruning errors need particular layouts relative to the query.",
  ["src/kd_tree.rs","src/is_k_nearest_searchable.rs","src/is_sphere_searchable.rs","src/is_box_3d_searchable.rs"],
  [("recursive median split and pruned descent","src/kd_tree.rs")],note='generated clouds and queries, differential against exhaustive search|Random search over generated point sets (exact dyadic coordinates, duplicates, flat layouts); no exhaustive bound. Distances at equal values may be returned in any order.')
P("C02","Octree keeps every distinct input point, at every level of detail",
  "An octree built from any non-degenerate point cloud contains every distinct input point exactly once and no other point, as seen through its size and its conversion back to a point cloud. Collecting up to a maximum depth returns only input points or centres of the cells that contain them, never more than the full content, and collecting without effective depth limit returns the full content.",
  IN,"every 3D point cloud and every depth limit","Tests never build an octree; losing points needs points on cell boundaries or deep trees.",
  ["src/oc_tree.rs","src/is_oc_tree.rs","src/is_tree_3d.rs"],[("recursive octant partition","src/oc_tree.rs")],note='generated clouds, set equality and metamorphic depth relations|Random search; depth-limited collection is judged by cell size bounds, not by exact cell centres.')
P("C03","Bounding-box trees and collider containers never lose or invent a hit",
  "For every set of objects with bounding boxes, and every moderate maximum depth and bucket size, the 2D and 3D bounding-box trees report for box, axis-crossing, line and collision queries exactly those objects whose own boxes an exhaustive scan would report (candidate queries: at least those; those of the spatial cluster within its extent moreover none more than a cell away), and never crash.",
  IN,"every object set, tree parameters and query","No test builds these trees; straddling objects and degenerate boxes are what breaks them.",
  ["src/aa_bb_tree_2d.rs","src/aa_bb_tree_3d.rs","src/is_collider_container_3d.rs","src/has_colliders_3d.rs","src/cluster.rs"],[("recursive split with objects in both halves","src/aa_bb_tree_3d.rs")],note='generated object sets and queries, differential against exhaustive scan|Random search over up to 24 objects, depths 0..8, bucket sizes; exact dyadic box coordinates; lines within 1e-8 (relative) of grazing are not judged.')
P("C04","Bounding boxes are tight and their relations follow interval semantics",
  "For every 2D and 3D point set or shape that has a bounding box, the box is the smallest axis-aligned box holding it. Containment, collision, inside, has-inside, crossing, merge, distance, centre, size, scaling and moving of boxes agree with the per-axis interval definition for all boxes and points, and constructing an inverted or empty box is refused.",
  IN,"every point set, shape, and pair of boxes","Tests check a few fixed boxes; boundary and degenerate relations need generated ones.",
  ["src/bounding_box_2d.rs","src/bounding_box_3d.rs","src/has_bounding_box_2d.rs","src/has_bounding_box_3d.rs"],[("min/max scans and interval tests","src/bounding_box_3d.rs")],note='generated shapes and boxes against interval arithmetic oracle|Random search on exact dyadic coordinates, so relations are compared exactly, boundary contact included.')
P("C05","Separating-axis collision tests never miss a contact",
  "If two convex objects (triangles, axis-aligned boxes, oriented boxes) overlap by more than rounding error, the collision test reports a collision, in either argument order with the same answer. Objects separated along one of the tested axes (their face normals) are reported as not colliding, and for pairs of axis-aligned boxes the answer equals interval overlap.",
  IN,"every pair of objects","No test runs the collision test.",
  ["src/is_sat_object.rs","src/sat_collider.rs","src/collider_3d.rs","src/box_unaligned_3d.rs","src/box_3d.rs","src/tri_face_3d.rs"],[("projection onto candidate axes","src/is_sat_object.rs")],note='generated object pairs against exact overlap and separation oracles|Overlap is established by a common point with margin, separation by a tested axis with margin; pairs only separable by an edge cross product axis are not judged.')
P("C06","Ray and line intersections equal the exact geometric answer",
  "Intersecting a line with a bounding box, or a ray with a triangle, reports a hit exactly when one exists (away from grazing contact), at the point where it geometrically lies. The closest intersection with a collection of objects is the nearest over all of them, intersecting a mesh reports the hits of exactly the faces that are hit, and none is reported only when nothing is hit.",
  IN,"every ray or line against every box, triangle, mesh","Only fixed directions are exercised today.",
  ["src/functions.rs","src/is_mesh.rs","src/aa_bb_tree_3d.rs"],[("slab test and Moeller-Trumbore","src/functions.rs")],note='generated rays, lines, boxes and meshes against an exact geometric oracle|Contacts closer to grazing than the stated margin are not judged.')
P("C07","Mesh topology queries agree with the faces of the mesh",
  "For every valid triangle mesh, next, previous, head, tail, twin, face-of-edge, edges-of-face, edges-of-vertex and neighbour queries answer exactly what the face list implies. Boundary edges have no twin, the twin of a twin is the edge itself, isolated vertices answer with no edges, answers are appended to what the caller already holds, and out-of-range ids are refused with an error.",
  IN,"every triangle mesh, open or closed, with isolated vertices","The tests look at a pair of hand-written meshes.",
  ["src/half_edge.rs","src/searchable_mesh.rs","src/is_searchable_mesh.rs"],[("directed edge table and twin lookup","src/half_edge.rs")],note='generated meshes, every topology query against a face list model|Random meshes of up to a few hundred faces, all ids of each queried, three index containers.')
P("C08","Mesh editing keeps exactly the vertices and faces that were added",
  "For every sequence of adding vertices, faces and connections and changing vertices, a mesh returns exactly the vertices and faces a plain list model holds, with whatever vertex and index containers it is built on. Connections naming a missing vertex or the same vertex twice are refused and leave the mesh unchanged.",
  IH,"every editing history, over every combination of vertex and index container","Tests perform one short fixed sequence.",
  ["src/mesh_3d.rs","src/is_face_editable_mesh.rs","src/is_vertex_editable_mesh.rs","src/dynamic_precision_index_vec.rs","src/u32_index_vec.rs"],[("three indices per face in an index container","src/mesh_3d.rs")],note='stateful model-based editing histories over twelve container combinations|Random histories of up to 40 edits against a list model; coordinates representable in f32 so that every container stores them exactly.')
P("C09","Index containers behave like a plain list of indices",
  "For every history of operations the compact index containers hold the same numbers as a plain list of indices, whatever precision they choose internally. Storing a larger index later never alters an index stored earlier, and a position that was never filled never yields a value.",
  IH,"every operation history over values crossing every precision limit","Nothing tests the precision switches.",
  ["src/dynamic_precision_index_vec.rs","src/u32_index_vec.rs","src/is_index_container.rs"],[("widening from u8 to u16 to u32 to u64 storage","src/dynamic_precision_index_vec.rs")],note='stateful model-based histories against a plain list of indices|Random histories of up to 40 operations with values around every precision limit; contents compared after every operation.')
P("C10","Mesh repair and subdivision preserve the surface",
  "Unifying faces keeps every vertex and every face, possibly flipped, and makes neighbouring faces of an orientable mesh agree. Healing removes exactly the degenerate and the duplicate faces (same corners, same orientation) and merges exactly the vertices at equal positions; vertex clustering additionally merges exactly the vertices within one cluster cell and keeps all other faces with every corner inside its cell; linear subdivision replaces each face by four that cover it exactly with unchanged orientation, keeping the original vertices.",
  IN,"every mesh and merge distance","No test runs these algorithms on more than one mesh.",
  ["src/unify_faces.rs","src/heal_mesh.rs","src/cluster_vertices.rs","src/cluster.rs","src/subdivide.rs"],[("cluster lookup, flip propagation, midpoint insertion","src/heal_mesh.rs")],note='generated meshes against geometric and topological oracles (metamorphic flips, exact face sets)|Random meshes of up to a few hundred faces; agreement of faces judged for orientable meshes only.')
P("C11","Filters and their combinators obey boolean algebra",
  "Box, circle, sphere, outlier, direction field and the other per-element filters accept exactly the points their geometric definition accepts. And, or, xor, negate, all, any, outer-inner, allow and deny combinators accept exactly what the boolean formula of their parts says, for every nesting, and the combined answer never depends on evaluation order.",
  IN,"every filter tree and every point","The tests apply a few fixed filters to one file.",
  ["src/is_filter.rs","src/filter_and.rs","src/filter_or.rs","src/filter_xor.rs","src/filter_negate.rs","src/filter_all.rs","src/filter_any.rs","src/filter_outer_inner.rs","src/filter_allow.rs","src/filter_deny.rs","src/filter_box_2d.rs","src/filter_box_3d.rs","src/filter_circle.rs","src/filter_sphere.rs","src/filter_outlier_3d.rs","src/filter_direction_field_2d.rs","src/filter_direction_field_3d.rs"],[("is_allowed composition","src/filter_and.rs")],note='generated filter trees against a boolean formula evaluated exhaustively|Random trees up to four levels and arbitrary truth tables; exact dyadic coordinates so that boundary points are decided.')
P("C12","Views select exactly the filtered elements, in order",
  "Filtering a random-accessible collection through a view keeps exactly the elements that were in the view and pass the filter, for one filter or a conjunction or disjunction of filters. Applying or creating a collection from a view yields exactly the selected elements in their original order on every container, and refuses nothing valid; a filtered view names existing positions only; union of views is set union.",
  IH,"every collection, view and sequence of filters","Tests filter one file with one filter.",
  ["src/view.rs","src/is_view_buildable.rs","src/filter_random_accessible.rs","src/filter_all_random_accessible.rs","src/filter_any_random_accessible.rs","src/filter_outlier_3d.rs"],[("index set intersection and union","src/view.rs")],note='stateful histories of filters, views and unions against a set model|Random histories of up to 8 steps over collections of up to 40 points in five container types.')
P("C13","The 2D convex hull is the exact hull",
  "For every 2D point set the convex hull algorithm returns hull vertices only, drawn from the input, in one consistent turning direction without repetition, and every input point lies inside or on the resulting polygon.",
  IN,"every 2D point set, with collinear and duplicate points","The test uses one file.",
  ["src/convex_hull_2d.rs"],[("monotone chain","src/convex_hull_2d.rs")],note='generated point sets judged by exact orientation tests, order and container metamorphic relations|Random layouts (general, collinear, box border, columns, parabola, dense grid) of up to 60 points with exact arithmetic, plus floating point sets judged up to rounding.')
P("C14","Line simplification stays within its tolerance",
  "Douglas-Peucker simplification of any 2D polyline returns an in-order subsequence of the input that starts and ends with the input's first and last point, and every dropped point lies within the tolerance of the simplified line. Points farther than the tolerance are never dropped, also on closed and vertical lines, and apart from ties it keeps exactly the points that recursive farthest point splitting selects.",
  IN,"every 2D polyline and tolerance","Nothing tests it.",
  ["src/douglas_peucker_2d.rs"],[("recursive farthest point split","src/douglas_peucker_2d.rs")],note='generated polylines judged by a subsequence embedding oracle and a reference farthest point splitting|Polylines of up to 60 points in six layouts (closed, vertical, straight with overshooting ends, dense, walks); decisions closer than 1e-9 to a tie are judged by the tolerance oracle only.')
P("C15","Interpolation returns the requested samples of the mathematical curve",
  "Bezier, linear and cosine interpolation of a base path return the requested number of finite points on the mathematical curve they name: the i-th of n Bezier points is the curve at parameter i/n, linear and cosine points are spaced evenly along the path and start and end at its ends. This holds for every base path, also with repeated points; paths of fewer than two points are refused with an error, no request crashes.",
  IN,"every base path and sample count","The tests look at one path per algorithm.",
  ["src/interpolate_2d.rs"],[("Bernstein sum and arc length sampling","src/interpolate_2d.rs")],note='generated base paths against de Casteljau and an independent arc length walk|Paths of up to 200 (Bezier) or 40 base points with stretches without length, up to 400 samples.')
P("C16","Shape factories place every point on the requested shape",
  "Rectangle, ellipse, arc and involute factories produce the requested number of points (also none or one), all on the shape with the requested centre and dimensions, evenly spread in angle from the requested start to the requested end, for ellipses over the full turn.",
  IN,"every centre, dimension and sample count","Nothing tests these factories.",
  ["src/factory_2d.rs"],[("parametric sampling","src/factory_2d.rs")],note='generated shape parameters against closed form positions|Random centres, sizes over twelve orders of magnitude, angles of several turns in both directions, 0 to 62 points.')
P("C17","Matrix transformations compose and act as linear algebra says",
  "For every pair of transformations, transforming by a product equals transforming by the factors in turn, products are associative, identity changes nothing, and scalar multiples act elementwise. Translation, rotation and scale matrices move, rotate rigidly and scale every point as their parameters say, containers and shapes transform point by point, pipes compose scale, rotation and translation in their documented order, a look-at transformation is a rotation that sees the target straight ahead and up upright, and a perspective transformation maps the viewing frustum onto the cube from -1 to 1 once divided by the fourth coordinate, the depth.",
  IN,"every matrix, pipe configuration and point","Nothing tests matrices on generated input.",
  ["src/matrix3.rs","src/matrix4.rs","src/matrix3_pipe.rs","src/matrix4_pipe.rs","src/is_matrix3_transformable.rs","src/is_matrix4_transformable.rs"],[("4x4 product and application","src/matrix4.rs")],note='generated matrices and pipe histories against a plain linear algebra model|Random search over dyadic matrices (products exact), angles compared with a tolerance; the library applies no division itself, perspective is checked on the matrix.')
P("C18","Checked numbers and unit vectors never hold an invalid value",
  "Values of the positive and non-negative number types are always positive respectively non-negative and never NaN: construction accepts exactly the valid numbers, arithmetic on them stays inside the type and equals ordinary arithmetic. Unit vectors always have length one and point in the direction they were built from, and a zero vector is refused.",
  IN,"every number and vector, every operation","Tests use none or a couple of values.",
  ["src/positive.rs","src/non_negative.rs","src/norm_2d.rs","src/norm_3d.rs"],[("checked constructors","src/positive.rs")],note='operation histories against plain f64 arithmetic, edge case constructors, unit vectors over the whole f64 range|Histories of up to 14 operations, every f64 class. Operations whose ordinary result is no valid value are known findings.')
P("C19","Points are consistent vectors: arithmetic, equality, hash, text, distance",
  "Point arithmetic, dot and cross product, norm and angle agree with vector algebra on every pair of points, equal points hash equally, and a point parsed back from its own text is the same point. All distance functions equal the Euclidean definition, are symmetric, and agree between 2D, 3D and n-dimensional points, boxes and spheres.",
  IN,"every pair of points","Tests use fixed points only.",
  ["src/point_2d.rs","src/point_3d.rs","src/is_2d.rs","src/is_3d.rs","src/is_nd.rs","src/distances_2d.rs","src/distances_3d.rs","src/distances_nd.rs","src/utils.rs"],[("component-wise definitions","src/is_3d.rs")],note='generated points against plain vector arithmetic, metamorphic and round-trip relations|Random search; exact where the arithmetic is dyadic, otherwise relative tolerance 1e-9 or tighter.')
P("C20","Containers of points behave like plain lists under every edit history",
  "For every sequence of pushing, inserting, removing, replacing, appending, moving, scaling, transforming and sorting, every point container holds exactly the points a plain list subjected to the same edits holds. Invalid positions are refused and leave the container unchanged; sorting yields a permutation ordered by the axis, ties by the following axes.",
  IH,"every operation history on every container type","Tests run one short sequence per type.",
  ["src/point_cloud_2d.rs","src/point_cloud_3d.rs","src/point_cloud_3d_f32.rs","src/impls/vec.rs","src/impls/vec_deque.rs","src/impls/linked_list.rs"],[("delegation to Vec","src/point_cloud_3d.rs")],note='stateful model-based edit histories over eleven container types against a plain list|Random histories of up to 24 edits; dyadic coordinates so that results are exact; scaling only judged for clouds whose bounding box is not flat (flat ones stay as they are).')
P("C21","Lengths, centres, projections, normals and resizing equal their definitions",
  "Polyline, polygon and segment lengths, centres of gravity, plane projections, extrusion, face and vertex normals, resizing to a given size, scaling and recentring produce what their geometric definition says for every point set. Empty point sets report no centre of gravity, shapes without a bounding box are left unchanged by resizing, scaling and recentring.",
  IN,"every point set and shape","Tests use single fixed shapes.",
  ["src/functions.rs","src/has_length.rs","src/has_center_of_gravity_2d.rs","src/has_center_of_gravity_3d.rs","src/polygon_2d.rs","src/polygon_3d.rs","src/plane_3d.rs"],[("sums over elements","src/functions.rs")],note='generated shapes against independent geometric formulas|Random search; relative tolerances of a few units in the last place times the number of summands.')
P("C22","Compressed point clouds stay within their quantisation error",
  "Compressing any point cloud that has a bounding box and decompressing it returns the same number of points in the same order, each within one quantisation unit (extent of the cloud divided by the largest stored number) of the original per axis, for every unsigned type used for storage. Clouds without a bounding box are refused with an error.",
  IN,"every point cloud and storage type","Nothing tests compression.",
  ["src/compressed_point_cloud_3d.rs","src/compressed_point_3d.rs"],[("unit sizes and integer offsets","src/compressed_point_cloud_3d.rs")],note='generated clouds over six storage types, round trip within one unit|Random search; extents between 1e-7 and 1e12.')
P("C23","Saving and loading gives back the same points, colours and mesh",
  "For every point cloud or triangle mesh with finite coordinates, writing it in any supported format (xy, xyz, PLY ASCII, PLY binary with 32 or 64 bit, each with or without colours, and ASCII STL) and loading the output with any reader of that format yields the same points and faces in the same order, bit for bit (rounded to 32 bit where the format stores 32 bit). The written colours, counts and property declarations describe exactly what was passed; a wrong number of colours is refused. Degenerate faces are written as well. The output does not depend on how the sink accepts bytes (partial writes, interruptions), and a failing sink is reported as an error.",
  ["inputs","fault_sequences"],"every finite point cloud and mesh, every sink behaviour","The tests save and reload one bunny file through perfect sinks.",
  ["src/io/xy.rs","src/io/xyz.rs","src/io/ply/save.rs","src/io/ply/load.rs","src/io/stl.rs"],[("per-format writers and readers","src/io")],note='generated clouds and meshes, save/load round trips, independent decoding of the output, fault-injecting sinks|Random search; up to 40 vertices and faces. xy/xyz delimiters are repetitions of one byte.')
P("C24","Readers decode every valid file of their format",
  "For every valid file of a supported format (xy, xyz, pts, ptx, psl, gcode, las, obj, off, PLY and STL in ASCII and binary) the loaders and iterators deliver exactly the points and faces the file describes, in file order, and the element counts it announces. Optional parts the format allows (comments, blank lines where the format has them, extra columns, properties and attributes, property order and types, byte order, several blocks, scans or passes, header versions, polygons in obj, line endings, a missing final newline) and the chunking or interruption of the underlying stream do not change what is delivered.",
  IN,"every valid file and every chunking of the stream","Tests read one example file per format.",
  ["src/io"],[("per-format iterators","src/io")],note='grammar-based generation of valid files with a model of their content, adversarial stream chunking|Random search over a generator per format written from the format descriptions; format corners left out are listed in DESIGN.md.')
P("C25","No input makes a reader crash or hang",
  "For every byte sequence every reader terminates, returning points, a mesh or an error, without panicking, without overflow and without requesting memory beyond a fixed limit plus a multiple of the input's length. It never delivers more elements than the input has bytes, a loaded mesh only has faces made of three different existing vertices, and after an error or its end an iterator stays finished.",
  IN,"every byte sequence, in particular damaged valid files","Tests only read valid files.",
  ["src/io"],[("error returns on every parse step","src/io")],note='fuzzing: mutated valid files, token soup and random bytes through every reader, with allocation tracking|Random search without coverage guidance in quick; inputs up to a few kB.')
P("C26","Truncated or failing input is never reported as a complete load",
  "When a file announces how many elements it holds and ends before the last of them, ends within an element of fixed structure (an STL facet), or the underlying stream reports a read error before everything needed was read, loading returns an error instead of success. Whatever was delivered is an unaltered prefix of the file's content (the last number of a truncated text file may be cut short), and a load that does succeed delivered everything contained.",
  ["inputs","fault_sequences"],"every truncation point and every failing read position","Tests never truncate a file or fail a read.",
  ["src/io"],[("count checks and error propagation","src/io")],note='generated valid files cut or failing at generated offsets, oracle from element positions within the file|Random search over files and offsets; truncation is only detectable where the format announces counts or has fixed structure.')
P("C27","Readers of one file agree with each other",
  "Every way of loading the same bytes, valid or damaged (points only, mesh, mesh or points, duplicated or shared vertices, triplets, automatic or explicit STL format, loader or incremental iterator, different index containers, different chunking of the stream), delivers consistent content: the same vertices, the same triangles and the same outcome. A file loadable as mesh is loadable as points. Sharing vertices never changes the triangles' corner positions; it only drops triangles using a vertex more than once.",
  IN,"every mesh or point file, valid or damaged","Tests compare one file.",
  ["src/io/stl.rs","src/io/ply/load.rs","src/io/obj.rs","src/io/off.rs"],[("shared iterators","src/io/stl.rs")],note='differential between all readers of one format on valid and mutated files, and between stream chunkings|Random search over valid and mutated files.')
P("C28","Load errors of text files name the offending line",
  "When a text file (xy, xyz, pts, ptx, gcode, obj, off, ASCII PLY, ASCII STL) is valid up to a line that cannot be parsed, every reader that needs that line delivers exactly the elements before it and then an error carrying that line's number, counted from one, and (except for some announcements) its text. An error due to a premature end or a failing read that carries a line number carries the number of lines read so far.",
  ["inputs","fault_sequences"],"every valid file, every line of it and every way of breaking it","Tests never look at an error.",
  ["src/io/types.rs","src/io/utils.rs","src/io"],[("line counters of the iterators","src/io/types.rs")],note='generated valid files with one generated word broken, or cut, or failing; oracle counts lines|Random search over files, broken words and offsets; announcements covered: pts, off, ptx, PLY header.')
P("C29","Value types obey the laws of equality, ordering and hashing",
  "Two values (points, unit vectors, boxes, bounding boxes, spheres, circles, filters, lines, rays, segments, planes, matrices, checked numbers, ids, faces, colours, clouds, polygons, meshes) are equal exactly if their parameters are (0.0 equals -0.0) and a clone equals its original. Equal values hash equally. Finite values are always comparable, comparing is antisymmetric and transitive, yields Equal exactly for equal values, and cmp, partial_cmp, the operators, min, max and sorting agree, so that hash sets and ordered sets keep every distinct value once.",
  IN,"every set of finite values, in particular equal, nearly equal and mirrored ones","Tests compare a handful of points.",
  ["src/point_3d.rs","src/box_3d.rs","src/sphere.rs","src/norm_3d.rs","src/utils.rs"],[("Ord, PartialOrd, Eq and Hash implementations","src/point_3d.rs"),("hash_f64","src/utils.rs")],note='generated groups of near copies; the parameters a value is made of are the model of equality, the laws are checked on all pairs and triples|Random search over groups of 2-8 values; no NaN.')
P("C30","A file iterator that ended or failed delivers nothing more",
  "Every iterator over a file (xy, xyz, pts, ptx, psl, las, gcode, obj, off, ply, stl; points and meshes) is fused: once it returned None or an error every further call returns None, also if the reader has more data by then (a growing file, a pipe, a recovered read failure), and never panics.",
  ["inputs","fault_sequences"],"every file, damaged or not, and every reader that ends or fails for a while","Tests never call an iterator after its end.",
  ["src/io"],[("Iterator and FusedIterator implementations","src/io")],note='generated files read through a reader reporting an end or a failure at generated offsets and going on afterwards; oracle: nothing but None after the first None or error|Random search over files and up to four such offsets; six calls after the end.')
P("C31","Loading into a target that holds something appends to it",
  "Every loader given a list, cloud or mesh that holds points and faces already leaves them as they are and adds what it adds to an empty target: the same points in the same order, the same faces connecting the added vertices (ids shifted by the number of vertices held before) and the same normals, with the same result, for every valid or damaged file.",
  IN,"every file and every content of the target","Tests load into empty targets only.",
  ["src/io"],[("load_* functions","src/io"),("load_obj_mesh","src/io/obj.rs"),("load_off_mesh","src/io/off.rs"),("load_ply_mesh","src/io/ply/load.rs")],note='metamorphic: the same file loaded into an empty and into a prefilled target|Random search over files and small targets.')
P("C32","A file contradicting its format is refused",
  "A file whose content contradicts its format is refused with an error by every reader that needs the contradicted part, and whatever was delivered before is an unaltered prefix of the content before it: PLY without start, format, vertex element, or one of the coordinates, with unknown or unusable types, counts that are no counts, unknown header lines or properties outside of elements; PLY and OFF faces without exactly three corners; faces of PLY, OFF and obj using a vertex the file does not hold; vertices, points and faces with too few numbers or with text that is no number in their place; ASCII STL facets with missing, surplus or misplaced lines; LAS of unknown version or point format or with records too short for a point.",
  IN,"every file and every such contradiction at every place in it","Tests read valid files only.",
  ["src/io"],[("header states","src/io/ply/header.rs"),("face checks","src/io/off.rs"),("facet parser","src/io/stl.rs"),("Header::try_from","src/io/las/types.rs")],note='generated files with one contradiction injected; oracle: an error and a prefix of the content before it|Random search over files, contradictions and places; acceptance of what the library merely does not support is not demanded to be refused beyond the listed cases.')
