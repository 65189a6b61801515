import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="viennagrid/mesh/"; A="viennagrid/algorithm/"; S="viennagrid/storage/"; T="viennagrid/topology/"; IO="viennagrid/io/"
p("P01","Mesh complex: sub-elements exist exactly once and are shared",
 "For every sequence of cell creations (line, triangle, quadrilateral, tetrahedron, hexahedron) and of explicit facet or edge creations in any vertex order, the mesh contains exactly one facet and one edge per distinct vertex set the cells or explicit calls describe, and nothing else. Every cell lists its vertices in the order given, and its facets and edges in the documented reference numbering, and each listed sub-element is the very object stored in the mesh, so neighbouring cells share it.",
 ["inputs","histories","configurations"],"all orders and all incidence patterns of cells and explicitly created sub-elements; pointer, iterator and id handles; full and cell-only configurations",
 "mesh/hypercube/simplex tests instantiate types or build one fixed mesh and only print; no test compares all sub-element vertex sets, and no test creates shared facets in a different vertex order",
 [T+"simplex.hpp",T+"quadrilateral.hpp",T+"hexahedron.hpp","viennagrid/element/element.hpp","viennagrid/element/element_key.hpp",S+"inserter.hpp",S+"hidden_key_map.hpp",M+"element_creation.hpp"],
 [("boundary element generators",T+"*.hpp"),("vertex-id keyed deduplication","viennagrid/element/element_key.hpp"),("recursive insertion",S+"inserter.hpp")],["element ranges of mesh, cell and facet"])
p("P02","Local orientation of shared facets and edges",
 "For every cell and every facet or edge of it, asking for the k-th vertex of that facet or edge as seen from the cell yields the k-th vertex of the reference facet or edge of that cell, no matter which cell (or explicit creation) introduced the shared sub-element and in which vertex order. The same holds for the edges of a facet as seen from the facet.",
 ["inputs","histories"],"all relative placements of two cells sharing a sub-element and all orders of explicit creation",
 "no test queries local orientation of shared sub-elements at all",
 ["viennagrid/element/element.hpp","viennagrid/element/element_orientation.hpp",M+"mesh.hpp"],
 [("permutation set when boundary element is attached","viennagrid/element/element.hpp"),("local_vertex",M+"mesh.hpp")])
p("P03","Element ids are unique and handles stay valid",
 "For every history of vertex and cell creations, with automatically assigned or explicitly requested ids in any order, ids within one element kind are unique as long as the explicitly requested ids are, every id is below the reported upper bound, and a requested id is the id obtained; as long as no id of a kind is requested explicitly, the ids of that kind are 0, 1, ..., n-1. A handle obtained for an element keeps denoting that same element (same id, same coordinates, same vertices) while further elements are added, for each handle kind, and looking an element up by its id finds exactly that element.",
 ["histories","configurations"],"all interleavings of plain and with-id creations over a small id range; all handle kinds",
 "tests use automatic ids only",
 [S+"id_generator.hpp",S+"id.hpp",S+"handle.hpp",S+"container.hpp",S+"inserter.hpp",M+"element_creation.hpp"],
 [("continuous id generator",S+"id_generator.hpp"),("id assignment during insertion",S+"inserter.hpp"),("handle types",S+"handle.hpp")])
p("P04","Co-boundary iteration is exact at every point of every history",
 "At every point of any history of adding cells, adding cells to segments or removing them from segments, and querying, the co-boundary of an element with respect to a mesh, a segment or a view enumerates exactly the elements of the requested kind in that mesh, segment or view that have the element on their boundary, each once. Earlier queries never make a later answer stale.",
 ["histories","inputs"],"all operation sequences up to the bound interleaved with queries in all element-kind combinations",
 "the coboundary test queries one static mesh after construction; invalidation of cached answers is never exercised",
 [M+"coboundary_iteration.hpp",M+"mesh.hpp",M+"segmentation.hpp",S+"inserter.hpp"],
 [("change counter invalidates the cached co-boundary",M+"mesh.hpp"),("create_coboundary_information",M+"coboundary_iteration.hpp")])
p("P05","Neighbour iteration is exact at every point of every history",
 "At every point of any such history, the neighbours of an element via connecting elements of a lower dimension in a mesh, segment or view are exactly the other elements of the same kind that share at least one connecting element with it inside that mesh, segment or view, each listed once and the element itself never.",
 ["histories","inputs"],"all operation sequences up to the bound; connectors vertex, edge, facet",
 "no stable test iterates neighbours after a modification",
 [M+"neighbor_iteration.hpp",M+"coboundary_iteration.hpp"],
 [("create_neighbor_information",M+"neighbor_iteration.hpp")])
p("P06","Boundary detection matches incidence at every point",
 "At every point of any history on meshes where each facet belongs to at most two cells, a facet is reported as boundary of a mesh, segment or view if and only if exactly one cell of that mesh, segment or view has it, and a lower-dimensional element if and only if it lies on such a facet; an element is on the boundary of a single element if and only if it is one of its sub-elements. Boundary queries give this answer after any modification, not the answer of an earlier query.",
 ["histories","inputs"],"all operation sequences up to the bound in 1D, 2D, 3D; mesh and segments",
 "the boundary test checks counts on static file meshes",
 [A+"boundary.hpp",M+"mesh.hpp",M+"segmentation.hpp"],
 [("detect_boundary",A+"boundary.hpp"),("boundary information change counter",M+"mesh.hpp")])
p("P07","Interface detection between two segments matches incidence",
 "For any two segments and at every point of any history, a facet is reported as interface if and only if both segments contain it and it is on the boundary of both, and a lower-dimensional element if and only if it lies on such a facet; the answer is the same with the segments exchanged.",
 ["histories","inputs"],"all assignments of cells to two or three segments and all modification sequences up to the bound, with queries interleaved",
 "the interface test checks one fixed mesh without later modification",
 [A+"interface.hpp",A+"boundary.hpp",M+"segmentation.hpp"],
 [("detect_interface",A+"interface.hpp"),("segmentation appendix change counters",M+"segmentation.hpp")])
p("P08","Erasing an element removes exactly it and what depends on it",
 "Erasing an element from a mesh removes exactly that element and the elements that have it on their boundary; all remaining elements keep their ids, their vertices and their connectivity, and the mesh stays usable: iteration, co-boundary and boundary queries, and creation of further cells (which still share existing facets and edges) give the results of a mesh that never contained the erased elements.",
 ["histories"],"all sequences of erasures of vertices, edges, facets and cells and re-insertions up to the bound on small fixtures, all victim choices",
 "no stable test erases anything",
 [M+"element_deletion.hpp",M+"mesh_operations.hpp",S+"hidden_key_map.hpp",S+"container.hpp"],
 [("mark referencing elements, swap-with-last, pop",M+"element_deletion.hpp")])
p("P09","Copied, assigned and cleared meshes are independent and equivalent",
 "Copying or assigning a mesh, at any point of any history, yields a mesh with the same elements, ids, coordinates, vertex orders and connectivity; copying or assigning a segmented mesh yields the same cells (coordinates and vertex order), segment ids and segment membership. Afterwards neither object is affected by changes to the other or by its destruction, no element of one refers to an element of the other, and self-assignment changes nothing. Clearing leaves an empty mesh or segmented mesh that behaves like a new one. A copied or assigned mesh view refers to the same elements of the same mesh, and elements added to (or created through) one view appear in that view and, if created, in the mesh, but not in the other view.",
 ["histories"],"all histories up to the bound before and after the copy, on either object",
 "tests copy at most once and never modify afterwards",
 [M+"mesh.hpp",M+"mesh_operations.hpp",M+"segmented_mesh.hpp",M+"segmentation.hpp"],
 [("fix_handles re-targets handles",M+"mesh_operations.hpp"),("segmented_mesh copy",M+"segmented_mesh.hpp")])
p("P10","Segment membership and element-to-segment mapping agree",
 "At every point of any history of creating segments, adding cells to or erasing them from segments and clearing segments, a segment contains exactly the elements put into it, each once: adding a cell adds the cell and its sub-elements, erasing an element removes that element and everything in the segment that has it on its boundary and nothing else. The segmentation's own range is the union of its segments, and the per-element membership query and the list of segments of an element agree with the segments' own ranges.",
 ["histories","configurations"],"all operation sequences up to the bound over three cells and up to three segments, overlapping membership included; full and cell-only segmentations",
 "segment tests check one construction order",
 [M+"segmentation.hpp",S+"view.hpp",S+"inserter.hpp"],
 [("element->segment map and segment views",M+"segmentation.hpp")])
p("P11","Segment ids and names are unambiguous",
 "At every point of any history of creating segments with automatic or chosen ids or names, renaming, clearing and re-initialising with another mesh, segment ids are unique and names are unique, looking a segment up by id or by name returns the segment that currently carries it, unknown ids or names are reported as such, and a rejected request leaves the segmentation unchanged.",
 ["histories"],"all operation sequences up to the bound over a small set of ids and names",
 "the named_segment test runs a single script",
 [M+"segmentation.hpp"],[("segment id map and segment name map",M+"segmentation.hpp")])
p("P12","Refinement is conforming and tiles each parent cell",
 "For every triangular (2D or 3D) and tetrahedral mesh and every set of tagged edges or cells, refinement produces a mesh whose cells tile the original cells without gap or overlap (per-parent measure preserved, no degenerate child), which is conforming (no vertex lies in the interior of an edge or facet of another cell), and in which exactly the tagged edges are split, each at its midpoint by one shared vertex.",
 ["inputs","configurations"],"all tag subsets of all edges for one and two cells, all vertex orderings of the cells, and geometry variations that change which edges are longest (ties included)",
 "tests refine a few file meshes uniformly or with one tag set and mostly write the result",
 [A+"refine.hpp",A+"detail/refine_tri.hpp",A+"detail/refine_tet.hpp"],
 [("pattern tables per number and position of tagged edges",A+"detail/refine_tet.hpp"),("midpoint vertices via field",A+"refine.hpp")])
p("P13","Refinement modes split the right edges and carry segments along",
 "Refining a mesh together with a segmentation puts every child cell into exactly the segments of its parent and keeps segment ids. Cell refinement splits exactly the edges of the tagged cells and uniform refinement splits every edge; the longest-edge closure additionally tags a longest edge of every cell that has a tagged edge, and nothing that this rule does not require; plane refinement splits exactly the edges that properly cross the plane, at the crossing point wherever the mesh is located, so that no cell straddles the plane afterwards. Edges are split in the middle of the positions that a given point accessor supplies. The result is always a conforming tiling of the parents.",
 ["inputs","configurations"],"all assignments of cells to segments, all cell tag sets, all plane positions from a grid",
 "tests refine segmented meshes only by printing",
 [A+"refine.hpp"],[("element_refine / cell_refine / hyperplane_refine",A+"refine.hpp"),("ensure_longest_edge_refinement",A+"refine.hpp")])
p("P14","Measures agree with geometry for every element",
 "Volume and surface of lines, triangles, convex planar quadrilaterals, simple polygons, tetrahedra and convex hexahedra with planar faces (vertices in the documented numbering), and of meshes and segments of them, equal the geometric values for every non-degenerate input, whatever the vertex order, position and scale; volumes of meshes and segments are the sums over their cells and surfaces those over their boundary facets. The centroid of lines, simplices, parallelograms and parallelepipeds and of meshes and segments of them is the centre of mass, and the circumcenter of lines, simplices, rectangles and bricks lies in their plane at the same distance from all vertices. Spanned volumes and angles between points agree with the corresponding closed forms. Where the caller supplies the vertex positions by an accessor, the results are those for these positions.",
 ["inputs"],"all non-degenerate vertex placements on small integer grids, all vertex orders",
 "tests check a handful of hand-picked elements",
 [A+"volume.hpp",A+"spanned_volume.hpp",A+"surface.hpp",A+"centroid.hpp",A+"circumcenter.hpp",A+"angle.hpp",A+"cross_prod.hpp",A+"inner_prod.hpp",A+"norm.hpp"],
 [("spanned volume formulas",A+"spanned_volume.hpp"),("element dispatch",A+"volume.hpp")])
p("P15","Inclusion tests, bounding boxes and small linear algebra are exact",
 "A point is reported inside a tetrahedron, a triangle in 2D, or (for points of its plane) a triangle in 3D if and only if it geometrically is (boundary included), whatever the vertex order; the bounding box of a mesh, segment or point sequence is the smallest axis-parallel box containing all its points and mesh_size the corresponding extent; normal vectors of triangles, determinants, and Gram-Schmidt orthogonalisation (rank, mutual orthogonality, same span) agree with exact arithmetic; inclusion and normals use the positions of the given point accessor.",
 ["inputs"],"all placements of element and query point on small integer grids",
 "no stable test covers inclusion or bounding boxes",
 [A+"inclusion.hpp",A+"geometry.hpp",A+"detail/numeric.hpp"],[("is_inside",A+"inclusion.hpp"),("bounding_box",A+"geometry.hpp")])
p("P16","Distances and closest points are true minima",
 "For every supported pair (point or vertex with point, line, triangle, quadrilateral, tetrahedron or hexahedron; line with line; line with segment; point with the boundary of a mesh or segment; boundaries of two segments), the two returned points consist of one point of each argument, their distance is the reported distance, and no other pair of points of the two arguments is closer; the reported distance does not depend on the order of the arguments or of the vertices, and positions supplied by an accessor are used in place of those in the mesh.",
 ["inputs"],"all placements of the two objects on small integer grids, all vertex orders, degenerate contact and parallel cases included",
 "distance tests check hand-picked configurations of few pair kinds",
 [A+"closest_points.hpp",A+"distance.hpp"],[("closest_points_impl overloads",A+"closest_points.hpp"),("distance via closest points",A+"distance.hpp")])
p("P17","Voronoi boxes partition the mesh",
 "For Delaunay meshes of lines and triangles, meshes of rectangles and bricks, and tetrahedral meshes whose cells contain their circumcenters, the Voronoi quantities equal the geometric ones clipped to the mesh or segment: the box volume of every vertex and of every edge and the interface area of every edge; box volumes of the vertices, and of the edges, add up to the volume of the mesh or segment, and the recorded contributions of the cells add up to the quantity they contribute to.",
 ["inputs"],"all small Delaunay meshes on integer grids, including cells with the circumcenter outside, all vertex orders, all segment assignments (segments not for tetrahedra: unsupported)",
 "Voronoi tests check the total volume of one mesh per cell type",
 [A+"voronoi.hpp"],[("write_voronoi_info",A+"voronoi.hpp")])
p("P18","VTK write and read are inverse",
 "Writing a mesh, alone or with a segmentation of two or more segments, with any attached scalar and vector data on vertices and cells (for the whole mesh or per segment) produces VTK files that describe exactly the written cells, their vertices and data in VTK's conventions; reading them back (or the same content with data arrays in another order) yields the same vertices, the same cells with the same vertex order, segments with the same ids and members, and the same names and values of all data per vertex and cell of each segment, up to the printed 15 digits, whether the data is fetched after reading or delivered to registered accessors; a writer or reader can be reused, nothing of an earlier file shows in a later one. (Vertices have pairwise different positions; cells outside of all segments and vertices outside of all cells are not written.)",
 ["inputs","configurations","histories"],"all small meshes and vertex orders, all assignments of cells to segments, all combinations of data arrays, all supported cell types, all short sequences of uses",
 "io tests compare little after reading back and never per-segment vector data",
 [IO+"vtk_writer.hpp",IO+"vtk_reader.hpp",IO+"vtk_common.hpp",IO+"xml_tag.hpp"],[("vtk_writer",IO+"vtk_writer.hpp"),("vtk_reader",IO+"vtk_reader.hpp")])
p("P19","Reading a damaged file fails cleanly",
 "Reading a VTK file (.vtu, or .pvd with its parts) that was cut off at any byte, misses a part file, or in which a token or line is missing, repeated or garbled, terminates; it either reports an error by an exception and leaves mesh and segmentation empty, or delivers exactly the complete mesh, segments and data; and the same reader then reads an intact file correctly. Reading a cut off or garbled Netgen file or a cut off bnd file reports an error, and damaged Netgen, Tetgen poly, bnd and Neper tess files never make the reader hang, crash or access memory out of bounds.",
 ["crash_points","inputs"],"every truncation point of the files of several meshes, and every deletion, repetition and garbling of one token or line",
 "no test reads a malformed file",
 [IO+"vtk_reader.hpp",IO+"xml_tag.hpp",IO+"helper.hpp",IO+"netgen_reader.hpp",IO+"tetgen_poly_reader.hpp"],[("xml tag parser and section readers",IO+"vtk_reader.hpp")])
p("P20","Other mesh formats deliver exactly the described mesh",
 "Reading a Netgen file yields exactly the vertices, cells (ids, vertex order) and segments written in it, reading a Tetgen poly file exactly its vertices (with their ids), facets (lines, loose vertices, hole points), hole points and region points, with optional entries and comments handled, reading a bnd file exactly the used vertices, triangles (one per face, whatever the direction of its edges) and segments, with names, materials and contacts, reading a Neper tess file exactly its vertices, faces and polyhedron seed points. Writing OpenDX, COMSOL mphtxt and vmesh files produces a description of exactly the mesh, whatever the ids of its vertices: all vertices with their coordinates, all cells with correct vertex references, scalar data (OpenDX), boundary and interface triangles with the segments on their two sides, groups of connected coplanar ones between the same segments and cell domains (mphtxt, disjoint segments, cells without segment included), element counts per segment (vmesh).",
 ["inputs"],"all small meshes of the supported types, vertex orders, id assignments and segment assignments, written, parsed by an independent reader and compared",
 "tests only check that reading succeeds",
 [IO+"netgen_reader.hpp",IO+"tetgen_poly_reader.hpp",IO+"bnd_reader.hpp",IO+"neper_tess_reader.hpp",IO+"opendx_writer.hpp",IO+"vmesh_writer.hpp",IO+"mphtxt_writer.hpp"],[("readers and writers",IO+"*.hpp")])
p("P21","Accessors and fields are exact per-element storage",
 "For every history of writes, reads and element creations, reading an element through an accessor or field over any container kind (std::vector, std::deque, std::map, hidden collections; plain or wrapped as dynamic accessor or field; used before or after further elements are added) yields the last value written for that element; for an element never written it yields the field's default value or a value-initialised one where such exists, find() yields NULL and at() throws std::out_of_range where no data exists; reading through const, find and at never creates data; different elements never alias, accessors on one container agree with each other, and values stay attached to their element when elements are added. The default point accessor reads and writes the coordinates of the vertex.",
 ["histories","configurations"],"all write/read sequences up to the bound over all accessor/field kinds",
 "accessors are only exercised incidentally",
 ["viennagrid/accessor.hpp"],[("dense/map/hidden accessors and fields","viennagrid/accessor.hpp")])
p("P22","Ranges, iterators and views enumerate exactly their elements",
 "Every range over vertices, edges, facets or cells of a mesh, segment, view or element, and every co-boundary and neighbour range, visits each of its elements exactly once, forwards, backwards and by index where offered, with consistent size, handles and identity of the visited objects; pre- and post-increment and -decrement and copies of iterators follow the usual iterator meaning. A view contains exactly the elements put into it and not erased from it (ordered by id; in insertion order if based on a sequence container), is copied and assigned independently of the original, and changes nothing in the underlying mesh; a cell created through a view enters mesh and view.",
 ["histories","configurations"],"all insertion sequences up to the bound; all iterator walks up to the bound",
 "ranges are only walked forwards with pre-increment in tests",
 [S+"range.hpp",S+"view.hpp",S+"container.hpp",S+"static_array.hpp",M+"mesh.hpp"],[("container and view iterators",S+"container.hpp")])
p("P23","Derived data: boundary extraction, seed points, quantity transfer",
 "Extracting the boundary of a mesh, with or without segmentation, creates exactly its boundary elements (and hull segments with the boundary of each segment) with the same coordinates and vertex order, without duplicated vertices and without remains of earlier content; seed point extraction returns exactly one point strictly inside every facet-connected part of every segment (or of the mesh), together with the id of the segment; transferring quantities between elements of any two different dimensions of a mesh or segment hands the averager, for every destination element accepted by the destination filter, exactly the values of the incident source elements accepted by the source filter, and changes nothing else.",
 ["inputs"],"all small meshes and segmentations of the bound",
 "no stable test covers these",
 [A+"extract_boundary.hpp",A+"extract_seed_points.hpp",A+"quantity_transfer.hpp"],[("extract_boundary",A+"extract_boundary.hpp"),("quantity_transfer",A+"quantity_transfer.hpp")])
p("P24","Points, coordinate systems and transforms obey vector-space laws",
 "Point arithmetic, norms, inner and cross products obey the usual algebraic laws componentwise in 1D, 2D and 3D; conversion between Cartesian, polar, cylindrical and spherical coordinates is consistent (round trip, and mixed-system arithmetic equals Cartesian arithmetic); scaling and affine transforms of a mesh move every vertex exactly once and leave topology unchanged.",
 ["inputs"],"all points on small grids, all pairs of coordinate systems",
 "the point test samples few values",
 ["viennagrid/point.hpp",A+"geometric_transform.hpp",A+"norm.hpp",A+"inner_prod.hpp",A+"cross_prod.hpp"],[("coordinate converter","viennagrid/point.hpp"),("scale/affine_transform",A+"geometric_transform.hpp")])
p("P25","Copying elements between meshes merges vertices exactly",
 "Copying elements from one mesh into another (vertex_copy_map, copy_element, copy_elements, copy_elements_by_handle, copy with a filter, with or without segmentation; target a mesh or segment) creates in the target exactly the copied elements with the same positions and vertex order, whatever the order of the copies and the ids: without tolerance one new vertex per source vertex and copy (or copy map), with a tolerance an existing vertex within the tolerance is reused, and repeated copies create nothing new; make_unique_vertex likewise. Lines, loose vertices and hole points of PLCs are copied, too. The source is unchanged.",
 ["inputs","histories"],"all subsets and orders of cells of small meshes copied in one or several steps",
 "not covered by a stable test",
 [M+"element_creation.hpp",M+"mesh_operations.hpp"],[("vertex_copy_map",M+"mesh_operations.hpp"),("copy_elements / make_unique_vertex",M+"element_creation.hpp")])
p("P26","Serialisation of meshes is lossless",
 "Saving a mesh through mesh_serializer into an archive and loading it yields the same vertices (positions, order) and the same cells (order, vertex order), whatever the ids in the saved mesh, for several meshes in one archive and when loading into a mesh that already has content (which stays); saving does not change the mesh; a serializer without mesh, and an archive that is cut off or garbled, is reported by an exception.",
 ["inputs","crash_points"],"all small meshes, vertex orders and id assignments; every cut position",
 "the serialization test is disabled",
 [IO+"serialization.hpp"],[("save / load",IO+"serialization.hpp")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
