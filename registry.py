"""property -> harness programs, bounds (text for the evidence file)."""


def topo(prop, kinds):
    return [{"src": "topology.cpp", "defs": ("PROP=%d" % prop, "KIND=%d" % k)} for k in kinds]


TOPO_BOUNDS = {
    "quick": "simplices/quads over 4..6 vertices: all ordered pairs of cells, all triples with the first cell fixed (third cell of 4-vertex shapes starting at vertex 0/1), one explicit facet/edge in every order at every position, two explicit ones before a cell; hexahedra: all relative placements of two cells sharing a facet/edge/vertex; structured blocks of 6 to some hundred cells in up to 27 vertex, cell and corner numberings",
    "thorough": "as quick with 6 vertices for triangles, all third cells, all 48 symmetries of the first hexahedron"}
ASSUME = ["compiled with g++ -std=gnu++11 -O1, AddressSanitizer and libstdc++ assertions; one process per shard, single threaded"]

FASTASSUME = ["compiled with g++ -std=gnu++11 -O2 and libstdc++ assertions; coordinates on integer grids, so reference results are exact or compared within 1e-9"]


def hist(prop, kinds, extra=()):
    return [{"src": "history.cpp", "defs": ("PROP=%d" % prop, "KIND=%d" % k)} for k in kinds] + list(extra)


HIST_BOUNDS = {
    "quick": "6 mesh types (lines, triangles 2d/3d, quadrilaterals, tetrahedra, hexahedra) with 3-4 mutually adjacent cells, 2 segments (3 in one program) and a view; every history of 2 operations over all cells and sub-element erasures with every subset of query points; every history of 3 operations on 2 cells with every subset of query points; every history of 3-4 operations on 3 cells queried after each operation and only at the end; operations: create cell in mesh/segment, add to segment, erase cell or sub-element from segment, clear segment, add to view, handle whole mesh; structured blocks of 6 to some hundred cells in up to 27 vertex, cell and corner numberings",
    "thorough": "as quick with one more operation in every family"}

PROPS = {
    "P01": {"programs": topo(1, [0, 15, 1, 2, 3, 13, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16]), "bounds": TOPO_BOUNDS, "assumptions": ASSUME},
    "P02": {"programs": topo(2, [1, 2, 3, 4, 5, 6, 7, 9, 14]), "bounds": TOPO_BOUNDS, "assumptions": ASSUME},
    "P03": {"programs": [{"src": "ids.cpp", "defs": ("KIND=%d" % k,)} for k in range(7)],
            "bounds": {"quick": "every history of up to 5 vertex creations (automatic id, or explicit id out of {0,1,2,4,7}; through mesh or segment), every history of up to 4 further vertex/cell/edge creations (automatic or explicit ids) after NV+1 vertices, and growth to 200 elements; pointer, iterator and id handles, lines, triangles, quadrilaterals, tetrahedra, full and thin meshes", "thorough": "one more operation in each family, growth to 600"},
            "assumptions": ASSUME + ["explicitly requested ids are not already in use (the library documents no diagnosis for that)"]},
    "P04": {"programs": hist(4, range(6)), "bounds": HIST_BOUNDS, "assumptions": ASSUME},
    "P05": {"programs": hist(5, range(6)), "bounds": HIST_BOUNDS, "assumptions": ASSUME},
    "P06": {"programs": hist(6, range(6)), "bounds": HIST_BOUNDS, "assumptions": ASSUME},
    "P07": {"programs": hist(7, range(6), [{"src": "history.cpp", "defs": ("PROP=7", "KIND=1", "NSEG=3")}]), "bounds": HIST_BOUNDS, "assumptions": ASSUME},
    "P08": {"programs": [{"src": "erase.cpp", "defs": ("KIND=%d" % k,), "std": "gnu++98" if k in (1, 4) else "gnu++11"} for k in (1, 4, 2, 5, 3, 0)],
            "bounds": {"quick": "lines, triangles (pointer and iterator handles), quadrilaterals, tetrahedra, hexahedra with 2-4 mutually adjacent cells: from every subset of the cells in two creation orders, every history of 1 operation (including erasing any two elements of any kinds in one go), of 2 operations, and (lines, triangles) of 3 operations out of {erase any element of any dimension, (re-)create a cell}, with all queries warmed before every operation or only at the end; structured blocks of 6 to some hundred cells in up to 27 vertex, cell and corner numberings", "thorough": "depth 3 everywhere (hexahedra 2, lines 4), pairs of simultaneous erasures also in depth 2"},
            "assumptions": ["compiled as C++98 or C++11, g++ -O1, AddressSanitizer and libstdc++ assertions", "no segmentation on the mesh (the library documents no propagation of mesh erasure into segments)"]},
    "P10": {"programs": hist(10, range(6), [{"src": "history.cpp", "defs": ("PROP=10", "KIND=%d" % k, "CELLONLY")} for k in (1, 4)]), "bounds": HIST_BOUNDS, "assumptions": ASSUME},
    "P11": {"programs": [{"src": "names.cpp"}],
            "bounds": {"quick": "every history of up to 5 operations out of {make_segment, get/create by id in {0,1,3}, get/create by name in {a,1,2}, rename any of the first three segments to any of these names, clear, re-initialise for another mesh} and of up to 3 operations that also put cells into segments; all look-up paths queried after every operation (depth<=4) or at the end; every cyclic word of up to 3 out of 8 kinds of operation repeated to a history of 36 operations (up to some 60 segment ids)", "thorough": "one more id and name, cell histories to depth 4"},
            "assumptions": ASSUME},
    "P09": {"programs": [{"src": "copies.cpp", "defs": ("KIND=%d" % k,)} for k in (3, 1, 0, 2, 4, 5, 6)] + [{"src": "copies.cpp", "defs": ("KIND=%d" % k, "SEGMENTED")} for k in (0, 1, 2)],
            "bounds": {"quick": "two meshes A, B (7 mesh types and handle kinds, 2-3 adjacent cells): every history of up to 4 operations (3 for 3d types) out of {add any cell to A or B, A=B, B=A, A=A, clear either, replace A by copy-constructed B, destroy B, exchange via temporaries, copy() algorithm} plus one more operation from a two-cell mesh, with all queries before every operation or only at the end; segmented meshes likewise with 2 segment ids, overlapping membership and unsegmented cells; structured blocks of 6 to some hundred cells in up to 27 vertex, cell and corner numberings; two views of one mesh with every history of up to 4 operations (create, add, copy, assign)", "thorough": "one more operation in every family"}, "assumptions": ASSUME},
    "P12": {"programs": [{"src": "refine.cpp", "defs": ("PROP=12", "KIND=%d" % k), "fast": True} for k in (2, 0, 1)],
            "bounds": {"quick": "single cells: triangles with all ordered non-degenerate placements on a 4x4 grid (flat and on a folded surface), tetrahedra on a 3x3x3 grid with one representative per outcome of all edge-length and inner-diagonal comparisons, all tag sets, 4 ways of calling; pairs: all pairs of triangles on a 3x3 grid in all vertex orders with all 32 tag sets, four pairs of tetrahedra (all ties, partial ties, generic) in all orders of the first cell x 6 orders of the second and 5 vertex numberings x 25 orders with all 512 tag sets; four triangles around a vertex, three tetrahedra around an edge with all tag sets; structured blocks of 6 to some hundred cells in up to 27 vertex, cell and corner numberings; positions also moved across the origin", "thorough": "5x5 grid, every tetrahedron on the 3x3x3 grid with first vertex anywhere, every vertex order of both cells, 60 vertex numberings"},
            "assumptions": FASTASSUME},
    "P13": {"programs": [{"src": "refine.cpp", "defs": ("PROP=13", "KIND=%d" % k), "fast": True} for k in (2, 0, 1)],
            "bounds": {"quick": "meshes of 2 and 3 cells (ties and generic): every assignment of the cells to subsets of two segments combined with tag sets (all for triangles; for tetrahedra all without segments and every 11th per assignment), with every set of tagged cells and the uniform variants, and with planes of 10 (28) normals x 7 offsets (19 without segments), also with all positions moved by 2^23; every vertex numbering of the two-cell mesh with all cell tags and longest-edge closure of tag sets; structured blocks of 6 to some hundred cells in up to 27 vertex, cell and corner numberings; positions also moved across the origin; positions of the caller with every set of tagged cells and every segment assignment", "thorough": "every tag set for every assignment, every plane, every numbering"},
            "assumptions": FASTASSUME},
    "P14": {"programs": [{"src": "measures.cpp", "defs": ("KIND=%d" % k,), "fast": True} for k in (7, 8, 6, 4, 3, 5, 0, 1, 2, 9, 10)],
            "bounds": {"quick": "lines (1d-3d), triangles (2d, 3d; all ordered placements on 6x6 and 3x3x3 grids), convex planar quadrilaterals (2d, 3d; 4x4 grid, 5 embeddings), tetrahedra (all ordered placements on the 3x3x3 grid), hexahedra with planar faces (prisms, sheared prisms, truncated pyramids, bricks; their numberings), simple polygons up to 5 vertices; each shifted and scaled; meshes of 2-4 cells of each type with every assignment to subsets of two segments; spanned volumes and angles for all point triples (and quadruples) of the 3x3(x3) grid; structured blocks of 6 to some hundred cells in up to 27 vertex, cell and corner numberings; positions also moved across the origin; positions read from the mesh and from a container of the caller", "thorough": "larger grids, all 48 numberings of every hexahedron, all shift/scale variants of every tetrahedron, polygons up to 6 vertices"},
            "assumptions": FASTASSUME},
    "P15": {"programs": [{"src": "inclusion.cpp", "defs": ("KIND=%d" % k,), "fast": True} for k in range(5)],
            "bounds": {"quick": "see the groups of the evidence: triangles on 2d/3d integer grids and tetrahedra on the 3x3x3 grid with all query points of the refined grid, point sets and meshes on grids with every segment assignment, matrices with small integer entries; positions also moved across the origin; positions read from the mesh and from a container of the caller", "thorough": "larger grids"}, "assumptions": FASTASSUME},
    "P16": {"programs": [{"src": "distance.cpp", "defs": ("KIND=%d" % k,), "fast": True} for k in range(7)],
            "bounds": {"quick": "all placements of both arguments on small integer grids (see the groups of the evidence), minima computed independently by enumeration of feature pairs; positions also moved across the origin; structured blocks of 6 to 24 cells in different vertex, cell and corner numberings, with their boundaries and those of segments in them; positions read from the mesh and from a container of the caller", "thorough": "larger grids"}, "assumptions": FASTASSUME},
    "P17": {"programs": [{"src": "voronoi.cpp", "defs": ("KIND=%d" % k,), "fast": True} for k in range(6)],
            "bounds": {"quick": "all small Delaunay meshes of the grids given by the groups of the evidence; the oracle clips half planes (half spaces) independently; structured blocks of 6 to some hundred cells in up to 27 vertex, cell and corner numberings; positions also moved across the origin", "thorough": "larger grids"}, "assumptions": FASTASSUME},
    "P18": {"programs": [dict({"src": "vtk.cpp", "defs": ("KIND=%d" % k,), "fast": True}, **({"thorough_only": True} if k in (2, 7) else {})) for k in (4, 3, 1, 0, 5, 2, 8, 7, 6)],
            "bounds": {"quick": "7 mesh types: vertex orders of one and two cells x id assignments (all permutations for up to 5 vertices) with isolated vertices; every assignment of 3-4 cells to subsets of 0-3 segments with 9 sets of segment ids; all 256 combinations of data arrays x 4 ways of reading; every arrangement of the arrays; every sequence of 3 files with one writer and one reader out of 5 models; structured blocks of 6 to some hundred cells in up to 27 vertex, cell and corner numberings; up to 3 data arrays of each kind with names of 3 styles; meshes and segments without cells", "thorough": "9 mesh types, no pairing reductions, sequences of 4 files"},
            "assumptions": FASTASSUME + ["values representable within 15 significant digits are compared with relative tolerance 1e-14"]},
    "P19": {"programs": [{"src": "vtkbad.cpp", "defs": ("KIND=%d" % k,)} for k in (4, 3, 1, 0)] + [{"src": "formats.cpp", "defs": ("FORMAT=5", "KIND=%d" % k)} for k in (1, 3, 4)] + [{"src": "formats.cpp", "defs": ("FORMAT=6", "KIND=4")}] + [{"src": "formats2.cpp", "defs": ("FORMAT=%d" % f,)} for f in (2, 3)],
            "bounds": {"quick": "4 models (with and without data, one with two segments) x 4 cell types: every byte position as the end of every file, every missing file, every token and line removed or repeated, every number garbled; netgen, poly, bnd and tess files: every cut, every token removed, garbled, repeated (bnd, tess: negated, enlarged)", "thorough": "also every number replaced by a closing tag"},
            "assumptions": ASSUME},
    "P20": {"programs": [{"src": "formats.cpp", "defs": ("FORMAT=%d" % f, "KIND=%d" % k), "fast": True} for f, k in ((0, 1), (0, 3), (0, 4), (0, 5), (0, 6), (1, 6), (1, 1), (1, 4), (1, 2), (1, 3), (1, 5), (1, 0), (2, 4), (3, 1), (3, 4), (4, 1))] + [{"src": "formats2.cpp", "defs": ("FORMAT=%d" % f,), "fast": True} for f in (0, 1)],
            "bounds": {"quick": "all vertex orders of two cells x 4 id assignments, every assignment of 3-4 cells to segments; mphtxt: two tetrahedra in all orders and a cube of six with every assignment to {none, 0, 4}; poly: up to 2 facets out of 8 kinds x 4 id schemes x hole/region counts x 16 notations; bnd: all edge directions x face rotations of two joined tetrahedra, every third assignment of 7 faces to two segments, contacts in all region orders, polygons; tess: up to 3 faces out of 6 x 4 id schemes x up to 3 polyhedra x 4 notations; structured blocks of 6 to some hundred cells in up to 27 vertex, cell and corner numberings; meshes without cells", "thorough": "poly up to 3 facets, mphtxt four more order patterns, bnd every assignment, tess 4 faces"},
            "assumptions": FASTASSUME},
    "P21": {"programs": [{"src": "accessors.cpp", "defs": d, "fast": True} for d in (("KIND=1", "ELEM=0"), ("KIND=1", "ELEM=2"), ("KIND=4", "ELEM=1"))],
            "bounds": {"quick": "vertices of triangular, cells of triangular and edges of tetrahedral meshes; accessors and fields over std::vector, std::deque, std::map and hidden collections, with and without default value, default constructed and set later, wrapped in dynamic accessors and fields: every history of writes, reads, resets, element creations and clears up to the depth of the groups in the evidence; up to 70 elements with gaps of 1, 3 or 17 between their ids written in 3 orders through every path and overwritten through others", "thorough": "one more operation"},
            "assumptions": FASTASSUME},
    "P22": {"programs": [{"src": "ranges.cpp", "defs": ("KIND=%d" % k,), "fast": True} for k in (3, 4, 0, 1, 5, 2)] + [{"src": "ranges.cpp", "defs": ("KIND=%d" % k, "DEQUEVIEW"), "fast": True} for k in (3, 0, 1)],
            "bounds": {"quick": "6 mesh types and handle kinds, every subset of the cells of a small mesh: every walk of up to 5 iterator operations (++it, it++, --it, it--, copies, at every position) over every range of mesh, const mesh, element, segment, co-boundary and neighbours; views (ordered by id, and based on std::deque): every history of up to 4 operations out of {insert or erase two elements of each dimension, copy-construct, assign to a used view, self-assign, create a cell through the view}; all ranges of structured blocks of 6 to 20 cells in different numberings, with short walks from every position; element views of meshes and segments selected by every predicate", "thorough": "walks of 7, histories of 5 operations"},
            "assumptions": FASTASSUME},
    "P23": {"programs": [{"src": "derived.cpp", "defs": ("KIND=%d" % k,), "fast": True} for k in (4, 3, 5, 2, 1, 0)],
            "bounds": {"quick": "6 mesh types, every subset of the cells of small meshes (with separated, vertex- and edge-connected parts) and every assignment of cells to segments; quantity transfer between all pairs of different dimensions, mesh and segment, all source and destination filters of the groups; structured blocks of 6 to some hundred cells in up to 27 vertex, cell and corner numberings", "thorough": "more cells and orders"},
            "assumptions": FASTASSUME},
    "P24": {"programs": [{"src": "points.cpp", "defs": ("KIND=%d" % k,), "fast": True} for k in range(7)],
            "bounds": {"quick": "all points of integer grids in 1 to 3 dimensions, all pairs of them, all pairs of coordinate systems; all affine maps with small integer entries on small meshes", "thorough": "larger grids"},
            "assumptions": FASTASSUME},
    "P25": {"programs": [{"src": "copyel.cpp", "defs": ("KIND=%d" % k,), "fast": True} for k in range(10)],
            "bounds": {"quick": "10 combinations of mesh types, handle kinds and targets (meshes, segments, PLCs): every history of up to 3 copy operations (2 for 3 of them) out of every interface (vertex_copy_map, copy_element, copy_elements, copy_elements_by_handle, make_unique_vertex, copy) x every cell or facet x tolerances, onto targets which are empty or already hold vertices at, near or away from the copied ones; structured blocks of 6 to 32 cells in different numberings, a part copied through every interface and then all of them through every interface", "thorough": "one more operation"},
            "assumptions": FASTASSUME},
    "P26": {"programs": [{"src": "serial.cpp", "defs": ("KIND=%d" % k,)} for k in (4, 5, 1, 3, 0)],
            "bounds": {"quick": "5 mesh types: all vertex orders of two cells x 4 id assignments x 3 ways of reading two meshes from one archive, text and binary archives; every subset of the base cells with isolated vertices; every cut position of an archive, every number garbled or enlarged; structured blocks of 6 to some hundred cells in up to 27 vertex, cell and corner numberings", "thorough": "as quick"},
            "assumptions": ASSUME + ["Boost.Serialization of the sandbox"]},
}
