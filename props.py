"""Which harness units decide which property (see DESIGN.md)."""
KINDS = ["line1d", "line2d", "line3d", "tri2d", "tri3d", "quad2d", "quad3d", "poly2d", "poly3d", "tet3d", "hex3d"]
HEAVY = {9: 3, 10: 3, 3: 2, 4: 2}


def per_kind(src, prop, kinds, quick, thorough, **kw):
    us = []
    for k in kinds:
        q = quick[k] if isinstance(quick, dict) else quick
        t = thorough[k] if isinstance(thorough, dict) else thorough
        us.append(dict(name="%s_%s" % (src, KINDS[k]), src=src + ".cpp", defs=["KIND=%d" % k, "PROP=%d" % prop], quick=q, thorough=t, weight=HEAVY.get(k, 1), **kw))
    return us


ALL = list(range(11))


def thin(prop, *units):
    return [dict(name="thin%d" % u, src="thin.cpp", defs=["PROP=%d" % prop, "UNIT=%d" % u], quick=300, thorough=10000, weight=2) for u in units]


def plc(prop):
    return [dict(name="plc", src="plc.cpp", defs=["PROP=%d" % prop], quick=400, thorough=20000, weight=1)]


GEN = ("Cases are random conforming or arbitrary complexes (grids with dropped cells, jittered points, permuted local vertex orders, shuffled "
       "vertex and cell order, duplicated cells) built through the public API; a case is non-trivial and distinct when its final combinatorial state hashes differently and holds at least two cells. ")

PROPS = {}
PROPS["C01"] = dict(units=per_kind("topo", 1, ALL, 200, 6000) + thin(1, 0) + plc(1), rule=GEN + "After every few operations the whole mesh is compared with a set-based model of its elements.",
                    need=["cell-via-mesh", "cell-via-segment", "cell-added-twice", "non-manifold-complex", "explicit-line-existing", "explicit-line-new", "explicit-facet-existing", "explicit-facet-new", "elements-checked-dim2", "cells-compared", "plc-made", "plc-line-existing", "plc-loose"])
PROPS["C02"] = dict(units=per_kind("topo", 2, ALL, 150, 4000), rule=GEN + "Identifiers, handles, index access and lookups of every element are compared with a shadow table after every few operations.",
                    need=["explicit-vertex-id", "explicit-cell-id", "auto-id-after-explicit", "lookups", "negative-lookups", "unique-vertex-merged", "unique-vertex-created", "default-tolerance-merged", "default-tolerance-created"])
PROPS["C03"] = dict(units=per_kind("topo", 3, ALL, 200, 5000), rule=GEN + "Every boundary element of every cell is compared with the documented reference tables, in order and orientation.",
                    need=["oriented-boundary-elements", "stored-order-differs-from-local"])

HIST = "Cases are random histories of public operations on small complexes; a case is distinct when the final combinatorial state hashes differently. "
PROPS["C04"] = dict(units=per_kind("adj", 4, ALL, 150, 4000) + thin(4, 0) + plc(4) + per_kind("wrap", 4, [3, 9], 800, 20000), rule=GEN + "Every co-boundary query of every element of the mesh and of its segments is compared with the model between modifications.",
                    need=["long-runs", "very-long-runs", "mesh-queries", "segment-queries", "query-after-modification", "empty-coboundary", "coboundary-3+", "add-existing-to-segment", "thin-coboundaries", "plc-coboundaries"])
PROPS["C05"] = dict(units=per_kind("adj", 5, ALL, 150, 4000) + thin(5, 0) + per_kind("wrap", 5, [3, 9], 800, 20000), rule=GEN + "Every neighbor query (through every connector dimension) of the mesh and of its segments is compared with the model between modifications.",
                    need=["long-runs", "very-long-runs", "mesh-queries", "segment-queries", "query-after-modification", "neighbors-4+", "no-neighbors", "add-existing-to-segment", "thin-neighbors"])
PROPS["C06"] = dict(units=per_kind("bnd", 6, ALL, 200, 5000) + per_kind("wrap", 6, [3, 9], 800, 20000), rule=HIST + "Boundary flags of all elements of the mesh and of every segment are compared with the facets that have exactly one cell.",
                    need=["long-runs", "very-long-runs", "boundary-elements", "interior-elements", "segments-checked", "cell-left-segment", "segment-cleared", "cells-shared", "erased-from-mesh", "mesh-reassigned", "host-element-queries"])
PROPS["C07"] = dict(units=per_kind("bnd", 7, ALL, 200, 5000) + per_kind("wrap", 7, [3, 9], 800, 20000), rule=HIST + "Interface flags of all elements for all ordered segment pairs are compared with the facets shared by cells of both segments.",
                    need=["long-runs", "very-long-runs", "interface-elements", "non-interface-elements", "cell-joined-segment", "segment-cleared", "segment-rebuilt"])
PROPS["C08"] = dict(units=per_kind("seg", 8, ALL, 150, 4000) + thin(8, 0, 1) + plc(8), rule=HIST + "Segment views, union view, segment ids, membership, names and lookups are compared with a set model.",
                    need=["added-again", "added-cell", "added-lower-element", "cell-made-in-segment", "vertex-made-in-segment", "erased-cell", "erased-lower-element", "name-collision", "rename-collision", "renamed", "segment-cleared", "segmentation-cleared", "segmentation-copied", "own-auto-name", "renamed-to-own-name", "hull", "thin-hull", "info-read", "variant-erased", "shared-elements", "unsegmented-elements", "segmentation-moved", "same-segments", "plc-made-in-segment", "plc-added"])
PROPS["C09"] = dict(units=per_kind("life", 9, ALL, 120, 4000) + plc(9), rule=HIST + "Several meshes copied, assigned, cleared and modified in turn are each compared with an own shadow model.",
                    need=["copy-constructed", "assigned", "assigned-over-nonempty", "self-assigned", "cleared", "copy-destroyed", "selective-copy", "segmented-mesh-copies", "segmented-mesh-self-assigned", "plc-mesh-copied"])
PROPS["C10"] = dict(units=per_kind("life", 10, ALL, 120, 4000) + thin(10, 0) + plc(10), rule=HIST + "After each deletion the mesh, its lookups, co-boundary and boundary queries are compared with a shadow model.",
                    need=["erase-cell", "erase-vertex", "erase-line", "erase-facet", "erase-batch", "erase-from-view", "deleted-lookup", "coboundary-queries", "boundary-queries", "thin-vertex-erased", "plc-erased", "plc-line-erased", "plc-vertex-erased"])
PROPS["C28"] = dict(units=per_kind("bnd", 28, ALL, 200, 5000), rule=HIST + "Hull meshes (plain and segmented) and seed points are compared with the facets having one cell and with connected components computed by the oracle.",
                    need=["mesh-hulls", "segmentation-hulls", "shared-hull-elements", "seed-queries", "several-parts"])

PROPS["C11"] = dict(units=per_kind("refine", 11, [3, 4, 9], 1200, 40000), rule=GEN + "Each refined mesh is compared with an independently derived refinement: new points at edge midpoints, children covering their parent, conforming facets, segments and maps.",
                    need=["large-mesh", "uniform-plain", "uniform-segmented", "maps-checked", "second-level", "after-deletions", "cells-in-several-segments"])
PROPS["C12"] = dict(units=per_kind("refine", 12, [3, 4, 9], 1500, 40000), rule=GEN + "Edges or cells are flagged at random; every possible pattern of marked edges in a cell is recorded; the refined mesh must split exactly the flagged edges, cover each parent exactly and conform.",
                    need=["by-cells", "by-edges", "chain-of-growing-cells", "longest-edge-closure", "closure-added-edges", "after-deletions", "cells-in-several-segments"] + ["cell-with-%d-marked-edges" % i for i in range(1, 7)])
PROPS["C13"] = dict(units=per_kind("refine", 13, [3, 4, 9], 1200, 40000), rule=GEN + "Random planes (missing, cutting, or passing through vertices); no cell of the result may cross the plane, and it must cover the input exactly and conform.",
                    need=["plane-cuts-mesh", "plane-misses-mesh", "mesh-far-from-origin", "scaled-mesh", "hyperplane-plain", "hyperplane-segmented", "cell-with-1-marked-edges", "cell-with-2-marked-edges", "cell-with-3-marked-edges", "cell-with-4-marked-edges"])
PROPS["C14"] = dict(units=per_kind("voronoi", 14, [0, 1, 2, 3, 5, 6, 9, 10], 600, 20000), rule=GEN + "All interface areas, vertex and edge box volumes and the per-cell contributions are compared with closed formulas derived independently; their sum with the volume of the mesh.",
                    need=["meshes", "segments", "circumcenter-beyond-boundary", "circumcenter-in-other-cell", "circumcenter-inside", "closed-ring-meshes"])
PROPS["C15"] = dict(units=per_kind("geom", 15, ALL, 400, 15000), rule=GEN + "Points are deformed by projective maps, rotations, scalings over six orders of magnitude and translations; every element's volume, surface, centroid, circumcenter and normal is compared with independent formulas.",
                    need=["mesh", "segment", "mesh-centroids", "cell-surfaces", "centroids", "circumcenters", "angles", "solid-angles", "wide-solid-angles", "dihedral-angles", "spanned-volumes", "normals", "extremal-edges", "non-convex-polygons", "polygons", "projective-images"])
PROPS["C16"] = dict(units=per_kind("dist", 16, ALL, 250, 8000), rule=GEN + "Query points are random, far, on vertices, edges, faces and in the planes of elements; every distance and pair of closest points is compared with a convex-hull enumeration.",
                    need=["point-dim0", "point-dim1", "point-dim2", "point-dim3", "vertex-dim0", "vertex-dim1", "vertex-dim2", "vertex-dim3", "touching", "apart", "parallel-lines", "meeting-lines", "skew-lines", "boundary-mesh", "boundary-segment", "boundary-cell", "boundary-cell-cell", "boundary-cell-mesh", "boundary-cell-segment", "boundary-segment-segment", "line-segment", "inside", "outside", "within-tolerance", "lattice-cases", "element-first", "boundary-swapped", "boundary-cell-vertex"])

PTS = ["cartesian1", "cartesian2", "cartesian3", "polar", "spherical", "cylindrical", "float3", "float-polar"]
PROPS["C17"] = dict(units=[dict(name="pts", src="pts.cpp", defs=["PROP=17"], quick=4000, thorough=300000)], rule="Random points in every coordinate system, in all octants, on axes and planes; every operator and conversion is compared with Cartesian reference arithmetic. Distinct cases by point hash.",
                    need=["algebra-" + x for x in PTS] + ["convert-" + x for x in ["c2-polar", "polar-c2", "c3-spherical", "spherical-c3", "c3-cylindrical", "cylindrical-c3", "spherical-cylindrical", "cylindrical-spherical"]] + ["high-dimension"])
PROPS["C18"] = dict(units=per_kind("xform", 18, ALL, 400, 15000), rule=GEN + "Sequences of transformations of meshes and segments over ten orders of magnitude; coordinates, boxes and sizes are compared with a shadow after each.",
                    need=["scale-origin", "scale-center", "affine", "affine-no-translation", "functor", "accessor", "segment-transforms", "mesh-transforms", "box-mesh", "box-segment", "box-range", "orthogonalize-dependent", "orthogonalize-independent"])
PROPS["C19"] = dict(units=per_kind("acc", 19, ALL, 120, 5000), rule=HIST + "Reads and writes through several accessors, fields and dynamic wrappers of one container are compared with a shadow map.",
                    need=["vector", "deque", "map", "dynamic", "const-container", "created", "overwritten", "out-of-range", "field-default", "id-gaps", "elements-created-meanwhile", "points", "collections"])
PROPS["C20"] = dict(units=per_kind("acc", 20, ALL, 120, 4000), rule=GEN + "Every pair of dimensions is transferred with random data and filters; the averager and setter record their calls.",
                    need=["mesh-up", "mesh-down", "segment-up", "segment-down", "filtered-destination", "no-source", "several-sources", "single-source", "repeated-values"])

VTK_KINDS = [0, 1, 2, 3, 4, 5, 6, 9, 10]
PROPS["C21"] = dict(units=per_kind("vtk", 21, VTK_KINDS, 250, 8000), rule=GEN + "Files are written by a reused writer and parsed independently, then read back by a reused reader; further files are generated in third-party style. Distinct cases by coordinates and connectivity.",
                    need=["huge-mesh", "unwritable-file", "unwritable-segment-file", "wrote-plain", "wrote-segmented", "foreign-vtu", "foreign-pvd", "foreign-subdirectory", "foreign-array-order", "foreign-unused-points", "foreign-repeated-point", "foreign-no-components", "cell-in-two-segments", "cell-without-segment", "empty-part", "id-gaps", "export_vtk", "import_vtk", "re-registered", "missing-data-default", "read-queried", "read-registered-global", "read-registered-segment", "registered-by-segment", "queried-by-segment",
                          "read-with-segmentation", "read-without-segmentation", "file-cell-scalars", "file-cell-vectors", "file-vertex-scalars", "file-vertex-vectors", "writer-and-reader-reused"])

NETGEN_KINDS = [0, 1, 2, 3, 4, 5, 6, 9, 10]


def reader_units(prop, quick, thorough):
    us = [dict(name="netgen_" + KINDS[k], src="readers.cpp", defs=["FMT=0", "KIND=%d" % k, "PROP=%d" % prop], quick=quick, thorough=thorough, weight=HEAVY.get(k, 1)) for k in NETGEN_KINDS]
    us.append(dict(name="plc", src="readers.cpp", defs=["FMT=1", "PROP=%d" % prop], quick=2 * quick, thorough=2 * thorough, weight=3))
    us.append(dict(name="bnd", src="readers.cpp", defs=["FMT=2", "KIND=4", "PROP=%d" % prop], quick=quick, thorough=thorough, weight=2))
    return us


PROPS["C22"] = dict(units=reader_units(22, 400, 12000), rule="Netgen, Tetgen .poly, Neper .tess and Sentaurus .bnd files are generated from random content in many layouts; the mesh, segments, hole and seed points are compared with that content. Distinct cases by content hash.",
                    need=["huge-mesh", "files", "reader-reused", "netgen-with-segmentation", "netgen-without-segmentation", "netgen-cells", "no-cells", "segment-index-gaps", "trailing-content", "comments", "carriage-returns", "facet-holes", "hole-count-omitted", "loose-lines", "loose-vertices", "poly-facets", "poly-holes-read", "poly-seeds-read", "poly-short",
                          "tess-facets", "tess-seeds-read", "vertex-id-gaps", "vertex-ids-in-any-order", "bnd-cells", "contacts", "dimension-mismatch", "helper-2d", "helper-3d", "helper-reused", "region-with-several-elements", "shared-faces"])
PROPS["C23"] = dict(units=per_kind("writers", 23, [0, 1, 3, 5, 7, 9, 10], 250, 8000), rule=GEN + "Files of the vmesh, OpenDX and Comsol mphtxt writers are parsed independently and compared with the mesh, its segments and data.",
                    need=["huge-mesh", "vmesh", "dx", "dx-vertex-data", "dx-cell-data", "mphtxt", "mphtxt-interface", "mphtxt-outer", "mphtxt-no-segment", "mphtxt-shared-contact", "unwritable-file", "id-gaps", "no-segments", "cell-without-segment", "writer-reused"])
PROPS["C24"] = dict(units=reader_units(24, 400, 12000) + per_kind("vtk", 24, [0, 3, 5, 9], 250, 8000), rule="Valid files of every supported format are damaged (cut, tokens, lines and bytes edited, references and counts changed, files missing); the reader must throw or leave a consistent mesh and stay usable. Distinct cases by damaged content.",
                    need=["missing-file", "cut-reported", "cut-at-section", "dangling-reference", "garbage-number", "garbage-size", "count-too-large", "short-line", "random-edit", "reported", "accepted", "valid-file-after-damage", "missing-piece", "bad-extension", "truncated"])
PROPS["C25"] = dict(units=per_kind("ser", 25, [0, 1, 2, 3, 4, 5, 6, 9, 10], 250, 8000, libs=["-lboost_serialization"]), rule=GEN + "Meshes are saved to and restored from text and binary Boost archives; coordinates must be bit-identical and cells must have the same vertices in the same order.",
                    need=["binary", "text", "file", "id-gaps", "several-meshes-in-one-archive", "no-mesh", "truncated", "unknown-vertex", "empty-mesh", "huge-mesh"])
PROPS["C27"] = dict(units=per_kind("copy", 27, ALL, 200, 8000) + [dict(name="copy_plc", src="copy.cpp", defs=["PLC_COPY", "PROP=27"], quick=500, thorough=20000)], rule=GEN + "Elements of two source meshes are copied one by one, by range, by handle and through a vertex map into meshes and segments; the destination is compared before and after each operation.",
                    need=["copy_element", "copy_elements", "copy_elements_by_handle", "vertex_copy_map", "vertex-copied", "into-segment", "merged-vertices", "new-vertices", "non-empty-destination", "with-tolerance", "without-tolerance", "distances-around-tolerance", "near-source", "other-mesh-type", "lower-by-element", "lower-by-handle", "id-gaps", "plc-by-handle", "plc-by-range", "plc-holes", "plc-loose-vertices"])
PROPS["C26"] = dict(units=per_kind("ranges", 26, ALL, 80, 4000), rule=GEN + "Every range over elements of meshes, segments, boundaries, co-boundaries and neighborhoods, const or not and however obtained, is traversed forwards, backwards, by index, handle and from the middle.",
                    need=["mesh-range", "const-mesh-range", "segment-range", "const-segment-range", "elements()", "elements() const", "const range of mutable", "boundary-range", "const-boundary-range", "coboundary-range", "const-coboundary-range", "coboundary of element", "neighbor-range", "const-neighbor-range", "neighbors of element", "empty-range", "front-back", "range-find", "named-ranges", "filtered-views", "proper-views", "for-each", "not-in-segment", "segmentation-ranges"])


# C29 repeats the histories of the other properties with allocation accounting (ASan) or under valgrind (uninitialised values)
def memory_units():
    us = []

    def add(src, of, q, t, defs=(), mode="LEAKS", **kw):
        name = "%s_%s_%d%s" % ("heap" if mode == "LEAKS" else "init", src, of, "_" + KINDS[kw["kind"]] if "kind" in kw else "")
        d = dict(name=name, src=src + ".cpp", defs=[mode, "PROP=%d" % of] + (["KIND=%d" % kw["kind"]] if "kind" in kw else []) + list(defs), quick=q, thorough=t, weight=HEAVY.get(kw.get("kind"), 1))
        d["as"] = "C%02d" % of
        if mode == "MEMCHECK":
            d.update(san=[], wrap=["valgrind", "-q", "--error-exitcode=86", "--exit-on-first-error=yes", "--leak-check=no"], case_timeout=600)
        if src == "ser":
            d["libs"] = ["-lboost_serialization"]
        us.append(d)
    for src, of, kind, q in [("topo", 1, 9, 60), ("adj", 5, 4, 60), ("bnd", 28, 9, 60), ("seg", 8, 9, 60), ("life", 9, 9, 60), ("life", 10, 10, 50), ("refine", 11, 9, 100), ("refine", 12, 3, 100),
                             ("voronoi", 14, 9, 60), ("acc", 19, 9, 60), ("acc", 20, 3, 60), ("vtk", 21, 9, 100), ("vtk", 24, 3, 100), ("writers", 23, 9, 80), ("ser", 25, 3, 80), ("copy", 27, 9, 80), ("ranges", 26, 5, 30)]:
        add(src, of, q, 40 * q, kind=kind)
    add("readers", 22, 200, 6000, ["FMT=1"])
    add("readers", 24, 200, 6000, ["FMT=0"], kind=9)
    add("readers", 24, 200, 6000, ["FMT=2"], kind=4)
    add("plc", 10, 200, 6000)
    add("thin", 8, 100, 3000, ["UNIT=1"])
    for src, of, kind, q in [("bnd", 6, 9, 30), ("seg", 8, 4, 40), ("life", 10, 9, 25), ("refine", 12, 9, 60), ("refine", 13, 3, 60), ("voronoi", 14, 3, 60), ("geom", 15, 9, 30), ("dist", 16, 4, 40), ("xform", 18, 9, 40),
                             ("acc", 19, 3, 30), ("vtk", 21, 3, 50), ("vtk", 24, 9, 40), ("writers", 23, 9, 40), ("ser", 25, 9, 40)]:
        add(src, of, q, 40 * q, mode="MEMCHECK", kind=kind)
    add("readers", 24, 60, 3000, ["FMT=1"], mode="MEMCHECK")
    add("readers", 22, 60, 3000, ["FMT=0"], mode="MEMCHECK", kind=3)
    add("thin", 8, 60, 3000, ["UNIT=1"], mode="MEMCHECK")
    return us


PROPS["C29"] = dict(units=memory_units(), rule="The histories of the other properties (mesh construction, segments, deletion, refinement, algorithms, every reader and writer, also with damaged files and unwritable targets) are repeated: each case three times with all heap allocations accounted under ASan and UBSan, and once under valgrind. Distinct cases by final state as for those properties.",
                    need=["case-accounted", "memcheck-case", "allocations", "deallocations", "reported", "wrote-segmented", "dx-vertex-data", "erase-vertex", "segmentation-copied", "copy-destroyed"],
                    monitors=["ASan", "UBSan", "libstdc++ assertions", "library assert()", "heap accounting per case", "valgrind memcheck"])

PROPS["C30"] = dict(units=per_kind("par", 30, [3, 5, 6, 9, 10], 100, 3000, san=["-fsanitize=thread"], flags=["-pthread"]), rule=GEN + "Two to four threads started together make every query about every cell in orders of their own, run whole-mesh algorithms and writers on the shared mesh, fill data of disjoint elements and build, modify and destroy meshes of their own, under ThreadSanitizer; each result is compared with that of a single thread.",
                    need=["threads", "concurrent-cell-reads", "concurrent-writes", "concurrent-own-meshes", "with-segments"],
                    monitors=["ThreadSanitizer", "libstdc++ assertions", "library assert()", "comparison with sequential results"])

PROPS["C31"] = dict(units=per_kind("repro", 31, [3, 5, 6, 9, 10], 150, 5000, san=["-fsanitize=undefined", "-fno-sanitize-recover=all"]), rule=GEN + "Each history (creation, segments, queries, algorithms, refinement, files written and read, deletion, copies) is executed four times in one process with the allocator handing out addresses in four different orders; all results, in the order obtained, must be identical bit by bit.",
                    need=["executions", "results-compared", "placed-allocations", "read-back", "refined", "erased", "segments-changed"],
                    monitors=["address-permuting allocator", "UBSan", "libstdc++ assertions", "library assert()", "comparison of executions"])
