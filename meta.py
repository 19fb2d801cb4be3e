#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing; the outputs are committed)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = "viennagrid/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[V + f for f in files],
                  mech=[dict(name=n, where=V + w) for n, w in mech], technique=technique, note=note))


prop("C01", "Every mesh element exists exactly once, with all its boundary elements",
     "After any sequence of element creations, through the mesh or through any segment and with cells in any local vertex order, the mesh holds exactly one element of each type per set of vertices and exactly the elements of all dimensions generated by the created elements, no more and no fewer. "
     "Creating an element whose vertices are already connected by an element of that type yields the existing element. Vertex coordinates and stored vertex orders are those given at first creation.",
     ["inputs", "histories"], "all cell types and space dimensions of the shipped configurations; all complexes, manifold or not; all creation orders; creation through mesh and segments",
     "The tests build a handful of fixed meshes of two or three cells and mostly only print them; sharing errors depend on local vertex permutations and creation order.",
     ["element/element.hpp", "element/element_key.hpp", "storage/inserter.hpp", "storage/hidden_key_map.hpp", "mesh/element_creation.hpp", "mesh/mesh.hpp"],
     [("element key of sorted vertex ids", "element/element_key.hpp"), ("hidden key map", "storage/hidden_key_map.hpp"), ("recursive inserter", "storage/inserter.hpp")],
     "runtime monitor: set-based reference model over random build histories, under ASan+UBSan")
prop("C02", "Identifiers, handles and lookups always denote the same element",
     "Every element of a mesh has an identifier unique among the elements of its type; automatic identifiers never collide with ones given explicitly, and an explicit identifier is kept. "
     "Handles, dereferenced elements, index access, iteration and lookup by identifier or handle all agree on the same element, and stay valid while further elements are created. Looking up an identifier that does not exist reports the absence, and requesting a unique vertex at a location returns the existing vertex within the given tolerance (by default a millionth of the location's distance from the origin) and creates one otherwise.",
     ["histories"], "all interleavings of automatic and explicit identifiers, lookups, and growth, for all mesh types",
     "Tests never mix explicit and automatic ids and never look up absent ids; collisions only appear for particular orders.",
     ["storage/id_generator.hpp", "storage/id.hpp", "storage/handle.hpp", "storage/container.hpp", "storage/range.hpp", "mesh/mesh.hpp", "mesh/element_creation.hpp"],
     [("continuous id generator", "storage/id_generator.hpp"), ("handle to value dereference", "storage/handle.hpp"), ("find", "mesh/mesh.hpp")],
     "runtime monitor: shadow identity table compared after every few operations, under ASan+UBSan")
prop("C03", "Boundary elements follow the reference numbering and orientation of the cell",
     "For every element, its boundary elements of every dimension are enumerated in the documented reference order, and viewed through the element they list their vertices in the reference orientation of that element, whatever order the boundary element was first stored in. "
     "The number of boundary elements is that of the reference shape, for fixed shapes and for polygons of any number of vertices.",
     ["inputs", "histories"], "all cell types, all local vertex permutations and all orders in which neighbors create shared boundary elements",
     "Tests print boundary elements of one cell; the orientation of shared boundary elements depends on which neighbor created them.",
     ["topology/simplex.hpp", "topology/quadrilateral.hpp", "topology/hexahedron.hpp", "topology/polygon.hpp", "topology/line.hpp", "element/element.hpp", "element/element_orientation.hpp"],
     [("boundary element generators", "topology/"), ("permutation based orientation", "element/element_orientation.hpp")],
     "runtime monitor: independent reference tables compared for every boundary element, under ASan+UBSan")
prop("C04", "Coboundary iteration returns exactly the incident elements, always up to date",
     "For any element of a mesh or segment and any higher dimension, the coboundary range lists each incident element of that mesh or segment exactly once and nothing else. "
     "This holds no matter how queries are interleaved with further creations, with adding existing elements to segments, and with const or non-const access.",
     ["inputs", "histories"], "all element/coboundary dimension pairs, all meshes and segments, all interleavings of queries and modifications",
     "The test queries one fixed mesh once; staleness of the cached information needs query-modify-query histories.",
     ["mesh/coboundary_iteration.hpp", "mesh/mesh.hpp", "mesh/segmentation.hpp"],
     [("cached coboundary containers", "mesh/coboundary_iteration.hpp"), ("change counters", "mesh/mesh.hpp")],
     "runtime monitor: incidence model vs every query between modifications, under ASan+UBSan")
prop("C05", "Neighbor iteration returns exactly the connected elements, always up to date",
     "For any element of a mesh or segment and any lower connecting dimension, the neighbor range lists each other element of the same type that shares a connecting element of that mesh or segment exactly once, never the element itself and nothing else. "
     "This holds for all interleavings of queries with modifications of the mesh and of the segments.",
     ["inputs", "histories"], "all element/connector dimension pairs, all meshes and segments, all interleavings of queries and modifications",
     "No stable test checks neighbor sets; they are only iterated in an example.",
     ["mesh/neighbor_iteration.hpp", "mesh/coboundary_iteration.hpp", "mesh/mesh.hpp"],
     [("cached neighbor containers", "mesh/neighbor_iteration.hpp"), ("change counters", "mesh/mesh.hpp")],
     "runtime monitor: adjacency model vs every query between modifications, under ASan+UBSan")
prop("C06", "Boundary detection finds exactly the hull of a mesh or segment",
     "In a mesh or segment in which no facet belongs to more than two cells, a facet is reported as boundary exactly if it belongs to one cell of that mesh or segment, and any lower-dimensional element exactly if it lies on such a facet. "
     "Answers stay correct after any sequence of creations, deletions, assignments and segment membership changes, and the query of whether an element lies on the boundary of another element agrees with the vertices of both.",
     ["inputs", "histories"], "all element dimensions, meshes, segments and modification histories",
     "The test checks one fixed mesh per type without modifications between queries.",
     ["algorithm/boundary.hpp", "mesh/mesh.hpp", "mesh/segmentation.hpp"],
     [("boundary flag detection", "algorithm/boundary.hpp"), ("change counters", "mesh/mesh.hpp")],
     "runtime monitor: facet-count model vs all boundary queries along histories, under ASan+UBSan")
prop("C07", "Interface detection finds exactly what two segments share",
     "For two non-overlapping segments, each consisting of cells and all their boundary elements, a facet is reported as interface exactly if it has a cell in each of them, and a lower-dimensional element exactly if it lies on such a facet; the answer is symmetric in the segments. "
     "It stays correct after any sequence of modifications of the segments and with any number of segments in the segmentation.",
     ["inputs", "histories"], "all ordered segment pairs, element dimensions and modification histories",
     "The test checks two segments of one static mesh.",
     ["algorithm/interface.hpp", "mesh/segmentation.hpp"],
     [("interface flag detection", "algorithm/interface.hpp"), ("segment change counters", "mesh/segmentation.hpp")],
     "runtime monitor: shared-facet model vs all interface queries along histories, under ASan+UBSan")
prop("C08", "Segments hold exactly what was put into them",
     "After any sequence of segment creation, naming, element creation in a segment, adding and erasing elements, clearing segments and the segmentation, each segment contains exactly the elements added to it together with their boundary elements, minus erased ones; the segmentation covers exactly the union. "
     "Membership queries, the segment identifiers reported for an element, and lookups of segments by identifier, name or iteration agree with that, and a name collision is refused without changing any segment. This holds for configurations that store only some element types, and for segmentations of boundary hulls, which record the orientation of each facet per segment. A cleared or re-initialized segmentation is like a new one. Erasing from or clearing a segment never removes anything from the mesh.",
     ["histories"], "all interleavings of segmentation operations over several (overlapping) segments and mesh types",
     "The tests add two cells to two segments and rename once; removal, overlap and collisions are not exercised.",
     ["mesh/segmentation.hpp", "mesh/mesh.hpp", "mesh/mesh_operations.hpp", "storage/view.hpp"],
     [("segment views and element segment mapping", "mesh/segmentation.hpp"), ("recursive add/erase", "mesh/segmentation.hpp")],
     "runtime monitor: set model of segments along random histories, under ASan+UBSan")
prop("C09", "Copying, assigning and clearing yield independent equal meshes",
     "A copied or assigned mesh has the same elements, identifiers, coordinates and adjacency as its source and shares no state with it: later changes to, or destruction of, either never show in the other. "
     "Copying a segmented mesh reproduces its cells and their segment membership; self-assignment changes nothing; a cleared mesh behaves like a new one; copying selected elements reproduces exactly these.",
     ["histories"], "all interleavings of copy, assignment, clear, destruction and modification over several meshes",
     "Tests copy once and do not modify or destroy the source afterwards.",
     ["mesh/mesh.hpp", "mesh/segmented_mesh.hpp", "mesh/mesh_operations.hpp", "storage/inserter.hpp", "storage/handle.hpp"],
     [("mesh copy and handle rebinding", "mesh/mesh.hpp"), ("segmented mesh copy", "mesh/segmented_mesh.hpp")],
     "runtime monitor: one shadow model per mesh, compared after each operation, under ASan+UBSan")
prop("C10", "Deleting elements removes exactly their dependents and leaves a usable mesh",
     "Deleting a set of elements from a mesh removes exactly these elements and all elements having one of them on their boundary; all other elements keep their identifier, vertices and coordinates. "
     "Afterwards lookups of the removed elements report absence, and iteration, adjacency and boundary queries, element creation and further deletions work as on a mesh that never had them; views of the mesh follow.",
     ["histories"], "all deletion sets, element dimensions and interleavings with creation and queries, on meshes without segments and views of them",
     "No stable test deletes elements.",
     ["mesh/element_deletion.hpp", "mesh/mesh_operations.hpp", "mesh/mesh.hpp", "storage/container.hpp", "storage/view.hpp", "storage/hidden_key_map.hpp"],
     [("mark and erase of referencing elements", "mesh/element_deletion.hpp"), ("handle relocation on erase", "mesh/mesh.hpp")],
     "runtime monitor: shadow model along create/delete/query histories, under ASan+UBSan")
prop("C28", "Hull extraction and seed points describe the mesh they come from",
     "The extracted boundary of a mesh or segmentation is a mesh consisting of exactly one element per boundary facet, with the same coordinates and vertex order, each assigned to the segments whose hull it belongs to. "
     "Seed point extraction yields, for each segment, exactly one point per connected part of it, inside that part.",
     ["inputs", "histories"], "all meshes and segmentations in which facets have at most two cells",
     "No stable test covers hull extraction of segmentations or seed points.",
     ["algorithm/extract_boundary.hpp", "algorithm/extract_seed_points.hpp"],
     [("hull extraction", "algorithm/extract_boundary.hpp"), ("neighbor flood fill", "algorithm/extract_seed_points.hpp")],
     "runtime monitor: hull and connected-component oracle, under ASan+UBSan")
prop("C11", "Uniform refinement covers the mesh exactly and conforms",
     "Uniformly refining a triangular or tetrahedral mesh splits every edge at its midpoint and replaces every cell by cells that exactly cover it without overlap, 4 per triangle and 8 per tetrahedron; the total volume is unchanged and neighboring cells stay conforming. "
     "Each new cell lies in exactly the segments of its parent, the vertices of the input are kept, and the result can be refined again.",
     ["inputs"], "all triangle and tetrahedron meshes with cells, local vertex orders and segmentations, also after deletions",
     "The tests refine two fixed meshes and check the sum of volumes only, which misses overlaps that cancel, non-conforming diagonals and wrong segments.",
     ["algorithm/refine.hpp", "algorithm/detail/refine_tri.hpp", "algorithm/detail/refine_tet.hpp"],
     [("refine_impl", "algorithm/refine.hpp"), ("element refinement patterns", "algorithm/detail/refine_tet.hpp")],
     "runtime monitor: exact covering/conformity/segment oracle on refined meshes, under ASan+UBSan")
prop("C12", "Adaptive refinement splits exactly what is flagged and conforms",
     "Refining with flagged edges or cells splits exactly the flagged edges (for cells: the edges of the flagged cells) at their midpoints; every cell is replaced by non-overlapping cells exactly covering it, whatever combination of its edges is flagged, and neighbors stay conforming. "
     "Cells without flagged edges are unchanged and segment membership is inherited. The longest-edge closure only adds edges, until every cell with a flagged edge has its longest edge flagged.",
     ["inputs"], "all flag patterns on all triangle and tetrahedron meshes, local vertex orders, edge length orders and segmentations",
     "Tests use a few fixed patterns and compare total volume; the tetrahedron code has dozens of pattern and orientation cases.",
     ["algorithm/refine.hpp", "algorithm/detail/refine_tri.hpp", "algorithm/detail/refine_tet.hpp"],
     [("marked edge patterns", "algorithm/detail/refine_tet.hpp"), ("diagonal choice by length", "algorithm/detail/refine_tet.hpp"), ("longest edge closure", "algorithm/refine.hpp")],
     "runtime monitor: exact covering/conformity oracle over all edge flag patterns, under ASan+UBSan")
prop("C13", "Hyperplane refinement cuts the mesh along the plane",
     "Refining a triangular or tetrahedral mesh at a hyperplane yields a conforming mesh of the same region in which no cell has volume on both sides of the plane; all new vertices lie on the plane and on edges of the input that cross it, cells not crossed are unchanged and segments are inherited.",
     ["inputs"], "all planes (including ones missing the mesh or passing through vertices) and all triangle and tetrahedron meshes",
     "One fixed example is tested, by volume only.",
     ["algorithm/refine.hpp", "algorithm/detail/numeric.hpp", "algorithm/detail/refine_tet.hpp", "algorithm/detail/refine_tri.hpp"],
     [("hyperplane edge marking and intersection", "algorithm/refine.hpp")],
     "runtime monitor: side/cover/conformity oracle on cut meshes, under ASan+UBSan")
prop("C14", "Voronoi quantities are those of the dual boxes and add up to the mesh",
     "For lines, triangulations (cells of any shape; boxes clipped at the mesh boundary), rectangles, cuboids and well-centered tetrahedra, apply_voronoi on a mesh or segment yields for every edge the area of the interface dual to it, for every edge and vertex the volume of its box, and per-cell contributions that add up to these values. The vertex boxes add up to the volume of the mesh or segment.",
     ["inputs"], "all meshes of these classes and all segments of them, including obtuse triangles inside and at the boundary",
     "The test only checks that box volumes sum to the mesh volume for fixed meshes.",
     ["algorithm/voronoi.hpp", "algorithm/circumcenter.hpp", "algorithm/spanned_volume.hpp"],
     [("per cell type box computation", "algorithm/voronoi.hpp")],
     "runtime monitor: closed-formula oracle for every edge and vertex, under ASan+UBSan")
prop("C15", "Geometric quantities of elements, meshes and segments are exact up to round-off",
     "Volume and surface of every element, mesh and segment, centroids, circumcenters, normal vectors, angles, dihedral and solid angles, spanned and signed spanned volumes equal their mathematical values up to round-off, for any local vertex order, position, orientation and scale, with the stored points and with any other point accessor. Quadrilaterals are convex and planar and hexahedra have planar faces; polygons may be non-convex; centroids of quadrilaterals and hexahedra are meant for parallelograms and parallelepipeds, circumcenters for simplices, rectangles and cuboids. Degenerate (collinear or coplanar) arguments of angles and spanned volumes give the limit values, not NaN.",
     ["inputs"], "all cell types, all geometries within the stated shapes, all accessors",
     "Tests check a few unit-sized elements in reference position; wrong decompositions and accessor mix-ups only show for sheared, permuted or shifted elements.",
     ["algorithm/volume.hpp", "algorithm/surface.hpp", "algorithm/centroid.hpp", "algorithm/circumcenter.hpp", "algorithm/geometry.hpp", "algorithm/angle.hpp", "algorithm/spanned_volume.hpp"],
     [("element volume", "algorithm/volume.hpp"), ("angles", "algorithm/angle.hpp"), ("spanned volumes", "algorithm/spanned_volume.hpp")],
     "runtime monitor: independent closed formulas over random geometries, under ASan+UBSan")
prop("C16", "Distances, closest points and inclusion tests are those of the geometric sets",
     "The distance between a point or vertex and a vertex, line, triangle, convex planar quadrilateral, tetrahedron or hexahedron with planar faces, and between two lines that are parallel or clearly not parallel, is the minimal Euclidean distance of the two sets, symmetric in its arguments, with the default and with any explicit accessor. The closest points lie on their objects and attain that distance, in argument order for a point first and for two lines. "
     "Boundary distances are distances to the hull facets of the cell, mesh or segment. A line's distance to a segment is the minimum over the segment's lines. is_inside accepts all points of a triangle (in its plane) or tetrahedron, and rejects points outside by more than the tolerance, measured in barycentric coordinates.",
     ["inputs"], "all positions of points relative to elements including on vertices, edges, faces and in their planes; all meshes and segments",
     "Tests check about a hundred hand-picked lattice positions, for elements in one fixed vertex order.",
     ["algorithm/distance.hpp", "algorithm/closest_points.hpp", "algorithm/inclusion.hpp", "storage/view.hpp"],
     [("closest points", "algorithm/closest_points.hpp"), ("distance", "algorithm/distance.hpp"), ("point in element", "algorithm/inclusion.hpp")],
     "runtime monitor: convex-hull enumeration oracle over hostile query points, under ASan+UBSan")
prop("C17", "Points and coordinate systems behave as vectors and exact conversions",
     "Sum, difference, scaling, inner and cross products and norms of points, in any coordinate system and of mixed coordinate systems, denote the same geometric vectors as the corresponding Cartesian operations, up to round-off. Converting a point from one coordinate system to another and back gives the same point, and a conversion never changes the point denoted, in all quadrants and on the axes. Points of any dimension have element-wise arithmetic, comparison, minimum and maximum.",
     ["inputs"], "all supported coordinate systems and dimensions, all positions including axes and negative radii, all operators",
     "The test uses a few points in the first quadrant.",
     ["point.hpp", "algorithm/cross_prod.hpp", "algorithm/inner_prod.hpp", "algorithm/norm.hpp"],
     [("coordinate system conversion", "point.hpp"), ("point arithmetic", "point.hpp")],
     "runtime monitor: Cartesian reference arithmetic over random points, under ASan+UBSan")
prop("C18", "Transformations move exactly the points asked for; bounding boxes are tight",
     "scale, affine_transform and geometric_transform map every vertex of the mesh or segment exactly once, with the given factor, center, matrix (row major) and translation, through the stored points or the given accessor; vertices outside the segment, and the topology, stay as they were. "
     "bounding_box of a mesh, segment or point range is the componentwise minimum and maximum of exactly those points, mesh_size its diagonal. orthogonalize leaves pairwise orthogonal vectors spanning the same space at the front, linearly dependent ones at the end, and returns the rank.",
     ["inputs"], "all meshes, segments, scales, transformations and sequences of them",
     "The test scales one mesh around one center.",
     ["algorithm/geometric_transform.hpp", "algorithm/geometry.hpp"],
     [("vertex transformation", "algorithm/geometric_transform.hpp"), ("bounding box", "algorithm/geometry.hpp"), ("Gram-Schmidt", "algorithm/geometry.hpp")],
     "runtime monitor: shadow coordinates compared after every transformation, under ASan+UBSan")
prop("C19", "Accessors and fields are maps from elements to values",
     "An accessor or field, over a vector, deque or map, static or wrapped as a dynamic one, const or not, returns for an element exactly the value last stored for the element with that identifier through any accessor of the same container, also after more elements or data were created. "
     "Non-const access creates missing data; find reports missing data with a null pointer, at() with std::out_of_range, and const access through a field returns the field's default value. Only default-constructed accessors and fields are invalid. Point accessors read and write the coordinates of the vertex.",
     ["histories"], "all element dimensions, containers, value types, identifiers with gaps, interleavings of reads, writes and element creation",
     "Tests use accessors only as a tool with all data present.",
     ["accessor.hpp"],
     [("dense container accessor and field", "accessor.hpp"), ("map accessor and field", "accessor.hpp"), ("dynamic wrappers", "accessor.hpp")],
     "runtime monitor: shadow map over random access histories, under ASan+UBSan")
prop("C20", "Quantity transfer averages exactly the incident source values",
     "quantity_transfer between any two different dimensions, on a mesh or segment, calls the averager for each accepted destination element with at least one accepted incident source element with exactly the values of those source elements, each once, and stores its result once; elements rejected by the destination filter or outside the mesh or segment are not written.",
     ["inputs"], "all pairs of source and destination dimensions, meshes, segments, filters and averagers",
     "No test covers quantity transfer.",
     ["algorithm/quantity_transfer.hpp"],
     [("boundary and coboundary transfer", "algorithm/quantity_transfer.hpp")],
     "runtime monitor: incidence oracle from vertex sets, recording averager and setter, under ASan+UBSan")
prop("C21", "VTK files written and read reproduce the mesh, its segments and its data",
     "For a mesh of pairwise distinct points and cells, the .vtu and .pvd files produced by the VTK writer contain exactly the cells of the mesh or of each segment in VTK vertex order, their vertices to 15 significant digits, and every registered scalar and vector quantity, global or of one segment, on vertices and cells, of exactly the registered names (a field's default where data is missing; a name registered again replaces the former data). "
     "Reading such files, or other ASCII .vtu and .pvd files with the same order of sections (in any layout), into an empty mesh reproduces vertices, cells with their vertex order, membership of the segments with the given ids, shared cells and vertices only once, and all data: through accessors or fields registered globally or per segment, or queried afterwards by name, and the lists of names. A file that cannot be created is reported by an exception, and writers and readers can be reused. (A segmentation with fewer than two segments is written as the plain mesh.)",
     ["inputs", "histories"], "all VTK-supported mesh types (all but polygons), id gaps, overlapping and empty segments, data containers, array orders and formatting of third-party files",
     "Tests read two fixed files and write output nobody compares.",
     ["io/vtk_writer.hpp", "io/vtk_reader.hpp", "io/vtk_common.hpp", "io/xml_tag.hpp", "io/helper.hpp"],
     [("vertex to index map", "io/vtk_writer.hpp"), ("orientation of VTK cells", "io/vtk_common.hpp"), ("global point and cell maps", "io/vtk_reader.hpp"), ("XML tag parser", "io/xml_tag.hpp")],
     "runtime monitor: independent VTK parser and generator as oracles for written and read files, under ASan+UBSan")
prop("C22", "Mesh files of other tools are read completely and faithfully",
     "Reading a well-formed Netgen .mesh, Tetgen .poly, Neper .tess or Sentaurus .bnd file into an empty mesh yields exactly the vertices, cells or facets (with their lines, loose points and hole points), segments with the ids of the file, and the global hole and seed points that the file describes, in the order of the file and with its coordinates, regardless of layout, comments, gaps in the numbering or trailing content. "
     "All overloads (with and without segmentation, hole points or seed points) agree, output parameters hold only what the file contains, and a reader object gives the same result however often it was used before.",
     ["inputs", "histories"], "all well-formed files: Netgen for all fixed-shape mesh types, .poly and .tess for 3d PLC meshes, .bnd geometry for 2d/3d and its triangle reader; .poly polygons on one line, pairwise distinct facets, contacts after regions in .bnd",
     "Tests read one or two shipped files per format and only check that reading does not throw.",
     ["io/netgen_reader.hpp", "io/tetgen_poly_reader.hpp", "io/neper_tess_reader.hpp", "io/bnd_reader.hpp", "io/helper.hpp"],
     [("line by line state machine", "io/tetgen_poly_reader.hpp"), ("segment indices", "io/netgen_reader.hpp"), ("faces to lines to vertices", "io/neper_tess_reader.hpp"), ("regions and elements", "io/bnd_reader.hpp")],
     "runtime monitor: generated files with known content as oracle for everything read, under ASan+UBSan")
prop("C23", "vmesh, OpenDX and mphtxt output describes the mesh exactly",
     "The vmesh writer states the dimension, the numbers of vertices, cells and segments, and per segment id its vertices and cells. The OpenDX writer lists every vertex and every simplex cell once, cells refer to vertices by their position in the file, and the registered vertex data (or else cell data) appears in the matching order. "
     "The Comsol mphtxt writer lists all vertices, all tetrahedra with the domain of their segment (0 for none), and exactly the triangles that separate two different domains or bound the mesh, each with its vertices, the domains on its two sides, and one contact number per connected planar set of triangles separating the same domains. Files that cannot be opened are reported by an exception, and writers can be reused.",
     ["inputs", "histories"], "vmesh for all mesh types, OpenDX for line 1d, triangular 2d and tetrahedral 3d, mphtxt for tetrahedral meshes; id gaps, cells without segment; non-overlapping segments, at most one OpenDX quantity per location",
     "No stable test inspects the written files.",
     ["io/vmesh_writer.hpp", "io/opendx_writer.hpp", "io/mphtxt_writer.hpp", "io/helper.hpp"],
     [("vertex and cell numbering", "io/opendx_writer.hpp"), ("contact triangles and sides", "io/mphtxt_writer.hpp")],
     "runtime monitor: independent parsers of the written files compared with the mesh model, under ASan+UBSan")
prop("C24", "Damaged mesh files are reported, never trusted",
     "Given a missing file, an unknown extension, a file cut off inside the content it announces, a reference to a vertex, line, face or point that the file does not define, or text where a number is required, every mesh reader (VTK .vtu/.pvd, Netgen, Tetgen, Neper, .bnd) throws an exception derived from std::exception. "
     "For any other edit of a file the reader either throws such an exception or leaves a consistent mesh in which every element refers to existing vertices. It never crashes, reads or writes out of bounds, hangs or exhausts memory, and the reader object remains usable for further files.",
     ["inputs", "fault_sequences"], "all truncations and edits of files of all supported formats",
     "Tests only read intact files.",
     ["io/vtk_reader.hpp", "io/xml_tag.hpp", "io/netgen_reader.hpp", "io/tetgen_poly_reader.hpp", "io/neper_tess_reader.hpp", "io/bnd_reader.hpp", "io/helper.hpp"],
     [("bad_file_format_exception", "io/helper.hpp"), ("index and size checks", "io/vtk_reader.hpp"), ("XML tag parser", "io/xml_tag.hpp")],
     "runtime monitor: fault injection into generated files under ASan+UBSan, a watchdog and a memory limit")
prop("C25", "A mesh restored from a Boost archive is identical",
     "Saving a mesh through mesh_serializer to a Boost text or binary archive and restoring it into an empty mesh reproduces all vertices in order with identical coordinates and all cells in order with the same vertices in the same local order, whatever the vertex ids of the original are and however many meshes share the archive; the saved mesh is not changed. "
     "A serializer without mesh, a truncated text archive and a cell that refers to a vertex that is not in the archive are reported by an exception.",
     ["inputs", "fault_sequences"], "all mesh types with a fixed number of vertices per cell (not polygons), all coordinates and vertex id patterns",
     "The serialization test is disabled in the build; the header did not even compile.",
     ["io/serialization.hpp"],
     [("save and load", "io/serialization.hpp")],
     "runtime monitor: round trips compared with the mesh model, damaged archives, under ASan+UBSan")
prop("C27", "Copying elements reproduces them and merges vertices only within the tolerance",
     "copy_element, copy_elements, copy_elements_by_handle and vertex_copy_map create in the destination mesh or segment one element per copied element, with the same vertex order and coordinates, and leave source and existing destination content unchanged. Within one call (or one vertex_copy_map) every source vertex is copied once. "
     "With a positive tolerance a vertex is identified with an existing vertex of the destination (mesh or segment) closer than the tolerance and created otherwise; without tolerance it is never identified with one that was there before. The returned handle denotes the copy. Lines and facets can be copied to meshes of other types; copied PLCs keep lines, loose vertices and hole points.",
     ["inputs", "histories"], "all mesh types and PLCs, source id gaps, destinations empty or not, mesh or segment, sequences of copies from several sources, distances below, around and above the tolerance",
     "No test copies elements; a tutorial copies four triangles and prints them.",
     ["mesh/element_creation.hpp", "mesh/mesh_operations.hpp", "topology/plc.hpp"],
     [("make_unique_vertex", "mesh/element_creation.hpp"), ("vertex map per call", "mesh/element_creation.hpp"), ("vertex_copy_map", "mesh/mesh_operations.hpp")],
     "runtime monitor: pre/post relation of every copy operation checked on observed state, under ASan+UBSan")
prop("C26", "All ways of traversing a range visit the same elements in the same order",
     "A range over the elements of a mesh, a segment, the boundary, co-boundary or neighborhood of an element is one fixed sequence of elements: forward and backward iteration with prefix and postfix operators, starting anywhere, index access, iterator and positional handles, distances, size and emptiness all agree, for mutable and const ranges, obtained by construction, by generic or named function (vertices, lines, cells, ...) or visited by for_each, and for copies of ranges and iterators. "
     "Vertices and cells of a mesh appear in order of creation, with first and last element, reverse iteration and search by identifier to match; no range over a mesh, segment or segmentation lists an element twice, a filtered view holds exactly the accepted elements, and lookups by identifier or handle find exactly the elements in the mesh or segment.",
     ["inputs", "histories"], "all element dimensions of all mesh types, all range kinds and access forms, segments built by creation or by addition",
     "Tests only iterate forwards over mutable ranges.",
     ["storage/range.hpp", "storage/view.hpp", "storage/container.hpp", "storage/hidden_key_map.hpp", "mesh/mesh.hpp", "mesh/coboundary_iteration.hpp", "mesh/neighbor_iteration.hpp"],
     [("container range wrapper", "storage/range.hpp"), ("view iterators", "storage/view.hpp"), ("hidden key map iterators", "storage/hidden_key_map.hpp")],
     "runtime monitor: address-level consistency of all traversal forms, under ASan+UBSan")
prop("C29", "No memory error, no undefined value, nothing left allocated",
     "Whatever sequence of valid public operations is executed on meshes, segmentations, views, accessors, algorithms, readers and writers, including reading damaged files and writing to places that cannot be written, the library never accesses memory outside its objects or after their end, never lets a result or a decision depend on a value that was not initialised, never divides or converts in an undefined way, and never fails its own assertions. "
     "Once the objects involved are destroyed (readers, writers, segmentations and meshes, whether the operations succeeded or ended in an exception), everything they had allocated has been released. (Copies of readers and writers that hold registered data are excluded.)",
     ["inputs", "histories"], "all histories of the other properties, for all mesh types",
     "The tests run without sanitizers and free nothing they could compare; such errors depend on the history and rarely change the outcome of a test.",
     ["storage/", "mesh/", "element/", "algorithm/", "io/", "accessor.hpp"],
     [("owned field wrappers", "io/vtk_writer.hpp"), ("owned accessor wrappers", "io/vtk_reader.hpp"), ("segment storage and view references", "mesh/segmentation.hpp"), ("container views", "storage/view.hpp")],
     "runtime monitor: heap accounting per repeated case under ASan+UBSan, valgrind memcheck for uninitialised values")
prop("C30", "Threads reading one mesh or working on own meshes do not influence each other",
     "Several threads may at the same time read one mesh with its segments, accessors and fields (ranges, points, volumes, distances, boundary, interface, co-boundary and neighbor queries once made since the last modification, whole-mesh algorithms, copying the mesh, refining or extracting its hull into objects of their own, writing it to different files), and may write the data of different elements through accessors and fields of containers that already hold an entry for them, as in the documented OpenMP loops over ranges: "
     "there is no data race, and every thread obtains exactly what a single thread obtains. Threads that build, query, modify and destroy meshes, segmentations, readers and writers of their own never influence each other.",
     ["schedules", "inputs"], "two to four threads, all operation orders, meshes with and without segments",
     "No test uses more than one thread; a hidden shared cache or static variable changes results only under particular schedules.",
     ["mesh/", "storage/", "algorithm/", "accessor.hpp", "io/vtk_writer.hpp", "io/vtk_reader.hpp", "io/opendx_writer.hpp", "io/vmesh_writer.hpp"],
     [("cached co-boundaries and neighbors with change counters", "mesh/mesh.hpp"), ("boundary and interface information", "algorithm/boundary.hpp"), ("reference tables and orientation", "topology/"), ("dense accessors", "accessor.hpp")],
     "runtime monitor: ThreadSanitizer on stressed concurrent workloads, results compared with sequential execution")
prop("C31", "The same history gives the same results wherever objects lie in memory",
     "Repeating a sequence of operations gives identical results: all ranges over meshes, segments, co-boundaries and neighborhoods list the same elements with the same identifiers in the same order, computed values agree to the last bit, refined meshes, hulls and copies have the same vertices and elements in the same order, and written files are equal byte by byte. "
     "Nothing observable depends on memory addresses, on former contents of memory or on what was executed before with other objects.",
     ["histories", "configurations"], "all operation sequences, all address orders an allocator may produce, mesh types with triangles, quadrilaterals, tetrahedra and hexahedra",
     "A test executes once per process with an allocator that hands out ascending addresses; differences would only appear between machines.",
     ["storage/container.hpp", "storage/view.hpp", "mesh/segmentation.hpp", "mesh/coboundary_iteration.hpp", "mesh/neighbor_iteration.hpp", "algorithm/", "io/"],
     [("elements of segments ordered by identifier", "storage/container.hpp"), ("elements found by vertex identifiers", "element/element_key.hpp"), ("maps keyed by handles", "algorithm/voronoi.hpp")],
     "runtime monitor: repeated execution under an address-permuting allocator, results compared bit by bit")
#MORE
P.sort(key=lambda p: p["id"])
NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=p["mech"], hook_needed=None))) + "\n")
    checks = []
    for p in P:
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"],
                           technique=p["technique"], level="exploration",
                           level_note=p["note"] or "Held on the recorded executions of the real code, judged by an independent oracle and the sanitizers; says nothing about inputs the seeded generators do not reach. Trusts the compiler, the sanitizer runtimes and the oracle."))
    json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=NA,
                   notes="No hooks in /repo are needed: everything is observed through the public API and the sanitizers. known_findings.json lists repaired and open defects."),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
