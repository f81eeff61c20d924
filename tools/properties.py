"""Property texts (source of properties.jsonl and MANIFEST.json)."""
T = "TLA+ specification checked with TLC; recorded behaviours of the real code validated against it by TLC (trace validation)"
TG = "TLA+ specification checked with TLC; inputs enumerated by TLC are replayed into the real code and its answers validated by TLC"


def q(over, text):
    return {"over": over, "text": text}


def anchors(files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return a


PROPS = [
    dict(id="C01", title="A mesh holds each simplex of the input's closure exactly once",
         statement="Building a conforming mesh from a list of declared points, segments, triangles and tetrahedra yields exactly one cell per "
                   "distinct simplex of their closure, with ids equal to list positions, complete sub-cell lists in the reference order of the "
                   "cell's own vertices, and points unchanged. Every declared simplex keeps its physical tag and every other cell has none, "
                   "whatever the order of declaration, local vertex order or dimension mix.",
         quantifier=q(["inputs"], "All finite simplicial declarations in dimension 0 to 3: any vertex order, tags, declaration order and partial declaration of lower-dimensional simplices."),
         why_tests_cant="The tests build a handful of gmsh geometries and look at a few properties after fracture cutting; they never compare the cells with the closure of the declaration.",
         anchors=anchors(["src/mesh/mesh.py", "src/mesh/mesh_cell.py"],
                         [("cell creation through entity dictionaries keyed by sorted nodes", "src/mesh/mesh.py"), ("sub-cell lists", "src/mesh/mesh_cell.py")],
                         ["Mesh.cells, Mesh.points after build_conformal_mesh"]),
         technique=TG,
         level_note="TLC exhausts the construction model over small complexes and every generated declaration sequence is replayed into the real builder; "
                    "larger random complexes are trace-validated. Trusts meshio's reader and the projection of cells to JSON."),
    dict(id="C02", title="Mesh graphs and neighbour queries report exactly the incidences",
         statement="The incidence graph between two dimensions has exactly the cells of the higher dimension (restricted to the selected physical tags) and "
                   "their sub-cells as nodes and exactly the is-a-face-of pairs as edges. Entity lists, higher/lower neighbours, boundary facets, bounding facets of a cell and "
                   "closures derived from it agree with that relation.",
         quantifier=q(["inputs", "configurations"], "All meshes of dimension 1 to 3, all dimension pairs and all selections of physical tags, including untagged and unused tags."),
         why_tests_cant="Tests only check counts on ten fractured gmsh meshes; no test compares a graph with the incidence relation or uses tag-restricted graphs.",
         anchors=anchors(["src/mesh/mesh.py", "src/mesh/mesh_topology.py", "src/mesh/topological_queries.py"],
                         [("graph construction", "src/mesh/mesh.py"), ("entity maps by dimension", "src/mesh/mesh_topology.py")]),
         technique=T,
         level_note="The incidence relation is defined in TLA+ from the cells' vertex sets only and compared with every graph and query on random complexes with all tag selections drawn; sampling, not proof, beyond the model's bound."),
    dict(id="C03", title="Degree-of-freedom numbering is a gap-free, conforming bijection",
         statement="For every family, order, dimension, component count and continuity, the numbers handed out for a discrete space are exactly 0..n-1 (plus the base shift), "
                   "each mesh entity owns one contiguous block sized by the family, and cells sharing an entity report the same block while different entities never share a number. "
                   "Elements are exactly the cells of the selected tags, boundary elements the facets of the selected boundary tags, and a boundary destination equals the facet's own blocks seen from every neighbour.",
         quantifier=q(["inputs", "configurations", "histories"], "All meshes, tag selections, element families and orders, component counts, continuous or discontinuous, including rebuilding a space with other tags."),
         why_tests_cant="No test builds a space with elements: the only tests that reach this code select no physical tag, hence zero elements.",
         anchors=anchors(["src/spaces/discrete_space.py", "src/spaces/dof_map.py", "src/basis/finite_element.py", "src/basis/element_family.py"],
                         [("entity blocks", "src/spaces/dof_map.py"), ("element selection", "src/spaces/discrete_space.py")]),
         technique=T,
         level_note="The layout model is checked exhaustively on small complexes for three families; all families and orders are trace-validated on random meshes. Expected entity sizes come from closed formulas in the specification, not from the code or basix."),
    dict(id="C04", title="Fields of a product space occupy disjoint consecutive blocks",
         statement="A product space numbers its fields one after the other in declaration order, so an element's destinations are its per-field destinations moved by the sizes of the earlier fields plus the global shift, "
                   "concatenated in that order, on the interior as on the boundary. Fields with equal selections list their elements in the same order. Rebuilding leaves nothing of an earlier build behind, and an invalid shift is refused.",
         quantifier=q(["inputs", "configurations", "histories"], "All combinations of fields (dimensions 0 to 3, families, orders, components, selections), all sequences of build, rebuild and shift assignments."),
         why_tests_cant="Tests never query a destination of a product space.",
         anchors=anchors(["src/spaces/product_space.py", "src/spaces/discrete_space.py"], [("stride accumulation and shift", "src/spaces/product_space.py")]),
         technique=T,
         level_note="Block-layout model checked exhaustively for up to three fields with rebuilds and shifts; real product spaces with one to four fields are trace-validated over random build/shift/rebuild histories."),
    dict(id="C05", title="Global assembly equals the sum of all scattered local contributions",
         statement="Assembling a list of forms evaluates each listed item exactly once, in order, with the state restricted to that item's degrees of freedom (both sides for interface forms, the first state of the pair for time-dependent boundary forms, the given time), "
                   "and adds each local vector and matrix entry at its destination, including repeated destinations. What the global vector and matrix held before is kept, and the states are not modified.",
         quantifier=q(["inputs", "programs", "histories"], "All sequences of the six form types with arbitrary weak forms, element sequences (repeated, partial, permuted), states and initial contents."),
         why_tests_cant="No test runs the assembler; examples only show one fixed list of forms.",
         anchors=anchors(["src/assembly/SequentialAssembler.py", "src/assembly/ScatterFormData.py"],
                         [("scatter functions per form type", "src/assembly/ScatterFormData.py"), ("dispatch", "src/assembly/SequentialAssembler.py")]),
         technique=T,
         level_note="Order independence and completeness are model-checked for all two-item work lists over three unknowns; real assemblies with integer-valued probe weak forms are replayed step by step against the specification, so sums are compared exactly. Trusts PETSc's matrix."),
    dict(id="C06", title="Cutting along embedded fractures separates exactly the two sides",
         statement="After a fractured planar mesh is cut, two triangles share a copy of a vertex exactly when one reaches the other around that vertex without crossing a fracture, or the vertex is an uncut tip; every fracture edge is replaced by two coincident edges, "
                   "one per side, carrying the side's physical tag. No coordinate, tag, cell or other edge of the original mesh changes, face lists stay ordered and consistent, and the returned map pairs each fracture edge with its two sides.",
         quantifier=q(["inputs", "configurations"], "All triangulations with any set of straight interior or boundary-reaching fractures, crossing or not, tagged or untagged vertices and edges, in both the fracture-network and the embedded-shape version."),
         why_tests_cant="The tests cut five fixed gmsh geometries and only check that walking round the skin of the first fracture closes.",
         anchors=anchors(["src/mesh/mesh.py"], [("edge and vertex duplication", "src/mesh/mesh.py")], ["Mesh.cells, Mesh.points and the returned map"]),
         technique=T,
         level_note="All sets of one or two admissible fractures on small sheared grids, in every cutting order, are model-checked; real cuts on random integer grids (up to 5x5 squares, four crossing fractures) are validated exactly. "
                    "T-junctions (a tip on another fracture) and fractures ending untagged inside the domain are outside the property: the mesher always tags ends."),
    dict(id="C07", title="Cutting along straight lines separates exactly the two sides",
         statement="After a planar mesh is cut along straight lines of edges, two triangles share a copy of a vertex exactly when one reaches the other around it without crossing a line, or the vertex is marked as internal boundary; every line edge gets one clone per side. "
                   "Clones carry the requested clone tags, the line's own cells keep their vertices, nothing else changes, and the returned interface lists each line cell with its positive and negative clone.",
         quantifier=q(["inputs", "configurations", "histories"], "All triangulations and sequences of straight lines (any slope, crossing or not, one edge or many, ends marked or on the domain boundary)."),
         why_tests_cant="No test cuts along a line.",
         anchors=anchors(["src/mesh/mesh_operations.py", "src/mesh/mesh.py", "src/mesh/mesh_cell.py"],
                         [("side classification and re-pointing", "src/mesh/mesh_operations.py"), ("cell and point append", "src/mesh/mesh.py")]),
         technique=T,
         level_note="Same model as for fractures; random integer grids with sheared lines validate the real cut exactly, including successive crossing lines. The displaced (visual) variant is not claimed."),
    dict(id="C08", title="Point, segment and triangle predicates answer exactly",
         statement="Asked whether a point lies on a segment or triangle, or where two segments meet, the library answers as the exact geometry of the input does: nothing is reported if and only if the sets are disjoint, and a single common point is reported at its true position. "
                   "Overlapping segments report points of the overlap (all ends of the contained one). Versions over lists give the single answers in order, with masks aligned to the input and duplicates removed on request.",
         quantifier=q(["inputs"], "All non-degenerate points, segments and triangles on integer grids, scaled, translated and rotated: crossings, touching ends, collinear, parallel, skew and near-miss positions."),
         why_tests_cant="The tests evaluate a few hand-picked configurations; they never try containment in both orders, skew lines or near misses systematically.",
         anchors=anchors(["src/geometry/operations/line_geometry_operations.py", "src/geometry/operations/point_geometry_operations.py"],
                         [("segment intersection", "src/geometry/operations/line_geometry_operations.py"), ("incidence predicates", "src/geometry/operations/point_geometry_operations.py")]),
         technique=T,
         level_note="The decision procedure is model-checked against the definition for every pair of segments of a 4x4 planar and a 2x2x2 (thorough 3x3x3) grid; the real functions are compared with exact integer verdicts on thousands of random cases. Resolution 1e-4 of the grid spacing; tolerances are probed down to grid spacing 2^-12."),
    dict(id="C09", title="Polygon queries answer exactly for points and segments",
         statement="A planar polygon placed anywhere in space is convex exactly when all its turns agree, has the right-handed unit normal of its vertex order, and is triangulated without gaps or overhang (a fan of one triangle per side when convex). "
                   "A point belongs to it, and a segment meets it (or a triangle), exactly as in exact geometry: a segment crossing the plane reports its one crossing point, a segment in the plane reports its crossings with the boundary, never more than two points and none outside. "
                   "List versions give the single answers in order with aligned masks.",
         quantifier=q(["inputs"], "All strictly convex polygons in arbitrary planes and all simple polygons whose sides are Delaunay edges of their vertices, in both orders and from any starting vertex; points and segments anywhere."),
         why_tests_cant="The tests use one or two polygons in fixed vertex order; the normal, and with it every query, failed for many other orders.",
         anchors=anchors(["src/geometry/operations/polygon_geometry_operations.py", "src/geometry/operations/line_geometry_operations.py", "src/geometry/operations/point_geometry_operations.py"],
                         [("triangulation and normal", "src/geometry/operations/polygon_geometry_operations.py"), ("segment-triangle intersection", "src/geometry/operations/line_geometry_operations.py")]),
         technique=T,
         level_note="The exact membership rule is model-checked against triangulation for all quadrilaterals of a 3x3 (thorough 4x4) grid; real answers on random polygons are decided exactly in integers. Polygons with non-Delaunay sides are a listed finding (part of the area is left out)."),
    dict(id="C10", title="Cutting and joining one-dimensional domains keeps geometry and tags",
         statement="The difference of a domain of segments with a set of points replaces each segment carrying points by its consecutive pieces, with the segment's physical tag, fresh distinct tags and separate vertices at inner points; other segments are kept. "
                   "The union then joins exactly the pieces that meet at a point through that point's own vertex, losing no end. The intersection has one freshly tagged vertex per point on a segment. "
                   "Single vertex and edge intersections and collapses agree with exact geometry, and no operation changes its inputs except a requested collapse.",
         quantifier=q(["inputs", "histories"], "All sets of segments over shared or separate vertices (overlapping, crossing, touching, planar or spatial) with any distinct tool points on, at the ends of, or off them, including the domain's own vertices."),
         why_tests_cant="The tests cover one line and seven fixed planar layouts and compare node lists of graphs only in the first.",
         anchors=anchors(["src/topology/operations/domain_operations.py", "src/topology/operations/vertex_operations.py", "src/topology/operations/edge_operations.py", "src/topology/domain.py"],
                         [("difference, union, intersection", "src/topology/operations/domain_operations.py"), ("chain of pieces", "src/topology/operations/vertex_operations.py"), ("domain registry and graph", "src/topology/domain.py")]),
         technique=T,
         level_note="Cutting point by point in every order is model-checked against the chain definition and for conformity (pairs of segments on a 4x4 grid, thorough: triples on 3x3); real operations on random configurations are decided exactly."),
    dict(id="C12", title="Box and fractured-box domains are conforming, closed and correctly tagged",
         statement="A box domain has exactly the given corners, its sides in loop order as one closed consistently oriented wire (in 3D six closed faces with every edge in two of them), and the requested physical tags. "
                   "With fractures, sides and fractures are cut at every meeting point and everything outside is dropped: the edges are exactly the conforming pieces, each place has one vertex tagged as boundary contact, crossing or fracture end, "
                   "the wire is still the closed ordered boundary, tags are distinct, and the face embeds every edge.",
         quantifier=q(["inputs", "configurations"], "All convex boxes in any position, orientation and number of sides, with any non-overlapping fractures: crossing, touching, meeting on the boundary or at corners, sticking out or outside."),
         why_tests_cant="Tests build two fixed fractured boxes and only mesh them; a wire in wrong order or a duplicated tag goes unnoticed there.",
         anchors=anchors(["src/topology/domain_market.py", "src/topology/wire.py", "src/topology/domain.py"],
                         [("fractured box", "src/topology/domain_market.py"), ("orientation", "src/topology/wire.py"), ("domain graph", "src/topology/domain.py")]),
         technique=T,
         level_note="Conformity of cutting at all meeting points is model-checked (shared with C10); built domains on random convex boxes with integral meeting points are compared exactly with the specification's pieces."),
    dict(id="C13", title="Neighbouring cells agree on the functions they share",
         statement="Evaluated from either side, the basis functions addressed by one global index have the same trace on the common facet: the value (Lagrange), the flux through it (RT, BDM) or the circulation along it (N1E, N2E). "
                   "Functions addressed by one side only vanish there, exactly the functions of the facet have a trace, and discontinuous spaces share none. Delivered derivatives are those of the delivered functions.",
         quantifier=q(["inputs", "configurations"], "All simplicial meshes of dimension 1 to 3 placed anywhere in space, any local vertex order, tagged or untagged facets, every family, orders up to 5, any number of components; "
                      "cells equally oriented for RT, BDM and (with all vector families) for lines along the x-axis."),
         why_tests_cant="Projection tests use a few gmsh meshes whose vertex orders exercise a part of the edge and face orientations, with orders too low to notice a wrong rotation.",
         anchors=anchors(["src/basis/permute_and_transform.py", "src/basis/finite_element.py", "src/geometry/mapping.py"],
                         [("orientation of shared functions", "src/basis/permute_and_transform.py"), ("mapped basis", "src/basis/finite_element.py")]),
         technique=T,
         level_note="The orientation rule is model-checked for every pair of local orders of two tetrahedra; the real orders of face and edge functions and the real traces on random meshes are compared with it. Values are compared to 2e-5."),
    dict(id="C18", title="The L2 projection reproduces the fields of the space and keeps moments",
         statement="l2_projector returns coefficients whose field equals the given function wherever that function belongs to the space, for every family, order, number of components and product of spaces, continuous or discontinuous; "
                   "for any other polynomial (within the quadrature's exactness) the projection has the same moments as the function against every field of the space - per cell for discontinuous spaces. "
                   "This holds whatever the size of the cells, the solver variant and the dof shift the space carries.",
         quantifier=q(["inputs", "configurations"], "All simplicial meshes of dimension 1 to 3 of any cell size, lines and planes anywhere in space for Lagrange fields, any local vertex order (equally oriented cells for RT and BDM; vector families on lines along the x-axis), polynomial data."),
         why_tests_cant="The projection tests use unit-sized gmsh meshes with one function per order; on small cells the mass matrix was dropped silently.",
         anchors=anchors(["src/postprocess/projectors.py", "src/weak_forms/l2_projector_weak_form.py", "src/spaces/product_space.py"],
                         [("projector", "src/postprocess/projectors.py"), ("local mass matrix and moments", "src/weak_forms/l2_projector_weak_form.py")]),
         technique=T,
         level_note="Membership in the space, values and moments are decided in exact (modular) arithmetic by the specification, whose calculus is model-checked (exactness on monomials, additivity under bisection, product rule, divergence theorem)."),
    dict(id="C23", title="Reported errors and norms are the exact integrals",
         statement="l2_error, l2_error_projected, div_error, div_scaled_error (divergence of a weight times the flux), grad_error, devia_l2_error, l2_norm, div_norm and devia_l2_norm return, for every field not skipped and in field order, the square root of the exact integral over the whole mesh of the squared difference "
                   "(or field, divergence, gradient, deviatoric part about the mean over the domain) for polynomial data, independent of cell size, vertex order and dof shift.",
         quantifier=q(["inputs", "configurations"], "All simplicial meshes of dimension 1 to 3, products of up to three fields of any families and orders in any order, skipped fields, polynomial exact functions up to the largest order of the product."),
         why_tests_cant="No test calls any of these but l2_error, and only to see it vanish for one projected function.",
         anchors=anchors(["src/postprocess/l2_error_post_processor.py", "src/postprocess/solution_norms_post_processor.py"],
                         [("errors", "src/postprocess/l2_error_post_processor.py"), ("norms", "src/postprocess/solution_norms_post_processor.py")]),
         technique=T,
         level_note="Squared results times a known denominator must be integers with the residue the specification computes by an exact rule that is model-checked against monomial integrals and the divergence theorem."),
    dict(id="C25", title="Every weak form delivers the matrix, load and boundary terms of its problem",
         statement="For every state w and test field v of its product space, the element matrix J and vector r a weak form returns satisfy v.J.w = the integral of the problem's bilinear form over the cell and v.r = the integral of its load (or residual): "
                   "Laplace primal and dual, degenerate and unscaled elliptic, scaled-to-physical projection, elasticity (primal, Taylor-Hood, stress, stress constraint) and Cosserat elasticity (primal, dual, scaled dual), the Riesz maps, "
                   "and their Dirichlet, Neumann and normal boundary forms with the outward normal. The vectorized evaluation returns the same as the plain one.",
         quantifier=q(["inputs", "configurations"], "All simplicial meshes of dimension 1 to 3 (those the form supports), any vertex order for Lagrange fields, orders of every field up to 3 (1D, 2D) and 2 (3D), variable coefficients (positive polynomials and their inverses), polynomial loads and boundary data within the quadrature's exactness; auto-differentiated forms under a shim for the numpy name the installed auto_diff misses."),
         why_tests_cant="Only six of the thirty forms occur in tests, on one mesh each with constant coefficients, and only through errors of a solved problem; the auto-differentiated forms cannot run at all with the installed numpy.",
         anchors=anchors(["src/weak_forms/*.py", "src/basis/finite_element.py", "src/geometry/mapping.py", "src/geometry/compute_normal.py"],
                         [("forms", "src/weak_forms"), ("facet traces used by boundary forms", "src/basis/parametric_transformation.py")]),
         technique=T,
         level_note="The specification states each form pointwise; the design model shows on manufactured solutions that domain plus boundary terms vanish for every test field, that the forms are symmetric (or have the energy as diagonal) and that fields with the prescribed values meet the weak conditions. The code's values are compared in exact modular arithmetic."),
    dict(id="C15", title="Cell maps, facet embeddings, normals, traces and mesh sizes are exact",
         statement="For every cell of a mesh and any reference point: the map sends it to the affine combination of the cell's vertices, the Jacobian holds the edge vectors, the determinant is positive and its square the Gram determinant, and the inverse is the pseudo-inverse. "
                   "For every facet of a cell, in any vertex order: a facet reference point is lifted to the cell reference point of the same physical position, the normal is the unit outward normal within the cell's plane, and the trace of a discrete field from either neighbour equals the field at the facet point (its normal flux when only the facet's own functions are asked for). "
                   "Centroid, diameter and minimum, mean and maximum mesh size of a dimension or physical group are those of its cells.",
         quantifier=q(["inputs", "configurations"], "All simplicial meshes of dimension 1 to 3 in 3D space (also curved lines and surfaces), any vertex order of cells and facets, scales 2^-12 to 2^12, every supported family (order up to 3, in 3D 2), one to three components."),
         why_tests_cant="Tests touch these maps only through errors of solved problems on a few gmsh meshes; facet vertex orders, both neighbours, skewed and embedded cells and trace functions are not sampled, and trace_discrete_space is never called.",
         anchors=anchors(["src/geometry/mapping.py", "src/geometry/compute_normal.py", "src/basis/parametric_transformation.py", "src/basis/basis_trace.py", "src/mesh/mesh_metrics.py", "src/basis/finite_element.py"],
                         [("maps and pseudo-inverse", "src/geometry/mapping.py"), ("facet embedding", "src/basis/parametric_transformation.py"), ("facet traces", "src/basis/basis_trace.py")]),
         technique=T,
         level_note="GeomMC shows by exhaustive enumeration of small integer simplices that the specified facet embedding preserves physical points, that the normal is orthogonal, outward and in the cell's plane, and that normals of all facets weighted by measure cancel; the code's floating point values are matched to the integers they must be (scaled), for random meshes."),
    dict(id="C20", title="Exported files hold the exact field values, errors and meshes",
         statement="A result file shows every cell of the field's support (or of the mesh) once with all points in place; each field's point value is the mean over the attached cells that carry it, its cell value the value at the centroid, the exact solution's value its function there, and the pointwise error the norm of their difference; outside the support there is zero (not-a-number in the several-spaces writer). "
                   "The geometric mesh written by dimension holds exactly the declared cells of each dimension with their physical and entity tags, and the text dump lists every cell of the mesh with its nodes, tag and sub-cells.",
         quantifier=q(["inputs", "configurations"], "All five writers, simplicial meshes of dimension 1 to 3, fields of every family (order up to 3, in 3D 2; constants), one to three components, continuous or discontinuous, on all or part of the mesh, several product spaces sharing one vector by shifts, point or cell centred; coincident physical tag numbers across dimensions."),
         why_tests_cant="No test reads an exported file; partial supports, discontinuous fields, vector fields and tag collisions are never exported in tests.",
         anchors=anchors(["src/postprocess/solution_post_processor.py", "src/mesh/mesh.py"],
                         [("result files", "src/postprocess/solution_post_processor.py"), ("mesh files: write_vtk, write_data", "src/mesh/mesh.py")]),
         technique=T,
         level_note="ExportMC explores every order of gathering cell values and shows the mean independent of it and confined to the support; files written by the code are read back with meshio and every number is compared with its exact value."),
    dict(id="C19", title="Meshes generated from domains subdivide them exactly and carry their tags",
         statement="A mesh generated from a segment, a network of segments, a convex box (with fractures) or a box in space covers the domain exactly once with non-degenerate cells carrying the domain's tag; every boundary side and every fracture piece is a chain of mesh facets carrying exactly its tag and no other facet carries it; crossing points, ends and meeting points with sides are mesh points carrying their tags. "
                   "Each requested refinement splits every cell into 2^d, steps along the curves are about the requested size, and curves with a requested number of points have exactly that many.",
         quantifier=q(["inputs", "configurations"], "DiscreteDomain, ConformalMesher and GeometryBuilder with FractureNetwork (meshed repeatedly) on convex polygons with any number of sides in either order, any fractures meeting at lattice points (through-going, touching sides or corners, crossing, dense grids), planar networks, sheared 3D boxes, placed anywhere in space; target sizes, up to two refinements, curve point counts."),
         why_tests_cant="Tests mesh a unit square with a few given fractures and look at fluxes or counts; no test checks that the mesh covers the domain or where the tags ended up.",
         anchors=anchors(["src/mesh/discrete_domain.py", "src/mesh/conformal_mesher.py", "src/topology/domain_market.py", "src/geometry/geometry_builder.py"],
                         [("DiscreteDomain", "src/mesh/discrete_domain.py"), ("ConformalMesher.generate_from_domain, generate", "src/mesh/conformal_mesher.py")]),
         technique=T,
         level_note="MeshingMC bisects, flips and damages meshes of a fractured square in every order and shows that the local conditions judged on the real meshes hold exactly when the cells cover the domain once and respect the fracture."),
    dict(id="C11", title="Planar fracture networks are cut exactly where their fractures meet",
         statement="For every set of straight fractures in a plane whose common points are single points, the network has exactly one vertex per fracture end and per meeting point, shared by every fracture through it; each fracture that meets another is listed as a chain of pieces from its first to its second end joining consecutive meeting points, carrying its tag; fractures that meet nothing stay whole; crossing vertices carry the pair of two of their fractures' tags, which can be undone exactly. "
                   "The network's graphs connect each cell to its boundary and pieces and nothing else, and two segments are reported as meeting exactly when they do, with the common point or stretch.",
         quantifier=q(["inputs", "histories"], "networks of up to seven fractures of any direction on lattices up to 12, common ends, stars, touching ends, collinear neighbours; any dyadic scale, offset and reflection; consecutive use of one instance; id shifts; pairs of segments in each coordinate plane; pairs of tags up to 20000."),
         why_tests_cant="Tests build one network of a few fractures and look at the number of cells; whether every crossing is a shared vertex and every chain is complete needs exact arithmetic over arbitrary networks.",
         anchors=anchors(["src/geometry/fracture_network.py", "src/geometry/operations/triangle_triangle_intersection_test.py"],
                         [("FractureNetwork.intersect_1D_fractures", "src/geometry/fracture_network.py"), ("FractureNetwork.build_grahp", "src/geometry/fracture_network.py"), ("line_line_intersection", "src/geometry/operations/triangle_triangle_intersection_test.py")]),
         technique=T,
         level_note="NetworkMC visits the pairs of every three fractures on a 3x3 lattice in every order, one vertex at a time, and shows that the result is the one the verdicts expect whatever the order."),
    dict(id="C14", title="Boxes with lines from a file are split into shared pieces at every meeting",
         statement="For every convex box and every file of lines inside it whose common points (also with the sides) are single points, build_box_2D_with_lines keeps one edge per side and per line, with its tag; an edge that meets others is listed with its pieces, joining consecutive meeting points from end to end, and every place (corner, line end, meeting point) has exactly one vertex, used by all edges through it, with a fresh physical tag of its own exactly at meeting points. "
                   "All shapes of one dimension carry different tags, the boundary wire is the closed path of the pieces of the sides with consistent orientation signs, and the graph links exactly the shapes to what bounds and what is embedded in them. embed_vertex_in_edge splits an edge by exactly the vertices strictly between its ends, and read_fractures_file returns the numbers of the file.",
         quantifier=q(["inputs"], "convex polygons of three to about seven sides on lattices up to 12, up to nine lines anywhere inside, on the rim, through corners, touching, sharing ends, collinear; any dyadic scale, offset, reflection and planar rotation; edges in space with up to six vertices on their line in any order, repeated, at the ends or outside."),
         why_tests_cant="Tests read seven fixed files and compare a few neighbours in the graph; whether each arrangement is split completely with unique tags and a closed wire needs an exact expected arrangement for arbitrary lines.",
         anchors=anchors(["src/topology/domain_market.py", "src/topology/shape_manipulation.py", "src/topology/domain.py", "src/topology/wire.py"],
                         [("build_box_2D_with_lines", "src/topology/domain_market.py"), ("intersect_edges", "src/topology/shape_manipulation.py"), ("embed_vertex_in_edge", "src/topology/shape_manipulation.py"), ("retag_shapes_with_dimension", "src/topology/domain.py")]),
         technique=T,
         level_note="FracBoxMC cuts a box with every pair (three) of lines of a 3x3 lattice edge by edge in every order and renumbers the shapes: conforming pieces, one vertex per place, distinct tags whatever the order."),
    dict(id="C16", title="Shapes compare, contain, assign, renumber and span graphs by their structure",
         statement="For every history of changes to a set of shapes (tags, places, boundary and immersed lists, assignment), two shapes are equal exactly when dimension, tag, place and all boundary and immersed members agree recursively; a shape contains another exactly when an equal one is among its members; assignment copies every attribute and nothing else changes; members of a higher dimension are refused without effect. "
                   "For every domain the graph holds exactly the links from the shapes of the asked dimension down to vertices, the queries (greatest tags, shapes with a tag, vertex at a point) answer for exactly the listed shapes, unknown vertices are dropped, and renumbering gives all shapes of a dimension different tags and changes nothing else. A wire along a path carries signs, ordered vertices and end points of that path.",
         quantifier=q(["inputs", "histories"], "heaps of up to about 20 shapes of all seven kinds with repeated or distinct tags and places; histories of up to 14 operations; domains of dimension 1 to 3 listed in any order; paths of up to six edges in any sense, closed or open, some in pieces."),
         why_tests_cant="Tests build a few regular domains and never compare, assign or search shapes with repeated tags, aliased members or mixed kinds; the guarantees quantify over all structures and histories.",
         anchors=anchors(["src/topology/shape.py", "src/topology/vertex.py", "src/topology/wire.py", "src/topology/domain.py"],
                         [("Shape.__eq__", "src/topology/shape.py"), ("Shape.shape_assignment", "src/topology/shape.py"), ("Domain.build_grahp", "src/topology/domain.py"), ("Domain.retag_shapes", "src/topology/domain.py"), ("Wire.orient_immersed_vertices", "src/topology/wire.py")]),
         technique=T,
         level_note="ShapesMC explores all histories of two (thorough: three) changes on a heap of three vertices, two edges and two wires: equality is an equivalence that respects membership, assignment makes equal, distinct tags give the graph one node per shape."),
    dict(id="C17", title="Growing and rewiring a mesh keeps identifiers, places and shared parts",
         statement="For every history of operations on a loaded mesh: appended points get the next node tags and no point moves; a batch of cells is taken with its identifiers exactly when none is in use, and otherwise refused without effect; copies of cells are independent of the mesh; copied vertices get nodes of their own at the same places; exchanging faces rewires exactly the given cells, in their face lists and node lists, and cells of mixed dimension are refused; the incidence graphs and position queries answer for the mesh as it is now. "
                   "Exchanging nodes of an incidence graph moves exactly their predecessors to the new nodes. A mesh filled cell by cell holds one cell per description, with identifiers in order of arrival.",
         quantifier=q(["inputs", "histories"], "meshes of dimension 1 to 3 of up to about 60 cells; histories of 3 to 10 operations (splits of several cells at several vertices, stray copies, refused batches, maps of single cells); batches whose new identifiers are the next ones; exchanged faces belong to the given cells and every face is exchanged at most once."),
         why_tests_cant="Tests reach these operations only through one cut of a planar mesh; order, repetition, refused batches, three-dimensional meshes and aliasing between copies are never sampled.",
         anchors=anchors(["src/mesh/mesh.py", "src/mesh/mesh_operations.py", "src/mesh/mesh_cell.py"],
                         [("Mesh.append_cells", "src/mesh/mesh.py"), ("Mesh.insert_cell_data", "src/mesh/mesh.py"), ("update_cells_with_cell_pairs", "src/mesh/mesh_operations.py"), ("duplicate_mesh_points_from_0d_cells", "src/mesh/mesh_operations.py"), ("MeshCell.clone", "src/mesh/mesh_cell.py")]),
         technique=T,
         level_note="MeshEditMC explores all histories of four (thorough: six) operations on two triangles: identifiers stay positions, nodes follow vertices, faces stay in their cells, no place changes, and split triangles share nothing."),
    dict(id="C21", title="A problem whose solution lies in the discrete spaces is solved exactly",
         statement="Assembling a weak form with its boundary conditions over a mesh with SequentialAssembler and solving the linear system returns the exact solution whenever that solution is in the product space: Laplace in primal and mixed form, degenerate and unscaled elliptic, elasticity (primal, Taylor-Hood, mixed with weak symmetry) and Cosserat elasticity (primal, mixed, scaled), with values prescribed on the boundary and tractions on some facets, for variable coefficients.",
         quantifier=q(["inputs", "configurations"], "All simplicial meshes of dimension 1 to 3 (the dimensions each form supports) with equally oriented cells for fluxes, solvable choices of spaces with orders up to 3, polynomial solutions in the space, positive polynomial or constant coefficients within the quadrature's exactness, any split of the boundary into prescribed values and (at most two) facets with prescribed flow, any order of assembly."),
         why_tests_cant="No test assembles or solves a boundary value problem; the examples print error tables that nobody compares.",
         anchors=anchors(["src/assembly/SequentialAssembler.py", "src/assembly/ScatterFormData.py", "src/spaces/product_space.py", "src/weak_forms/laplace_dual_weak_form.py", "src/weak_forms/lce_dual_weak_form.py"],
                         [("assembly loop", "src/assembly/SequentialAssembler.py"), ("scatter of cells and boundary facets", "src/assembly/ScatterFormData.py"), ("degrees of freedom of a product", "src/spaces/product_space.py"), ("forms and boundary forms", "src/weak_forms")]),
         technique=T,
         level_note="The specification decides that the posed problem is solved in the strong sense (identity of polynomials) and what every sampled value must be; SolveMC shows that the strong statement holds exactly for the manufactured problems whose weak balance WeakFormsMC checks, and that any disturbance is seen weakly."),
]
NOT_APPLICABLE = []
