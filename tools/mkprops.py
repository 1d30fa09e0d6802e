#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("P01", "Reducing a point into the first Brillouin zone conserves it",
  "For every lattice and every wavevector Q, moving Q into the first Brillouin zone yields q and tau with Q = q + tau, where every component of tau is an integer and q lies inside the closed first zone: no reciprocal lattice point is closer to q than the origin. The result is the same for any requested number of threads and does not depend on the other points of the batch.",
  ["inputs", "configurations", "schedules"],
  "all lattices (every Bravais type and centring, given by lengths and angles or by a space group), all Q including points on zone faces, edges and corners and far outside, any batch, any thread count",
  "The tests move a few hundred random points of a few lattices in floating point and only compare q + tau with Q and the zone's own membership test with itself; boundary points, centred lattices and the independence from batch and threads are not sampled.",
  ["src/bz_move.cpp", "src/bz.hpp", "src/bz.cpp", "src/polyhedron_faces.cpp"],
  [("BrillouinZone::moveinto", "src/bz_move.cpp"), ("BrillouinZone::isinside / get_normals", "src/bz.cpp")],
  ["return values of moveinto and isinside"])

p("P02", "Irreducible reduction returns an equivalent point and the operation used",
  "For every lattice with symmetry and every wavevector Q, moving Q into the irreducible zone yields q inside the irreducible polyhedron, an integer tau and an operation R of the point group (with time reversal or inversion where it applies) such that Q = R q + tau in the stated convention, together with the index of the inverse operation. The answer holds for every point of a batch, at every thread count.",
  ["inputs", "configurations", "schedules"],
  "all space groups and centrings, all Q, with and without time-reversal symmetry, primitive and conventional zones, any thread count",
  "Tests sample a few lattices with random interior points; the identity must hold for all 48 operations, boundary points and settings, and for each row of a parallel loop.",
  ["src/bz_move.cpp", "src/bz_wedge.cpp", "src/pointsymmetry.cpp", "src/bz.hpp"],
  [("BrillouinZone::ir_moveinto, ir_moveinto_wedge", "src/bz_move.cpp"), ("PointSymmetry::get_inverse_index", "src/pointsymmetry.cpp")],
  ["return values of ir_moveinto and ir_moveinto_wedge"])

p("P03", "The irreducible zone covers the Brillouin zone exactly once under symmetry",
  "For every lattice for which an irreducible zone is found, every point of the first Brillouin zone is equivalent by a point group operation to a point of the irreducible zone, and two different points in its interior are never equivalent. Its volume times the order of the point group equals the volume of the first zone.",
  ["inputs", "configurations"],
  "all space groups in all settings, lattice parameters compatible with them, with and without time reversal, all points of the zone",
  "Tests construct a list of lattices and check that construction does not fail; whether the pieces tile is a statement about all points of the zone.",
  ["src/bz_wedge.cpp", "src/bz.cpp", "src/bz.hpp", "src/pointsymmetry.cpp", "src/polyhedron_faces.cpp"],
  [("BrillouinZone::wedge_brute_force, check_ir_polyhedron", "src/bz_wedge.cpp, src/bz.cpp")],
  ["get_ir_polyhedron: vertices, faces, volume, contains"])

p("P04", "The first Brillouin zone is the Wigner-Seitz cell of the reciprocal lattice",
  "For every lattice the constructed first zone is exactly the set of points that are at least as close to the origin as to any other reciprocal lattice point: each face lies on the bisector of a reciprocal lattice vector, each vertex satisfies all bisectors, the faces form a closed surface, the volume equals that of the reciprocal unit cell (primitive where requested), and membership answers agree with that definition.",
  ["inputs", "configurations"],
  "all lattices, all points, all extents and primitive or conventional choice",
  "Tests compare face and vertex counts or volumes for a few lattices; the claim concerns every lattice, and strongly skewed cells need neighbours beyond the first shell.",
  ["src/bz.cpp", "src/bz.hpp", "src/neighbours.cpp", "src/polyhedron_flex.hpp", "src/polyhedron_faces.cpp"],
  [("BrillouinZone construction (voro_search)", "src/bz.cpp"), ("relative neighbour enumeration", "src/neighbours.cpp")],
  ["get_vertices, get_points, get_normals, get_polyhedron().volume(), isinside"])

p("P05", "Interpolation is a weighted mean of one cell, exact for linear functions",
  "Every interpolation grid returns the stored value at each of its points, reproduces every function that is linear in q exactly at every point it covers, and otherwise returns a mean of the values at the corners of one cell with non-negative weights that sum to one and whose mean position is the requested point. This holds for values and vectors of every shape and for real and complex data, and points outside the grid are refused, not extrapolated.",
  ["inputs", "configurations"],
  "all grids (trellis, nest, mesh), node sizes and node types, all data shapes, all points in the zone including cell faces, edges and vertices",
  "Tests interpolate a few functions on one or two grids and skip the awkward boundary points.",
  ["src/trellis_node.hpp", "src/trellis_poly.hpp", "src/interpolator_at.tpp", "src/interpolatordual.hpp", "src/nest.hpp", "src/mesh.hpp", "src/triangulation_simple.hpp"],
  [("node weights", "src/trellis_node.hpp"), ("DualInterpolator::interpolate_at", "src/interpolatordual.hpp")],
  ["interpolate_at of the grids; indices_weights"])

p("P06", "Interpolation in the irreducible zone respects the symmetry of the data",
  "If the data stored on an irreducible grid sample a field that transforms under the point group in the declared way (scalars, real-space or reciprocal vectors, axial vectors, matrices, phonon eigenvectors), then interpolating anywhere in reciprocal space returns the field at that point: the value at the equivalent irreducible point acted upon by the operation that relates the two. Scalars are never altered by the operation.",
  ["inputs", "configurations"],
  "all point groups, all declared transformation kinds and element counts, all points, all thread counts",
  "Tests rotate a few phonon data sets; the claim ranges over all operations, kinds of data and points.",
  ["src/interpolator.hpp", "src/interpolator_real.tpp", "src/interpolator_recip.tpp", "src/interpolator_axial.tpp", "src/interpolator_gamma.tpp", "src/phonon.hpp", "src/bz_trellis.hpp"],
  [("Interpolator::rotate_in_place", "src/interpolator.hpp"), ("ir_interpolate_at", "src/bz_trellis.hpp")],
  ["ir_interpolate_at"])

p("P07", "Results do not depend on the number of threads or the schedule",
  "Building a grid, moving points, interpolating and sorting give the same results whatever number of threads is requested or available and however the work is scheduled. Grids may number their points and cells differently, and the modes and phases of interpolated vectors may differ accordingly between two grids, never on one.",
  ["schedules", "configurations"],
  "all thread counts and interleavings of the parallel regions, repeated runs",
  "Tests run one schedule per execution and compare only a few thread counts on one lattice.",
  ["src/trellis_poly_parallel.tpp", "src/vertex_map_knit.h", "src/bz_move.cpp", "src/interpolatordual.hpp", "src/thread_exception.h"],
  [("per-thread vertex registries and their reduction", "src/vertex_map_knit.h"), ("parallel loops over points", "src/bz_move.cpp, src/trellis_poly.hpp")],
  ["grid vertices and node indices up to renumbering, interpolation results"])

p("P08", "Mode sorting only permutes modes, consistently along every connection",
  "Sorting the stored modes yields, for every pair of connected grid points, a permutation of the modes; the permutation for the reversed pair is its inverse and that of a point with itself is the identity. Each chosen permutation has the least total cost under the declared cost function, and interpolation after sorting mixes only modes matched that way.",
  ["inputs", "configurations", "schedules"],
  "all data and cost parameters, all grids, all thread counts",
  "Tests sort one data set; optimality and mutual consistency are claims about every pair of points and all data.",
  ["src/trellis_poly_parallel.tpp", "src/permutation.hpp", "src/permutation_table.hpp", "src/interpolatordual.hpp"],
  [("determine_permutation_ij, DualInterpolator cost matrix", "src/interpolatordual.hpp, src/permutation.hpp")],
  ["sort() followed by interpolation and permutation table"])

p("P09", "Assignment solvers return a permutation of least total cost",
  "For every square matrix of finite non-negative costs the assignment solvers return a one-to-one matching of rows to columns whose total cost is the least possible, and the stable-matching solver returns a matching with no blocking pair; row and column answers are inverse to each other. A permutation applied to a sequence and then its inverse restores the sequence; a solver may decline a matrix without any positive cost.",
  ["inputs"],
  "all finite square cost matrices, with ties, zeros and large ranges",
  "One test matrix is solved; optimality is over all permutations of all matrices, and degenerate matrices take rare branches.",
  ["src/munkres.hpp", "src/lapjv.hpp", "src/smp.hpp", "src/permutation.hpp"],
  [("Munkres::run_assignment", "src/munkres.hpp"), ("lapjv", "src/lapjv.hpp"), ("smp", "src/smp.hpp")],
  ["Munkres::get_assignment, lapjv rowsol/colsol, smp rowsol/colsol"])

p("P10", "Merging per-thread vertex registries keeps every node's vertices",
  "When vertices are registered independently by several workers and the registries are then merged, every node refers to exactly the vertices it registered, in order, every merged vertex appears once and was registered by some node, and serial and parallel merging agree. Registering a known vertex again returns the same identity.",
  ["schedules", "histories"],
  "all partitions of nodes over workers, all registration orders, any number of workers, known and new vertices",
  "No test exercises the merge directly; it needs particular overlaps between the vertices found by different workers.",
  ["src/vertex_map_set.h", "src/vertex_index_map.h", "src/vertex_map_knit.h"],
  [("VertexMapSet::add, consolidate", "src/vertex_map_set.h"), ("vertex_maps::combine, reduce", "src/vertex_map_knit.h")],
  ["the reduced vertex list and node index map"])

p("P11", "The pairwise permutation table behaves as a partial map",
  "The table of pairwise permutations returns for an ordered pair the permutation stored for it last, and the identity for pairs with none; storing never overwrites an existing entry, replacing requires one, and reserved pairs count as missing until a value is given. Resizing forgets exactly what it declares.",
  ["histories"],
  "all sequences of table operations on all sizes, pairs and permutations",
  "No test covers it directly; wrong aliasing of deduplicated permutations needs multi-step histories.",
  ["src/permutation_table.hpp"],
  [("PermutationTable", "src/permutation_table.hpp")],
  ["safe_get, has, value_needed, keys"])

p("P12", "The sorting status word keeps its flags and visit count independent",
  "Each flag and the visit count of a sorting status can be set and read without disturbing the others, for every sequence of operations; counting stops at the capacity with an error that leaves the status unchanged, and a bounded visit locks at its limit.",
  ["histories", "inputs"],
  "all sequences of operations, counts up to the capacity",
  "No test exists; faults need particular preceding values.",
  ["src/sorting_status.hpp", "wrap/_sorting_status.cpp"],
  [("SortingStatus", "src/sorting_status.hpp")],
  ["accessors after every call"])

p("P13", "Array views share storage, copies do not, and shape errors are refused",
  "A view of an array and a copied handle read and write the same elements as their source until one of them is resized, appended to or decoupled; a decoupled, extracted, converted or newly computed array never changes with its source, and arrays which are read-only refuse in-place arithmetic. Every selection, reshape, concatenation, permutation, broadcast operation and reduction yields exactly the elements its definition names, whatever the strides and offsets of the source, and operations with indices or shapes that do not fit are refused without changing anything.",
  ["histories", "inputs"],
  "all sequences of create, view, copy, decouple, write, in-place and binary arithmetic, resize, append, extract, convert, permute, compare and reduce on arrays of one to four dimensions in row and column order",
  "Tests check a few chains; aliasing faults need particular combinations of offset, stride and ownership.",
  ["src/array.hpp", "src/array.tpp", "src/array2.hpp", "src/array2.tpp", "src/array_functions.hpp"],
  [("Array / Array2 views and decouple", "src/array.tpp, src/array2.tpp")],
  ["element values after every operation"])

p("P14", "Index iteration and broadcasting visit every element once, in order",
  "Subscript iterators visit every index of a shape, with chosen indices held fixed, exactly once and in row order; broadcasting pairs elements as the common rules define and refuses incompatible shapes; conversions between subscripts and linear positions are mutually inverse.",
  ["inputs"],
  "all shapes of any rank, all fixed-index choices, all compatible and incompatible pairs",
  "Tests enumerate a handful of shapes.",
  ["src/subscript.hpp", "src/array2.hpp"],
  [("SubIt, SubIt2, BroadcastIt", "src/subscript.hpp")],
  ["sequence of subscripts produced"])

p("P15", "Hall symbols decode to the space group they name",
  "Every valid Hall symbol decodes to generators whose closure is a finite group of the order the symbol implies: it contains the identity and inverses, is closed, contains inversion exactly when the symbol says so, and contains the lattice centring translations. Symbols that break the grammar are reported as invalid.",
  ["inputs"],
  "all 530 tabulated symbols and all symbols of the grammar, including origin shifts",
  "The tabulated symbols are decoded once against a table in a test that cannot be built here; symbols outside the table and malformed ones are not.",
  ["src/hall_symbol.cpp", "src/hall_symbol.hpp", "src/symmetry.cpp", "src/motion.hpp"],
  [("HallSymbol::from_ascii, get_generators", "src/hall_symbol.cpp")],
  ["generators and generated symmetry operations"])

p("P16", "Symmetry sets generate the smallest closed group and know its structure",
  "Generating from any finite-order set of operations gives the smallest group that contains them, the generators found for a group generate it again, and reported orders, inverses, isometries, axes and membership agree with the operations themselves. Adding, erasing, sorting and permuting keep exactly the intended operations.",
  ["inputs", "histories"],
  "all subsets of operations of all crystallographic groups, all sequences of edits",
  "Tests look at a few groups.",
  ["src/pointsymmetry.cpp", "src/pointsymmetry.hpp", "src/symmetry.cpp", "src/symmetry.hpp"],
  [("PointSymmetry::generate, generators", "src/pointsymmetry.cpp"), ("Symmetry::generate, generators", "src/symmetry.cpp")],
  ["returned sets of operations"])

p("P17", "Space-group look-ups agree with each other and with the tables' symmetry",
  "Looking up a space group by number, by Hall symbol, or by Hermann-Mauguin or other symbol (with its choice of setting) leads to the same entry; each entry's number, centring, point group and operations are mutually consistent, and unknown names are reported as unknown.",
  ["inputs"],
  "all 530 entries, all 230 numbers, all name variants, arbitrary strings",
  "Tests do not enumerate the tables through every route.",
  ["src/spg_database.cpp", "src/spg_database.hpp", "src/pointgroup.cpp"],
  [("Spacegroup construction and look-ups", "src/spg_database.cpp")],
  ["Spacegroup, Pointgroup accessors"])

p("P18", "Motions form a group and survive being written as text",
  "Composition of motions is associative, inverses cancel, translations are compared modulo lattice translations, orders are the least powers giving identity; writing a motion or a set of motions as text in the CIF coordinate form and reading it back gives the same motion.",
  ["inputs"],
  "all crystallographic motions with rational translations, all spellings",
  "Tests parse three strings.",
  ["src/motion.hpp", "src/symmetry.cpp"],
  [("Motion::operator*, inverse, order, from_ascii, to_ascii", "src/motion.hpp")],
  ["components of results"])

p("P19", "Direct and reciprocal lattices are exact duals",
  "For every right-handed lattice the reciprocal basis times the transposed direct basis is two pi times the identity, metric tensors, volumes, lengths and angles of the two are consistent, lattice vectors convert to Cartesian and back unchanged, and scalar and cross products, angles and norms agree with the metric. Building the lattice from lengths and angles, from basis vectors in either orientation or from its dual gives the same lattice.",
  ["inputs", "configurations"],
  "all non-degenerate lattices, both orientations of the input, all vectors",
  "Tests check particular lattices.",
  ["src/lattice_dual.hpp", "src/array_lvec.hpp", "src/array_lvec_methods.tpp", "src/array_l_functions.hpp"],
  [("Lattice construction and metrics", "src/lattice_dual.hpp")],
  ["basis, metric, volume, vector products"])

p("P20", "Primitive and conventional descriptions are related by a lattice change",
  "For every centring the transformation to the primitive cell and its inverse cancel exactly, change the volume by the number of lattice points per cell and map primitive lattice vectors onto the centred lattice and reciprocal vectors onto reciprocal vectors; transforming vectors there and back is the identity and preserves Cartesian positions.",
  ["inputs", "configurations"],
  "all centrings, all vectors and lattices",
  "Tests use one lattice per centring.",
  ["src/primitive.hpp", "src/transform.hpp", "src/lattice_dual.hpp", "src/bravais.cpp"],
  [("PrimitiveTransform, transform_to_primitive", "src/primitive.hpp, src/transform.hpp")],
  ["transformed vectors"])

p("P21", "Symmetry permutes equivalent atoms",
  "For every crystal whose atoms respect its space group, every operation maps each atom to exactly one atom of the same kind up to a lattice vector, the reported map is a permutation that composes as the group does, and the lattice vectors reported with it are exact.",
  ["inputs", "configurations"],
  "all space groups and symmetry-compatible atom positions",
  "Tests use two crystals only; that every operation of every space group permutes the atoms cannot be sampled.",
  ["src/basis.hpp", "src/phonon.hpp", "src/lattice_dual.hpp"],
  [("Basis::equivalent_after_operation", "src/basis.hpp"), ("GammaTable", "src/phonon.hpp")],
  ["equivalent atom indices; gamma table entries"])

p("P22", "Objects written to HDF5 read back equal",
  "Every object that can be saved (symmetry sets, lattices, zones, arrays, polyhedra, permutation tables, interpolators and grids with their data and settings) reads back as an equal object that behaves the same, whatever its contents.",
  ["inputs", "configurations"],
  "all savable objects with all contents, including empty parts and non-default settings",
  "Round-trip tests exist for a few default objects only.",
  ["src/hdf_interface.hpp", "src/interpolator.hpp", "src/trellis_poly.hpp", "src/bz.hpp", "src/permutation_table.hpp"],
  [("to_hdf / from_hdf pairs", "src/*.hpp")],
  ["object state before and after"])

p("P23", "Cutting a polyhedron by planes keeps exactly the part on the inner side",
  "Cutting a convex polyhedron by a plane yields the part on the inner side: the two halves' volumes add up, repeated cuts commute, membership of a point equals satisfying all planes, faces stay closed and outward, and centroid and volume are those of the solid.",
  ["inputs", "histories"],
  "all convex polyhedra obtained by cutting boxes with planes, including cuts through vertices, edges and faces and cuts that miss",
  "Tests cut a few boxes; degenerate incidences are what breaks.",
  ["src/polyhedron_flex.hpp", "src/polyhedron_faces.hpp", "src/polyhedron_faces.cpp", "src/geometry.hpp"],
  [("Poly::cut, Faces", "src/polyhedron_flex.hpp, src/polyhedron_faces.hpp")],
  ["vertices, volume, contains"])

p("P24", "Bravais letters and axis, unit and data-kind codes convert consistently",
  "Converting between centring letters, symbols and their enumerations and back is the identity on valid values and reports invalid ones as such; derived facts such as the number of lattice points agree with the letter.",
  ["inputs"],
  "all letters, all enumerations, arbitrary strings",
  "Tests do not cover the tables.",
  ["src/bravais.cpp", "src/bravais.hpp", "src/enums.hpp", "src/rotates.hpp"],
  [("bravais_string, bravais_letter", "src/bravais.cpp")],
  ["returned strings and enumerations"])

p("P25", "Tolerant comparisons obey the tolerance they are given",
  "For every pair of numbers or arrays, tolerant equality and ordering follow one rule for scalars, vectors, and every comparison operator: equal exactly when the difference is within the relative-plus-absolute tolerance, symmetric in its arguments, with the strict and non-strict orderings consistent with it; exact for integers, also of different signedness, unless a tolerance is asked for.",
  ["inputs"],
  "all numbers, array lengths and tolerances",
  "Tests check examples.",
  ["src/comparisons.hpp", "src/comparisons.cpp", "src/approx_float.hpp", "src/utilities.tpp"],
  [("Comparer", "src/comparisons.hpp"), ("approx_float::scalar", "src/approx_float.hpp")],
  ["truth values"])

p("P26", "Point operations are classified as the right crystallographic point group",
  "For every finite group of integer rotations, in any lattice basis, listed in any order, the point group found has the right symbol, Laue class, holohedry and order. For every tabulated space-group setting the transformation found maps the operations onto the standard setting of that class as a proper integer change of basis.",
  ["inputs", "configurations"],
  "all 32 point groups under all changes of basis",
  "Tests use standard settings.",
  ["src/pointgroup.cpp", "src/pointgroup.hpp"],
  [("ptg_get_transformation_matrix, pointgroup classification", "src/pointgroup.cpp")],
  ["Pointgroup accessors"])

p("P27", "Integer and small-matrix arithmetic is exact",
  "Determinants, adjugates, inverses, products, traces, transposes, cross and dot products, greatest common divisors and rounding of integer vectors and matrices are exact for every representable result, and singular matrices are reported as not invertible.",
  ["inputs"],
  "all integer 3x3 matrices, vectors and integers whose results are representable",
  "Tests check a few matrices.",
  ["src/utilities.hpp", "src/utilities.tpp", "src/math.hpp", "src/linear_algebra.hpp"],
  [("matrix_determinant, matrix_inverse, multiply", "src/utilities.tpp"), ("gcd", "src/math.hpp"), ("mul_mat_mat, mul_mat_vec", "src/linear_algebra.hpp")],
  ["returned values"])

p("P28", "Grids partition the zone and name their points uniquely",
  "The cells of every grid cover the zone without overlap: their volumes add to the zone's volume, every point of the zone is found in a cell and the corners named for it are distinct existing grid points; no two grid points coincide, and no cell exceeds the size requested.",
  ["inputs", "configurations"],
  "all lattices, sizes and grid kinds, all points of the zone",
  "Tests build a few grids and count points.",
  ["src/trellis.tpp", "src/trellis_poly.hpp", "src/trellis_poly_parallel.tpp", "src/nest.hpp", "src/mesh.hpp", "src/triangulation_layers.hpp"],
  [("grid construction", "src/trellis.tpp, src/nest.tpp, src/mesh.hpp")],
  ["vertices, node volumes, indices_weights"])

p("P29", "An error raised in a parallel worker reaches the caller exactly once",
  "When workers of a parallel loop raise errors, the caller receives after the loop exactly one error, which names every error that was raised by its text; none is invented when none was raised, and the program is not terminated, whatever the type of what was raised.",
  ["schedules", "fault_sequences"],
  "all subsets of failing iterations, thread counts and interleavings",
  "Races between raising threads cannot be pinned in a unit test.",
  ["src/thread_exception.h"],
  [("ThreadException::run, rethrow", "src/thread_exception.h")],
  ["exception at the call site"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as h:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            h.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
