TECH = "property-based testing: "
prop("P01", "Each cell is the part of a convex domain nearest to its generator",
 "In a convex domain (box, polygon), tessellating any set of distinct generators inside it returns one cell per generator, in the generators' order, and cell i is exactly the set of points of the domain that are nearer to generator i than to any other generator. In particular generator i lies inside cell i, no cell reaches outside the domain, and no point of the domain is missing from the cell of its nearest generator. This holds to roundoff (1e-7 of the domain's size), however the generators are arranged (random, lattice, clustered, collinear, co-circular) and wherever and however large the domain is.",
 ["inputs"], "every convex domain and every set of distinct generators well inside it, given as box, PLC or reduced PLC",
 "the tests tessellate a handful of boxes and stars and compare cell counts or total areas; whether the right points belong to the right cell is a statement about every generator arrangement, and degenerate arrangements (lattices, collinear, co-circular) take their own paths",
 ["src/BoostTessellator.cc", "src/clipQuantizedTessellation2d.cc", "src/QuantizedTessellation2d.cc", "src/Tessellator.hh", "src/TessellatorInline.hh"],
 [("Voronoi construction on quantized generators", "src/BoostTessellator.cc: tessellateQuantized"), ("clipping of cells to the domain", "src/clipQuantizedTessellation2d.cc"), ("collinear generators", "src/BoostTessellator.cc, src/polytope_tessellator_utilities.hh")],
 TECH + "brute-force nearest-generator oracle on generated domains and clouds", "Random search: convex domains and clouds up to 600 generators, every cell compared with an exact half-plane intersection and with sampled points. Trusts the oracle's arithmetic (long double); generators at least 1e-3 of the domain apart and away from walls.")
prop("P02", "Cells tile the domain without gaps or overlap",
 "The cells of a bounded tessellation are simple counter-clockwise polygons whose areas are positive and add up to the area of the domain (outer boundary minus holes), and no point of the domain lies in two cells. A vertex of one cell never lies in the interior of another.",
 ["inputs"], "every convex domain and set of distinct generators; areas also in non-convex domains where no part of a cell is cut off from its generator",
 "the tests add up the areas of a few meshes with a loose tolerance; overlaps that compensate gaps, clockwise cells or self-crossing cells pass them",
 ["src/BoostTessellator.cc", "src/clipQuantizedTessellation2d.cc", "src/QuantizedTessellation2d.cc"],
 [("cell loops built face by face", "src/BoostTessellator.cc"), ("clipping", "src/clipQuantizedTessellation2d.cc"), ("conversion to floating point", "src/QuantizedTessellation2d.cc: fillTessellation")],
 TECH + "area, orientation, simplicity and point-cover invariants on generated meshes", "Random search over domains and clouds up to a few hundred generators; pairwise overlap is judged by sampled points and by areas.")
prop("P03", "Mesh connectivity is one consistent planar complex",
 "In every tessellation the cell-face, face-node and face-cell tables agree: each cell is one closed loop of faces traversed head to tail, each face joins two different nodes and belongs to one cell or to two cells that see it with opposite orientation, the face-cell table lists exactly those cells with those signs, no two faces join the same nodes, no two nodes coincide and no node is unused. The counts satisfy Euler's relation for the domain.",
 ["inputs"], "every convex domain, unbounded tessellations, and non-convex domains and holes where no part of a cell is cut off; every set of distinct generators",
 "the tests never check the tables against each other; which arrangement produces a duplicated or unshared face depends on coincidences between Voronoi vertices, domain corners and walls that samples do not hit",
 ["src/BoostTessellator.cc", "src/clipQuantizedTessellation2d.cc", "src/QuantizedTessellation2d.cc", "src/IntPointMap.hh", "src/Tessellation.hh"],
 [("node and edge hashing", "src/IntPointMap.hh, src/polytope_internal.hh: addKeyToMap, hashEdge"), ("edge/cell tables", "src/QuantizedTessellation2d.cc")],
 TECH + "consistency of every connectivity table plus Euler's relation", "Random search; the oracle recomputes every table from the cells alone.")
prop("P04", "Boundary faces and nodes are exactly the domain's boundary",
 "The mesh's boundary faces are exactly the faces with a single cell and its boundary nodes exactly their end points. In a bounded tessellation every boundary face lies on the domain's boundary (outer ring or hole), the boundary faces add up to the boundary's full length, and every corner of the domain is a node of the mesh at the corner's exact position to roundoff. The boundary-element query and the node/cell lookups of a mesh agree with what is derived from its cells.",
 ["inputs"], "every convex domain, and non-convex domains and holes where no part of a cell is cut off; every set of distinct generators",
 "only sizes of boundary lists are compared in a few tests; a boundary node misplaced by a snap or a corner dropped by clipping needs particular generator positions relative to the walls",
 ["src/QuantizedTessellation2d.cc", "src/clipQuantizedTessellation2d.cc", "src/snapToBoundary.cc", "src/findBoundaryElements.hh", "src/Tessellation.hh"],
 [("snapping nodes to the boundary", "src/snapToBoundary.cc"), ("boundary element search", "src/findBoundaryElements.hh"), ("corner nodes", "src/clipQuantizedTessellation2d.cc")],
 TECH + "boundary lists, corner positions and perimeter recomputed from the cells", "Random search; corners compared exactly to roundoff.")
prop("P05", "Unbounded tessellations are the Voronoi diagram closed at infinity",
 "Tessellating two or more distinct generators without a boundary returns one cell per generator containing it; within the neighborhood of the generators the cells are exactly the nearest-generator regions, also when all generators are collinear. The mesh is a consistent complex whose outermost faces and nodes form its boundary.",
 ["inputs"], "every set of at least two distinct generators, collinear sets included",
 "two tests tessellate three or so sets; what is done with infinite edges depends on the arrangement of the hull of the generators",
 ["src/BoostTessellator.cc", "src/polytope_tessellator_utilities.hh", "src/QuantizedTessellation2d.cc"],
 [("guard generators and infinite edges", "src/BoostTessellator.cc"), ("collinear case", "src/polytope_tessellator_utilities.hh: constructCells1d")],
 TECH + "brute-force nearest-generator oracle without a domain", "Random search; judged inside a box around the generators.")
prop("P06", "Cells in non-convex domains and around holes",
 "In a domain with reflex corners or holes, the cell of a generator is the connected piece, containing the generator, of the part of the domain nearest to it; a piece cut off from its generator by the boundary is handed to the cells that touch it, each point of it going to the nearest of their generators. The cells therefore still add up to the whole domain, contain their generators and never leave the domain or enter a hole.",
 ["inputs"], "every simple polygon with simple holes and every set of distinct generators inside, where no cell encloses a hole and cut-off pieces do not interact with one another",
 "a test re-creates six known orphan configurations; which pieces are cut off, whether they touch each other and who adopts them depends on the interplay of all bisectors with all reflex corners",
 ["src/clipQuantizedTessellation2d.cc", "src/BoostTessellator.cc", "src/snapToBoundary.cc", "src/PLC_Boost_2d.hh"],
 [("clipping with several pieces", "src/clipQuantizedTessellation2d.cc: clipQuantizedTessellation"), ("adoption of orphans", "src/clipQuantizedTessellation2d.cc: adoptOrphans")],
 TECH + "set-operation model of cut-off pieces and brute-force nearest neighbor", "Random search over L, U, comb, notch and star domains with up to three holes. Where several cut-off pieces interact only the cells away from them are judged. Trusts Boost.Polygon's set operations in the model.")

prop("P16", "The 2D hull is the smallest convex polygon around all points",
 "convexHull_2d returns a closed counter-clockwise ring of indices of input points such that every input point lies inside or on it and no corner lies on or inside the hull of the others, to the quantum dx it is given; collinear and coincident points yield the degenerate ring (the two end points, or one point). This holds for every order, repetition, scale and position of the points.",
 ["inputs"], "every non-empty set of points and every quantum",
 "two tests hull a handful of random points and never look at the facets; hash ties, points on edges and repeated points decide the sweep's branches",
 ["src/convexHull_2d.hh"], [("monotone chain over quantized points", "src/convexHull_2d.hh: convexHull_2d"), ("collinear shortcut", "src/convexHull_2d.hh")],
 TECH + "differential against an exact monotone-chain hull", "Random search. Clouds thinner than 400 quanta but not straight are not judged.")
prop("P17", "The 3D hull encloses all points with a closed outward surface",
 "convexHull_3d returns triangles naming input points which together form one closed surface, oriented outward, with Euler number 2, such that every input point lies on or inside every facet's plane. A repeated point is named by its first copy; the order, scale and place of the points do not matter.",
 ["inputs"], "every set of points that is not flat",
 "the tests hull one box and one small random set; incremental insertion of coplanar, repeated or late points takes paths that small samples do not reach",
 ["src/convexHull_3d.hh"], [("randomised incremental hull", "src/convexHull_3d.hh: convexHull_3d"), ("unique quantized points", "src/convexHull_3d.hh")],
 TECH + "every facet against every point, closedness, orientation and Euler's relation", "Random search up to 250 points. Sets within 2 percent of flat or with points a hair off a facet plane are not judged.")
prop("P18", "Point location agrees with the boundary's geometry",
 "For every simple polygon with holes and every point, within() is true exactly for points inside the outer ring and outside every hole (points on walls counted as documented by each routine), boost_within() agrees, nearestPoint() returns the distance to and the position of the nearest point of any ring, and intersect() returns every distinct point where a segment meets the boundary, whatever order the rings' facets and points are stored in.",
 ["inputs"], "every polygon with holes, probe point and segment, every equivalent way to write the PLC",
 "the tests probe a fixed star; probes at the height of corners, segments through corners and rings with renumbered points are the inputs that matter",
 ["src/within.hh", "src/nearestPoint.hh", "src/intersect.hh", "src/PLC_Boost_2d.hh"],
 [("crossing count", "src/within.hh"), ("nearest point over rings", "src/nearestPoint.hh"), ("segment intersections", "src/intersect.hh")],
 TECH + "long double point location, distances and intersections as oracle", "Random search; judged 1e-4 of the size away from walls or exactly on them.")
prop("P19", "Convex overlap and containment tests are exact in 2D and 3D",
 "convexIntersect(a, b) is true exactly when the two convex shapes share a point and does not depend on the order of its arguments; convexWithin(a, b) is true exactly when the first contains the second. This holds for polygons and polyhedra in any relative position, including polyhedra separated only by a plane along two crossing edges, and for hulls built by the library.",
 ["inputs"], "every pair of convex polygons or polyhedra that do not merely graze",
 "the tests compare a few boxes; edge-edge separation, containment and thin gaps need particular relative rotations",
 ["src/convexIntersect.hh", "src/convexWithin.hh", "src/convexHull_2d.hh", "src/convexHull_3d.hh"],
 [("separating axis search", "src/convexIntersect.hh"), ("containment of all vertices", "src/convexWithin.hh")],
 TECH + "separating-axis oracle over faces and edge pairs", "Random search; pairs that touch within 1e-9 are not judged.")
prop("P22", "Cell, face and simplex measures are the exact geometric values",
 "computeCellCentroid, computeCellCentroidAndSignedArea/Volume, face centroids and normals, triangle and tetrahedron areas, volumes, circumcenters, products and bounding boxes return the exact geometric value to relative roundoff, for every cell of every mesh in 2D and 3D, however its faces are ordered, oriented or started and wherever the mesh lies.",
 ["inputs"], "every 2D and 3D mesh and every tuple of points",
 "tests look at unit boxes; the errors that matter (a wrong component, a sign lost for a reversed face, an index off by the dimension) cancel on symmetric shapes",
 ["src/polytope_geometric_utilities.hh"], [("centroids, areas, volumes", "src/polytope_geometric_utilities.hh: computeCellCentroid*"), ("simplex formulas", "src/polytope_geometric_utilities.hh")],
 TECH + "differential against long double fans of the same cells", "Random search over tessellations and synthetic prism meshes; trusts the oracle's arithmetic.")
prop("P24", "Segment, ray and collinearity predicates match exact geometry",
 "The segment, ray and point predicates (segment-segment crossing, closest point on a segment, ray against plane, box, circle and sphere, collinear, between, side of a line or plane) return the exact answer for every input whose answer does not hinge on roundoff, and every point they return lies on both objects.",
 ["inputs"], "every tuple of points and directions",
 "the tests call two of them on fixed values; parallel, axis-aligned and touching configurations are separate branches",
 ["src/polytope_geometric_utilities.hh", "src/Point.hh"], [("predicates", "src/polytope_geometric_utilities.hh"), ("orientation predicates", "src/predicates.cc")],
 TECH + "long double predicates as oracle on lattice and random inputs", "Random search; answers within 1e-6 of a tie are judged only on exact lattices.")
prop("P09", "A distributed tessellation is the serial one, cell by cell",
 "However the generators are divided among ranks (strips, blocks, scattered, nearly all on one), every rank gets exactly the cells of its own generators, in their order, and each is the cell the serial tessellator makes of all generators together, in every kind of boundary and with or without communication tables. Each rank's mesh is consistent in itself, boundary lists included. Both distributed tessellators do so.",
 ["inputs", "configurations"], "every set of generators, every division of them among any number of ranks that leaves none empty, every kind of boundary",
 "the tests split uniform clouds into Voronoi blocks and look at the pictures; which neighbors a rank needs, hulls of one or two points, interleaved ownership and large domains decide",
 ["src/DistributedTessellator.cc", "src/SerialDistributedTessellator.cc", "src/deleteCells.hh", "src/DimensionTraits.hh", "src/convexIntersect.hh", "src/convexWithin.hh"],
 [("choice of neighbor domains", "src/DistributedTessellator.cc: computeDomainNeighbors"), ("exchange of generators", "src/DistributedTessellator.cc: computeDistributedTessellation"), ("culling of foreign cells", "src/deleteCells.hh")],
 TECH + "differential against the serial tessellation, under MPI", "Random search on 2, 3, 4 and 7 ranks of the real MPI code, up to 90 generators. Message orders are those the runtime happens to use.")
prop("P10", "Ranks agree about the nodes and faces they share",
 "After a distributed tessellation the communication tables of all ranks fit together: neighborhood is mutual, sorted and never empty; two neighbors list the same number of shared nodes and faces in the same order; corresponding nodes are at bit-identical positions and corresponding faces in the same place; and every node and face that cells of two ranks have in common is listed by both. Without communication tables being asked for there are none.",
 ["inputs", "configurations"], "every set of generators and every division of them among ranks",
 "the consistency routine runs in debug builds on a few uniform clouds; whether two ranks order nearly equal positions alike depends on the last digits of each",
 ["src/DistributedTessellator.cc", "src/SerialDistributedTessellator.cc", "src/checkDistributedTessellation.hh", "src/deleteCells.hh"],
 [("matching of shared elements", "src/DistributedTessellator.cc"), ("shared lists after culling", "src/deleteCells.hh"), ("shared lists from the global mesh", "src/SerialDistributedTessellator.cc")],
 TECH + "pairwise invariants over all ranks' tables plus the serial mesh as oracle", "Random search on 2, 3, 4 and 6 ranks. Nodes within 1e-4 of another node need not be listed.")
prop("P07", "Repeated generators are merged and every one is accounted for",
 "tessellateDegenerate accepts generators that coincide or come within a tolerance of each other: it returns, for every generator handed over, a valid cell index, generators at the same position (in any number, in any order of the list) always get the same cell, generators farther apart than the tolerance never share one, and the mesh is the one of the merged generators. If nothing needs merging the map is the identity.",
 ["inputs"], "every list of generators with repetitions, every tolerance, every kind of boundary",
 "one test repeats a few points; which copy is kept, copies scattered through the list and tolerances near the spacing matter",
 ["src/Tessellator.hh", "src/TessellatorInline.hh", "src/polytope_geometric_utilities.hh", "src/KeyTraits.hh"],
 [("merging by quantized position", "src/polytope_geometric_utilities.hh: uniquePoints"), ("map from generators to cells", "src/TessellatorInline.hh: tessellateDegenerate")],
 TECH + "invariants of the map plus differential against the tessellation of the distinct generators", "Random search. Close copies kept apart only have their map judged.")
prop("P08", "The tessellation does not depend on how the problem is written down",
 "Permuting the generators permutes the cells; moving, scaling, mirroring or rotating the problem by quarter turns does the same to the mesh; box, PLC and reduced PLC forms of one domain, rings started elsewhere, holes in another order and redundant points on straight walls give the same cells; adding a generator changes only the cells it takes space from and never enlarges any; running twice on one tessellator or a fresh one gives identical meshes.",
 ["inputs", "histories"], "every problem and every equivalent statement of it",
 "no test compares two runs; each relation holds for every input and exposes order, direction or scale dependence that no single output shows",
 ["src/BoostTessellator.cc", "src/clipQuantizedTessellation2d.cc", "src/QuantizedTessellation2d.cc", "src/TessellatorInline.hh"],
 [("state kept between runs", "src/BoostTessellator.cc"), ("normalisation of coordinates", "src/QuantizedTessellation2d.cc"), ("treatment of walls", "src/clipQuantizedTessellation2d.cc")],
 TECH + "metamorphic relations between two runs", "Random search up to 150 generators; non-convex domains only where no piece of a cell is cut off.")
prop("P11", "Deleting cells leaves exactly the mesh of the remaining cells",
 "Deleting any set of cells, by deleteCells with a mask or MeshEditor::deleteCells with a list (any order, repetitions allowed), leaves the remaining cells in order, each made of the same faces at the same positions with the same orientation, no unused face or node, connectivity and boundary lists that match what is left, and the shared lists reduced to the elements left in their order; doing it in several steps ends in the same mesh as one. This holds in 2D and in 3D.",
 ["inputs", "histories"], "every 2D and 3D mesh and every sequence of deletions",
 "the one test deletes a fixed half of a mesh and counts; renumbering errors show only for particular masks and communication tables",
 ["src/deleteCells.hh", "src/MeshEditor.hh", "src/MeshEditor.cc", "src/findBoundaryElements.hh"],
 [("masks and renumbering", "src/MeshEditor.cc: computeMasks, cleanMesh"), ("renumbering by hand", "src/deleteCells.hh")],
 TECH + "stateful sequences of deletions against a model that keeps cells as coordinates", "Random search over sequences of up to three deletions; bounded and unbounded 2D meshes and extruded 3D meshes.")
prop("P12", "Cleaning short edges keeps the mesh valid and the domain intact",
 "cleanEdges(tol) removes edges shorter than tol times the longest edge of their cells and nothing else: a mesh without such edges is left untouched, every remaining node is an old one at its old position, only ends of short edges disappear, corners of the domain stay, the cells still cover exactly the same domain, each keeps at least three edges, and the result is again a consistent mesh. Repeating it comes to an end, with no short edge left that could safely be collapsed.",
 ["inputs", "histories"], "every 2D tessellation and every tolerance",
 "the test cleans one mesh and looks at the edge count; chains of short edges, triangles, and edges at corners or across a narrow part are the dangerous cases",
 ["src/MeshEditor.cc", "src/MeshEditor.hh"], [("which edges may go", "src/MeshEditor.cc: flagEdgesForCleaning"), ("rebuilding the mesh", "src/MeshEditor.cc: cleanMesh")],
 TECH + "mesh invariants before and after, on jittered near-degenerate tessellations", "Random search up to 80 cells, serial; meshes whose border touches itself are outside the routine's stated preconditions.")
prop("P13", "What is serialized reads back as the same value",
 "For every value polytope can serialize (arithmetic types, points, vectors of them nested to any depth, PLCs and reduced PLCs with holes, vectors of those), serialize appends to the buffer without touching what it held, and deserialize on the result gives back the identical value, bit for bit, and leaves the reader exactly behind it, so that any sequence of values reads back in order. Vectors are appended to what the receiving vector already holds.",
 ["inputs", "histories"], "every value of every serializable type and every sequence of them; PLCs are read into empty objects",
 "no test serializes anything by itself; the distributed tessellator exchanges domains and meshes through these routines, where one misread length shifts everything that follows",
 ["src/polytope_serialize.hh", "src/polytope_parallel_utilities.hh", "src/ReducedPLC.hh"], [("Serializer specialisations", "src/polytope_serialize.hh: Serializer"), ("exchange between ranks", "src/DistributedTessellator.cc")],
 TECH + "round trips of generated sequences of 27 types", "Random search; vectors up to 70000 elements.")
prop("P23", "Position hashes and unique points identify points to their tolerance",
 "hashPosition and unhashPosition invert each other to one step of the stated resolution for every point of the outer box, inside the inner box and out; points more than a step apart get different hashes and equal points equal ones. uniquePoints maps every point to the first point it stands for, never merges points more than a step apart, merges exact copies, and numbers the unique points in the order of their first appearance.",
 ["inputs"], "every box pair, tolerance and set of points with the points in the outer box",
 "the tests hash the corners of a unit box; overflow of 21-bit fields, points on the upper walls, far-out boxes and chains of nearly equal points are where hashing goes wrong",
 ["src/polytope_geometric_utilities.hh"], [("hashing", "src/polytope_geometric_utilities.hh: hashPosition, unhashPosition"), ("unique points", "src/polytope_geometric_utilities.hh: uniquePoints")],
 TECH + "round trips and separation of generated points against the stated resolution", "Random search in 2D and 3D, extents 1e-6 to 1e9.")
prop("P25", "Boundary complexes built from other objects describe the same shape",
 "A reduced PLC holds the facets and holes of the PLC it was made from in the same order over exactly the points in use, each once. A cell turned into a PLC walks exactly the cell's nodes, counter-clockwise or outward. The canned circles, boxes, spheres and cylinders are closed, outward oriented, lie on their shape and enclose its size for every center, radius and resolution. An OFF file read back gives the PLC that was written, holes included, with a header that counts it.",
 ["inputs"], "every PLC, every cell of a 2D or 3D mesh, every center, radius, length and resolution of at least the minimum",
 "the canned shapes are only looked at in plots, and nothing reads an OFF file back; renumbering with holes, unused points, and shapes much smaller or larger than one are never tried",
 ["src/ReducedPLC.hh", "src/PLC.hh", "src/polytope_geometric_utilities.hh", "src/polytope_plc_canned_geometries.hh", "src/makeBoxPLC.hh", "src/polytope_write_OOGL.hh", "src/convexHull_3d.hh"],
 [("reduction to the points in use", "src/ReducedPLC.hh: ReducedPLC"), ("cells as PLCs", "src/polytope_geometric_utilities.hh: cellToReducedPLC"), ("canned shapes", "src/polytope_plc_canned_geometries.hh"), ("OFF files", "src/polytope_write_OOGL.hh")],
 TECH + "structural comparison, closed surfaces with known volumes, and an independent OFF reader", "Random search; PLC::valid() and empty() are checked along the way. OFF coordinates to the six digits the format writes.")
prop("P15", "The C interface gives the C++ results through any history of calls",
 "A PLC built through the C interface holds exactly the facets, nodes and holes added to it since it was last cleared, and reports them, its validity and emptiness accordingly. A tessellation made through the C interface equals the C++ one array by array. A tessellation is empty when new and after being cleared, other objects do not change when one is filled, cleared or freed, and clearing and freeing is safe at any time. Printing gives the same text as C++, cut off and terminated within the size given. Tessellator names and properties are the C++ ones and stay valid; errors reach the handler set last.",
 ["inputs", "histories"], "every sequence of calls with valid indices; tessellations in all three forms",
 "one C test fills three meshes and frees them once; clearing before freeing, reusing objects, holes in PLCs and printing are never exercised",
 ["polytope_c/polytope_plc.cc", "polytope_c/polytope_tessellation.cc", "polytope_c/polytope_tessellator.cc", "polytope_c/polytope_c.cc"],
 [("PLC wrapper", "polytope_c/polytope_plc.cc"), ("ownership of arrays", "polytope_c/polytope_tessellation.cc: polytope_tessellation_clear"), ("conversion to compressed rows", "polytope_c/polytope_tessellator.cc: fill_tessellation")],
 TECH + "stateful model-based histories and differential against the C++ interface, under AddressSanitizer", "Random search. 3D meshes only empty (no 3D tessellator is built here). Leaks are not judged. Fields and tags read back through the C Silo reader are out of reach (the reader is not built).")
