#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long strings stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Sweep visits each cell and direction once, after its upwind data",
 "In a forward sweep every (cell, direction) pair owned by a rank is computed exactly once, and never before the outgoing data of each of its upwind neighbours (on the same rank or another) has been produced and, if remote, received; the data it is given for a face is the data its neighbour produced for that very face, direction and group. This holds for every acyclic ordering of the mesh, any priorities, any per-step limit and any thread count, and a backward sweep satisfies the same with the flow direction reversed.",
 ["inputs","schedules","configurations"],
 "every acyclic upwind relation on the mesh, every priority assignment, every maxCellsPerStep, every number of threads / ranks, every message timing",
 "The regression decks run one mesh with one quadrature and compare the converged flux; a wrong order only shows if it changes that flux by more than 1e-10.",
 ["src/GraphTraverser.cc","src/GraphTraverser.hh","src/SweepData.hh"],
 [("dependency counters and priority queues","src/GraphTraverser.cc: GraphTraverser::traverse"),("face data hand-over","src/SweepData.hh"),("initial dependency counts","src/GraphTraverser.cc: GraphTraverser constructor")],
 ["calls to the per-cell update callback"])
prop("C02", "Distributed sweep terminates and delivers each boundary packet exactly once",
 "For every interleaving of message arrivals, every buffering behaviour of the MPI library and both selectable communication modes, a sweep over several ranks terminates on every rank without deadlock, each rank-boundary packet is delivered exactly once with its content unchanged to the right rank, face and direction, and no message is left unreceived that could be taken for part of the next sweep.",
 ["schedules","configurations","inputs"],
 "every order in which messages become visible, eager or deferred (rendezvous) sends, both MPI types, every acyclic upwind relation across rank boundaries",
 "mpirun on one machine delivers small messages eagerly and almost in order; the tests see a handful of schedules and never a rendezvous send.",
 ["src/GraphTraverser.cc","src/Comm.cc"],
 [("two-sided exchange with kill messages","src/GraphTraverser.cc: sendAndRecvData"),("probe-based exchange","src/GraphTraverser.cc: sendData2Sided/recvData2Sided"),("rank/tag bookkeeping","src/GraphTraverser.cc: GraphTraverser constructor")],
 ["MPI calls","traversal callbacks"])
prop("C03", "Local cell solve satisfies the discretised transport equation",
 "For every tetrahedron, direction, cross section, source and incoming face flux, the four nodal fluxes the local solve returns satisfy the linear discontinuous Galerkin equations of that cell (mass, streaming, outgoing-face and upwind-face terms) for each energy group independently, whichever of the selectable elimination methods is configured.",
 ["inputs","configurations"],
 "all sources and incoming fluxes in a box, all cross sections in a range, tetrahedra of either orientation with every pattern of incoming/outgoing faces, 1-2 groups, all four elimination methods",
 "The gold file fixes one geometry, one pair of cross sections and one manufactured source; an error in a rarely active term (an elimination pivot branch, an inflow pattern) does not change it.",
 ["src/Transport.cc","src/Transport.hh"],
 [("assembly of the 4x4 system","src/Transport.cc: solve and its helpers"),("dense elimination variants","src/Transport.cc: gaussElim4*")],
 ["psi returned by the local solve"])
prop("C04", "Every elimination method returns the exact solution of the local system",
 "Each of the selectable 4x4 solvers returns a vector x with A x = b for every matrix on which it is defined (non-singular; non-zero leading minors for the method without pivoting), in particular when a row exchange is needed at any elimination step, so the choice of method never changes the physics beyond rounding.",
 ["inputs","configurations"],
 "all right-hand sides; all matrices for Cramer's rule (polynomial identity); structured families with symbolic entries that exercise every pivot choice for the eliminations",
 "Transport matrices from the one test mesh are diagonally dominant, so pivot exchanges and the alternative solvers' general behaviour are never reached.",
 ["src/Transport.cc"],
 [("partial pivoting / no pivoting / Cramer","src/Transport.cc: gaussElim4*, cramer*")])
prop("C05", "Cell geometry: outward unit normals, areas and volumes are correct",
 "For every non-degenerate tetrahedron, whatever the order in which its vertices are listed, the mesh reports its true volume and face areas, and the direction-dot-normal it reports for a face is the dot product of the quadrature direction with the outward unit normal of that face (so area-weighted normals of a cell sum to zero).",
 ["inputs"],
 "all vertex coordinates (exact real arithmetic), both vertex orientations, all faces",
 "All regression runs use cells of one generated mesh; a sign or indexing error for other vertex orders would pass.",
 ["src/TychoMesh.cc","src/TychoMeshIO.cc","src/TychoMesh.hh"],
 [("normal, area, volume computation","src/TychoMesh.cc / src/TychoMeshIO.cc")],
 ["getOmegaDotN","getCellVolume","getFaceArea"])
prop("C06", "In-memory mesh topology is consistent for every partition",
 "After loading any conforming mesh split over ranks in any way, cell adjacency is symmetric and matches the file, the vertex correspondence across a shared face identifies geometrically identical vertices in both directions, each face is the one opposite its vertex, each boundary side maps one-to-one to a (cell, face) pair, and local/global side numbers are mutually inverse and agree between the two ranks that share a side.",
 ["inputs","configurations"],
 "all partitions of small conforming meshes onto 1-3 ranks, both vertex orders",
 "The tests only ever load one mesh with the column partitioner and never look at the tables directly.",
 ["src/TychoMeshIO.cc","src/TychoMesh.cc","src/TychoMesh.hh"],
 [("table construction","src/TychoMeshIO.cc: readTychoMesh")],
 ["the mesh accessor functions"])
prop("C07", "Upwind and downwind are complementary across every shared face",
 "For every interior or rank-boundary face and every quadrature direction, the two cells (or two ranks) that share it see opposite flow signs: the face is outgoing for exactly one side and incoming for exactly the other, so the sweep dependency graph has exactly one edge per shared face and direction that is not parallel to the face.",
 ["inputs","configurations"],
 "every direction and every vertex numbering of the two cells, including faces (nearly) parallel to the direction",
 "No face of the test mesh is parallel to a quadrature direction, and rounding ties never occur there.",
 ["src/TychoMesh.cc","src/TychoMeshIO.cc","src/TychoMesh.hh"],
 [("sign test on direction . normal","src/TychoMesh.hh: isOutgoing/isIncoming")])
prop("C08", "Rank-boundary flux exchange moves every outgoing face flux exactly once",
 "After the explicit exchange of boundary flux between ranks, the inflow stored for each rank-boundary face, direction, face vertex and group equals the neighbouring rank's outgoing flux at the geometrically identical vertex, inflow on physical boundaries is untouched, and the exchange completes for every message arrival order.",
 ["inputs","schedules","configurations"],
 "all flux values, all arrival orders, 2-3 ranks, all sign patterns of the boundary faces",
 "The exchanged values only feed iterative solves whose converged answer hides stale or swapped entries; arrival order is not controlled.",
 ["src/CommSides.cc","src/CommSides.hh"],
 [("metadata construction and packing","src/CommSides.cc")],
 ["boundary flux after the exchange"])
prop("C09", "Precomputed sweep schedules are complete, ordered and deadlock free",
 "For every mesh partition and every priority option, the precomputed sweep schedule computes each (cell, direction) of each rank exactly once, after the data it depends on has been produced locally or received in an earlier or the same communication step, every scheduled send has exactly one matching receive on the peer rank, and both scheduled sweep variants execute it without deadlock.",
 ["schedules","configurations","inputs"],
 "all priority options, all step limits 1..cells, all partitions of small meshes onto 1-3 ranks, all angle-group counts",
 "The decks exercise three priority combinations on one mesh; a schedule that is valid only by luck on it passes.",
 ["src/SweepSchedule.cc","src/SweepSchedule.hh","src/Sweeper.cc","src/Priorities.cc"],
 [("schedule construction","src/SweepSchedule.cc"),("schedule execution","src/Sweeper.cc")])
prop("C10", "One sweep gives the same flux for every sweep algorithm and configuration",
 "For every source, the flux produced by one transport sweep is the unique solution of the coupled cell equations with vacuum boundary: it does not depend on the sweep algorithm selected, the number of ranks, the number of threads, the partition, the per-step limit or the communication mode.",
 ["inputs","configurations","schedules"],
 "all sources in a box (the answer is linear in the source), small meshes, all sweep algorithms, 1-3 ranks, 1-3 threads",
 "Each deck compares a converged flux for a single manufactured source.",
 ["src/Sweeper.cc","src/SweeperTraverse.cc","src/SweeperSchur.cc","src/SweeperPBJ.cc","src/SweepData.hh","src/Util.cc"],
 [("sweep drivers","src/Sweeper*.cc"),("local sweep","src/Util.cc: sweepLocal")])
prop("C11", "Serial mesh files round-trip and malformed ones are rejected",
 "Reading back a serial mesh file written by the library yields a mesh equal in every field to the one written, and a file whose magic or version is not the supported one is refused rather than interpreted.",
 ["inputs"], "all contents of all fields (full 64-bit range and any bit pattern of coordinates), small numbers of cells, faces and nodes",
 "The tests read a single file and never compare fields.",
 ["src/SerialMesh.cc","src/SerialMesh.hh"], [("read/write","src/SerialMesh.cc")])
prop("C12", "Parallel mesh files round-trip; per-rank reading equals whole-file reading",
 "Reading back a parallel mesh file yields every partition equal in every field to what was written, and each rank that reads only its own partition through the parallel interface gets exactly that partition; a file with wrong magic, version or partition count is refused.",
 ["inputs","configurations"], "all field contents, partitions of different sizes, 1-3 partitions",
 "The tests read one file per rank count and only see the converged flux.",
 ["src/ParallelMesh.cc","src/ParallelMesh.hh","src/Comm.cc"], [("read/write/readInParallel","src/ParallelMesh.cc")])
prop("C13", "Partitioning a mesh loses, duplicates and rewires nothing",
 "Splitting a serial mesh by any partition vector puts each cell in exactly the partition requested, with its global identity; each partition holds exactly the faces and nodes its cells use with the original coordinates, every local index refers to the entity that the serial mesh referred to, and a face is marked a rank boundary with the right peer exactly when its two cells lie in different partitions.",
 ["inputs"], "every partition vector (including empty partitions) of small meshes onto 1-3 partitions, all coordinates",
 "Only the two partitioners' outputs on one mesh are ever used.",
 ["src/ParallelMesh.cc"], [("createFromSerialMesh","src/ParallelMesh.cc")])
prop("C14", "Column partitioner covers the mesh with balanced columns",
 "For every mesh and every requested grid of column partitions, the column partitioner assigns each cell to exactly one partition in range, partition sizes in a column and column sizes differ by at most one, and columns and partitions are separated along x and then y: no cell in an earlier column lies at larger x than a cell of a later one, and likewise for y within a column.",
 ["inputs","configurations"], "all cell positions of meshes of up to 4-5 cells, all small grids",
 "Tests run a few grids on one mesh and do not examine the partition.",
 ["util/PartitionColumns.cc"], [("splitIntoChunks, sorting by centroid","util/PartitionColumns.cc")])
prop("C15", "Graph partitioner is given the exact dual graph and its answer is honoured",
 "The dual graph handed to the graph-partitioning library is exactly the face-adjacency graph of the mesh (symmetric, no self loops, no missing or extra edges), and whatever partition the library returns is the partition written out.",
 ["inputs","configurations"], "all small conforming meshes in a family (any subset of interior faces glued), any answer of the library",
 "No test runs this utility at all.",
 ["util/PartitionMetis.cc"], [("CSR construction","util/PartitionMetis.cc")])
prop("C16", "Mesh refinement subdivides each cell exactly and conformingly",
 "Refining a conforming tetrahedral mesh gives a conforming mesh with eight children per cell whose volumes sum to the parent's, whose nodes are the parents' nodes and edge midpoints without duplicates, which keeps each parent's material, and whose boundary and interior face connectivity match the parent's; it works for every mesh size.",
 ["inputs"], "all coordinates, small conforming meshes, both vertex orders and all node numberings of the shared face",
 "No test runs the refinement utility.",
 ["util/RefineSerialMesh.cc"], [("refinement","util/RefineSerialMesh.cc")])
prop("C17", "Quadrature integrates exactly every polynomial it is supposed to",
 "For every supported order the quadrature has the documented number of unit directions, positive weights summing to the full solid angle, and integrates exactly (to rounding) every polynomial in the direction cosines up to the order that the product rule guarantees; unsupported orders are refused.",
 ["inputs","configurations"], "all polynomials with bounded coefficients (linear-arithmetic query over the coefficients), all supported orders in bounds, all unsupported orders",
 "Tests use order 8 only and never integrate anything but a constant-in-angle solution.",
 ["src/Quadrature.cc","src/Quadrature.hh"], [("Chebyshev-Legendre product rule","src/Quadrature.cc")])
prop("C18", "Flux output file is complete and independent of the decomposition",
 "The flux file written at the end of a run contains the documented header and, for every global cell, the flux of that cell at the place given by its global number, each exactly once, so the file is byte-for-byte the same function of the global flux for every partition and rank count.",
 ["inputs","configurations"], "all flux bit patterns, all partitions of small meshes onto 1-3 ranks, any order of the ranks' writes",
 "The gold comparison exercises five decompositions of one mesh.",
 ["src/PsiData.cc","src/PsiData.hh","src/Comm.cc"], [("offset computation","src/PsiData.cc: writeToFile")])
prop("C19", "Input deck values are read exactly or refused",
 "For every input text, each key/value line with optional surrounding blanks and comment is found under its key irrespective of case with exactly the value written, blank and comment lines are ignored, and a malformed line, duplicate key, missing key or value that is not of the requested type is reported as an error and never silently turned into some value.",
 ["inputs"], "all byte strings up to the stated length, all typed accessors",
 "Decks in the tests are all well formed.",
 ["src/KeyValueReader.cc","src/KeyValueReader.hh"], [("parser and typed getters","src/KeyValueReader.cc")])
prop("C20", "Driver configures exactly what the deck asks for and refuses unknown options",
 "Every documented option value in the input deck selects the corresponding method and number for the run, and a deck that names an unknown communication mode, sweep algorithm or elimination method stops the run with a message instead of running with something else.",
 ["inputs","configurations"], "all values of the enumerated options up to the stated string length, all numeric values",
 "Test decks only contain valid values; the elimination method is compared only through a result all methods share.",
 ["src/Main.cc"], [("readInput","src/Main.cc")])
prop("C21", "Scalar flux, scattering source and flux expansion are the right linear operators",
 "For every angular flux, the scalar flux is the quadrature-weighted sum over directions for each cell, vertex and group; expanding a scalar flux gives an angularly constant flux; the total source is external source plus scattering of the scalar flux (cross section over 4 pi) per cell and group; for any thread count.",
 ["inputs","configurations"], "all flux values (linear forms), small dimension tuples, 1-3 threads",
 "Only their fixed point is compared for one problem with both groups equal.",
 ["src/Util.cc","src/SourceIteration.cc"], [("operators","src/Util.cc")])
prop("C22", "Schur/Krylov boundary vectors carry each face flux to and from its own slot",
 "Packing rank-boundary flux into the linear-algebra vector and unpacking it are mutually inverse on exactly the incoming rank-boundary faces, and the operator the Krylov solver applies is linear and equals identity minus (exchange after local sweep), so that the solution the solver accepts is the flux of the undecomposed sweep.",
 ["inputs","configurations"], "all flux values, small meshes on 1-3 ranks",
 "Only the converged answer is compared; a consistent mis-packing cancels there.",
 ["src/SweeperSchur.cc","src/KrylovSolver.cc","src/KrylovSolver.hh"], [("psiBoundToVec/vecToPsiBound","src/SweeperSchur.cc")])
prop("C23", "Directions are split over threads completely, disjointly and evenly",
 "For every number of directions and threads each direction belongs to exactly one thread group in range, groups are contiguous and their sizes differ by at most one, and every part of the code uses the same split.",
 ["inputs","configurations"], "all direction counts and thread counts within machine bounds stated",
 "Tests use at most three threads and 128 directions.",
 ["src/GraphTraverser.cc","src/SweepSchedule.cc","src/Quadrature.cc"], [("angleGroupIndex","src/GraphTraverser.cc")])
prop("C24", "Multi-dimensional arrays give each index its own in-range storage",
 "For all array shapes and all valid index tuples, the flux, boundary-flux, scalar-flux and 2-/3-dimensional matrix containers map different index tuples to different elements inside their storage with energy group varying fastest where documented, and report out-of-range indices when checking is on.",
 ["inputs","configurations"], "all shapes up to the stated sizes, all index tuples (symbolic)",
 "Tests use a single shape, for which transposed or overlapping strides can still give a consistent answer.",
 ["src/Mat.hh","src/PsiData.hh"], [("index functions","src/Mat.hh, src/PsiData.hh")])
prop("C25", "Materials and the manufactured source are assigned from the right cell data",
 "Each cell gets the total and scattering cross sections of its own material for every group, an unknown material is refused, and the manufactured source evaluated at every position is finite and equals the value that makes the manufactured flux the exact solution for the cell's cross sections.",
 ["inputs"], "all material assignments, all vertex positions (including the singular points), all cross sections",
 "One mesh whose vertices avoid the singular points and whose materials are uniform.",
 ["src/Problem.cc"], [("createCrossSections, hatSource","src/Problem.cc")])
prop("C26", "No message content depends on when the MPI library reads the buffer",
 "Every buffer handed to a non-blocking MPI operation stays alive and unmodified until the operation completes, every request is completed, and no receive buffer is read before its receive completes, so that results do not depend on the MPI library's buffering.",
 ["schedules","fault_sequences"], "all points between posting and completion at which the library may read or write the buffer, in every communication routine",
 "Open MPI sends the tests' small messages eagerly, i.e. always at the earliest point.",
 ["src/Comm.cc","src/CommSides.cc","src/GraphTraverser.cc","src/Sweeper.cc","src/TychoMeshIO.cc","src/SweepSchedule.cc"],
 [("request lifetime","all MPI_Isend/MPI_Irecv sites")])
prop("C27", "Iterations stop only when converged or at the limit, and report which",
 "The source iteration and block-Jacobi loops stop exactly when the relative change of the iterate falls below the requested tolerance or the iteration limit is reached, apply the configured sweep once per iteration, and return the number of iterations actually made together with the last iterate.",
 ["inputs","histories"], "all sequences of iterate values (symbolic responses of the sweep), all tolerances, limits up to the bound",
 "Test decks always converge long before the limit and compare only the final flux.",
 ["src/SourceIteration.cc","src/SweeperPBJ.cc"], [("fixedPoint and PBJ loops","src/SourceIteration.cc, src/SweeperPBJ.cc")])
prop("C28", "Threads never race on shared sweep data",
 "In every threaded region two threads never access the same memory with at least one unsynchronised write, so the flux and traversal state after a sweep are the same for every thread interleaving and every thread count.",
 ["schedules","configurations"], "all pairs of accesses of different threads inside each parallel region, 2-3 threads, all upwind relations in bounds",
 "A race shows only under particular timing; the tests run a few times on small thread counts.",
 ["src/GraphTraverser.cc","src/Util.cc","src/Sweeper.cc","src/Priorities.cc","src/SweepData.hh"], [("per-thread work areas, atomics and critical sections","src/GraphTraverser.cc, src/SweepData.hh")])
prop("C29", "Reported solution errors are the true errors over the whole mesh",
 "The relative L2 error printed at the end of a run is, for every flux, the norm of the difference between the cell averages and the manufactured solution at the cell centres divided by the norm of the cell averages, summed over the cells of all ranks with each cell counted once, and is the same on every rank; the difference between groups printed on one rank is the largest difference from the first group relative to its largest entry.",
 ["inputs","configurations"], "all flux values (real), all partitions of small meshes onto 1-3 ranks",
 "The tests only check that the printed number is below a threshold for one converged flux.",
 ["src/Problem.cc","src/Util.cc","src/Comm.cc"], [("hatL2Error, diffBetweenGroups","src/Problem.cc, src/Util.cc")])

prop("C30", "Mesh information tools print exactly what the file holds",
 "For every serial or parallel mesh file, the information tools print the format, version, counts and offsets of the file and, when asked to be verbose, every field of every cell, face and node exactly once, in order, under its own label and with the value in the file; without that request only the counts; and the partition printed by each rank that reads the parallel file on its own is the one printed from the whole file.",
 ["inputs","configurations"], "all 64-bit values of every field, files of up to 3 cells, faces and nodes, 1-3 partitions and ranks, verbose or not",
 "No test runs the information tools; a value printed truncated, twice or under another label shows only to a reader who knows the file's bytes.",
 ["util/SerialMeshInfo.cc","util/ParallelMeshInfo.cc","src/SerialMesh.cc","src/ParallelMesh.cc"], [("print, printPartitionData","src/SerialMesh.cc, src/ParallelMesh.cc"),("tools","util/SerialMeshInfo.cc, util/ParallelMeshInfo.cc")], ["standard output"])
prop("C31", "Valid input never causes a stray access, uninitialised read or abort",
 "For every valid mesh, partition, input deck, rank count, thread count and option, the solver and the mesh tools never read or write outside a live object, never free twice or use freed memory, never decide or send anything on an uninitialised value, and never stop in an internal assertion, an abort or an uncaught exception.",
 ["inputs","configurations","schedules"], "the inputs of the runs listed for this property: symbolic meshes, partitions, decks, fluxes, options and message timings on 1-4 ranks and 1-3 threads",
 "The tests run without a memory checker on one mesh and a few decks; an access just outside an array usually goes unnoticed.",
 ["src/Main.cc","src/Mat.hh","src/PsiData.hh","src/TychoMeshIO.cc","src/GraphTraverser.cc","src/SweepSchedule.cc","util/RefineSerialMesh.cc","util/PartitionColumns.cc","util/PartitionMetis.cc"], [("containers with checked indices","src/Mat.hh, src/PsiData.hh"),("mesh input","src/SerialMesh.cc, src/ParallelMesh.cc, src/TychoMeshIO.cc")])
prop("C32", "Work is ordered by the documented priority options",
 "For every mesh, partition and set of directions and each intra-angle option (b-level, BFDS, DFDS, DFHDS) and inter-angle option (interleaved, globally and locally prioritized) the priorities order the cells as the user guide defines: within a direction by the b-level or by the distance to descendants on other ranks, with cells that have none lowest; between directions by the inter-angle option; and a schedule never takes a cell while one with a higher priority is ready on the same rank.",
 ["inputs","configurations"], "every split of 4-6 cells over 2-3 ranks with fixed directions, any direction with a fixed split, 1-4 directions, all options, several limits of cells per step",
 "The priorities change only the order of work and with it the time to solution; a wrong order gives the same flux, so no test can notice it.",
 ["src/Priorities.cc","src/SweepSchedule.cc","doc/user_guide/user_guide.tex"], [("calcPriorities","src/Priorities.cc"),("SweepSchedule constructor","src/SweepSchedule.cc")], ["Priorities::calcPriorities","SweepSchedule::getWork"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
