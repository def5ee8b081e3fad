{
"C01": "The real `GraphTraverser::traverse` runs with a recording `TraverseData`. The harness asserts at every update that the pair is new, that every upwind neighbour (found from node coordinates, not from the code's own adjacency) is done and, if remote, that its packet arrived, and at the end that all pairs are done. Directions are symbolic vectors, so one run covers every acyclic ordering the mesh can have; priorities are symbolic 64-bit numbers. The tests run one mesh with one quadrature.",
"C02": "Same harness with the MPI model's freedoms (eager, rendezvous, free per operation, arrival delays, any-source order), opaque packet contents and consecutive sweeps. Asserted: every rank returns, every boundary packet is delivered once with its content at the right face and direction, no message or request is left. Deadlock is found as a state in which no rank can move.",
"C03": "The real `Transport::solve` on symbolic source, inflow, cross section and direction; the result is substituted into the LDG equations written out independently (`h_cell.cc`); the residual must vanish identically.",
"C04": "The kernel `gaussElim4` on symbolic matrices. For the three methods without data-dependent control flow all 16 entries are arbitrary and A·x−b = 0 is a rational identity. For the pivoting method each row permutation of several patterns with a symbolic box around it: Z3/interval arithmetic decide every pivot comparison and the residual.",
"C05": "Real mesh loading with symbolic coordinates (boxes, a free apex), every vertex order, symbolic directions. Compared with cross and triple products of the file's coordinates.",
"C06": "Real mesh loading on several ranks; every accessor of `TychoMesh` compared with the global mesh through node coordinates and global numbers. Partition, vertex order in cells and faces and face-list order symbolic.",
"C07": "`getOmegaDotN`, `isOutgoing`, `isIncoming` from both sides of each shared face for symbolic directions and coordinates.",
"C08": "The real `CommSides` with opaque flux values: after the exchange the inflow slot must hold the very symbol of the neighbour's outgoing slot at the geometrically same vertex. Packet orders, buffering and delays free.",
"C09": "The real `SweepSchedule` objects of all ranks are compared as a whole (each pair once, dependency earlier, sends matched by receives in the same step) and both scheduled sweeps of `main()` are executed with every priority option and buffering behaviour.",
"C10": "The real `main()` with a symbolic external source; the output file's flux must equal, as a polynomial in the source, the dense reference solution of the same cell equations. All sweep types, ranks, partitions, threads, step limits, modes, eliminations.",
"C11": "`SerialMesh::write`/`read` on symbolic 64-bit fields and the real bytes in the modelled file; format name, version and file length symbolic for rejection.",
"C12": "`ParallelMesh::write`, `readAll`, `readInParallel` likewise; the file written is also compared byte for byte with the documented layout.",
"C13": "`ParallelMesh::createFromSerialMesh` with a symbolic partition vector (empty partitions included), symbolic coordinates and materials; each partition is compared with the serial mesh entity by entity.",
"C14": "The real `PartitionColumns` main on a serial mesh file with cells at symbolic positions; the written file is decoded independently. `std::sort` runs for real, comparisons are decided by Z3.",
"C15": "The real `PartitionMetis` main with a METIS stand-in that checks the CSR graph against the mesh and returns an arbitrary (symbolic) partition or an error.",
"C16": "The real `RefineSerialMesh` main with symbolic node coordinates; the refined mesh must have eight children per cell tiling it (volumes sum, nodes only parents' nodes or edge midpoints, each once), conforming faces, materials kept. `many-cells` only checks sizes and runs concretely (no symbolic input besides materials).",
"C17": "`Quadrature` for a symbolic order: the solver decides which orders are refused; for each supported order the polynomial's coefficients are symbolic, so the error is linear in them and bounded by interval arithmetic for all coefficient values.",
"C18": "The output file of the real `main()` is decoded at byte level and each value compared with the reference flux of the cell with that global number; the file length is exact; an older longer file may be there.",
"C19": "`KeyValueReader` on texts with symbolic bytes against an independent parser in the harness; every byte value of a symbolic position is covered.",
"C20": "The real `main()` up to the solve with decks whose option text, numbers, line order or missing key are symbolic; the configuration recorded at the solve must be the deck's.",
"C21": "`Util` operators with symbolic flux, weights, sources and cross sections against the defining sums; with happens-before race checking and every thread order.",
"C22": "The Schur variants of the real `main()` with the PETSc model checking that the operator is linear (two symbolic vectors), that packing and unpacking are inverse, and that the accepted solution is the undecomposed one.",
"C23": "For a symbolic number of directions and threads the solver decides, for a symbolic direction, group range, contiguity and size; the scheduled sweep's and the traversal's own splits are compared with that function.",
"C24": "Two symbolic index tuples: equal element address iff equal tuples; element inside the storage; out-of-range tuples stop the program; very large shapes through address arithmetic.",
"C25": "Symbolic 64-bit materials and cross sections; symbolic vertex position: the source must equal the transport operator applied to the hat function.",
"C26": "Runs of every communicating part with rendezvous (late reading) or freely chosen sends; the MPI model's buffer checks are the assertions.",
"C27": "The sweep inside each loop is replaced by one returning arbitrary (symbolic) iterates; the loop's decisions are compared with the stopping rule on the same iterates, decided by Z3 on nonlinear reals.",
"C28": "Happens-before race check on every memory access of the threaded regions, for all sweeps of `main()` and the traverser; some runs with thread preemption.",
"C29": "`Problem::hatL2Error` and `diffBetweenGroups` on symbolic fluxes, compared (squared, to avoid roots) with the norms over the global cells.",
"C30": "`main()` of both information tools (`util/SerialMeshInfo.cc`, `util/ParallelMeshInfo.cc`) run on in-memory files whose fields are arbitrary 64-bit values; `printf` and `puts` are replaced by a recorder of words and values (with printf's truncation by length modifier), and the stream is compared term by term with the expected one. Equal terms are equal solver terms; the solver decides the paths over boundary types.",
"C31": "The runs of the other properties named below with their assertions switched off (`--kinds memory,ub,abort,exception`): what remains is the engine's check of every access, every use of an uninitialised value, every abort and every exception on all paths the solver finds feasible. A change that only breaks another property is not reported here.",
"C32": "`Priorities::calcPriorities` and the `SweepSchedule` constructor run on symbolic partitions and directions. The oracle computes the priorities from the definitions in the user guide on the whole graph (whose edges come from the real mesh); the two documents differ in details (a leaf has b-level 0 or 1; a cell with children on both sides of a partition boundary), so an order is demanded only where all readings agree. For calcPriorities the returned numbers are compared pairwise; for schedules the observable consequence is checked: at each place of the work list no ready cell of that rank has a higher priority. Tests cannot see priorities at all: they change the order, not the flux. The b-levels of calcPriorities are local to the rank, which contradicts the user guide: recorded as a known finding (run traverse-whole-graph) and not repaired, because doComm=false looks like a deliberate trade of start-up time.",
}
