# Runs that decide each property.  See DESIGN.md for what each one encodes.
REAL = "doubles that carry physics (directions, fluxes, cross sections, coordinates where symbolic) are exact reals in the encoding; rounding is outside the claim"
MPI = "the MPI library is modelled (rt/mpimock.cc): reliable, per-sender FIFO, eager / rendezvous / arbitrary buffering and arbitrary completion order as stated per run; ranks have separate memory"
OMP = "OpenMP is modelled: team size = configured threads, static schedule, threads run in an order chosen per run; races are found by a happens-before check on every access, so they do not depend on the order"
T = "h_traverse.cc"
MESH = {0: "1 tetrahedron", 1: "2 tetrahedra", 2: "cube in 5 tetrahedra", 3: "cube in 6 tetrahedra", 4: "strip of 3 tetrahedra", 5: "fan of 4 tetrahedra around an edge", 8: "a sliver, a tiny and a far-away tetrahedron", 6: "two cubes in 10 tetrahedra", 7: "strip of 4 tetrahedra"}
SEND = {0: "eager sends", 1: "rendezvous sends", 2: "each send eager or rendezvous, free choice", 3: "each send eager or rendezvous, free choice (then rendezvous)"}
def desc(p, dflt_mesh=2):
    b = [MESH[p.get("mesh", dflt_mesh)]]
    r = p.get("ranks", 1)
    b.append("1 rank" if r == 1 else "%d ranks, %s" % (r, "every partition without empty rank" if p.get("part", -1) < 0 else "partition code %d" % p["part"]))
    if p.get("threads", 1) > 1: b.append("%d threads" % p["threads"])
    if r > 1 and (p.get("comm", 1)): b.append(SEND[p.get("sendmode", 0)] + (", first %d operations per rank" % p["choices"] if "choices" in p else "") + (", up to %d arrival delays" % p["delay"] if p.get("delay") else "") + (", any-source order free" if p.get("anychoice") else ""))
    return b
def t(name, **p):
    o = p.pop("opt", {}); q = dict(name=name, harness=T, require=["sweep finished", "all ranks finished"]); q.update(o); q["params"] = p
    b = desc(p); a = p.get("angles", 1); sd = p.get("symdir", 1)
    b.append("%d direction(s)%s" % (a, ", every non-grazing direction" if sd and a == 1 else ", every non-grazing opposite pair" if p.get("opposite") else ", first one arbitrary non-grazing" if sd else ", fixed"))
    b.append("per-step limit %s" % (p["maxstep"] if p.get("maxstep") else "1..%d" % p.get("steps", 2)))
    if p.get("symprio"): b.append("arbitrary 64-bit priorities for %d (cell,direction) pairs" % p["symprio"])
    if p.get("symdata"): b.append("arbitrary packet contents")
    if p.get("sweeps", 1) > 1: b.append("%d consecutive sweeps" % p["sweeps"])
    if p.get("backward"): b.append("backward")
    b.append("Capsaicin mode" if p.get("mpitype") else "Tycho mode") if p.get("ranks", 1) > 1 else 0
    q["bounds"] = ", ".join(b); return q
RD = dict(require=["sweep finished", "all ranks finished", "remote dependency"])
LD = dict(require=["sweep finished", "all ranks finished", "local dependency"])
def race(o=None): d = dict(no_race=False); d.update(o or {}); return d
NOT_APPLICABLE = {}
PROPS = {}
PROPS["C01"] = dict(assumptions=[REAL, MPI, OMP], outside="meshes, ranks, directions and per-step limits beyond those listed; directions parallel to a face (|omega.n| <= 1e-9)", runs=[
    t("all-directions", mesh=2, symdir=1, steps=2, opt=LD),
    t("all-priorities", mesh=2, symprio=5, opt=LD),
    t("backward-priorities", mesh=5, backward=1, symprio=4, opt=LD),
    t("two-ranks-all-partitions-cube", mesh=2, ranks=2, steps=1, opt=RD),
    t("two-ranks-all-partitions-data", mesh=4, ranks=2, steps=2, symdata=1, opt=RD),
    t("two-ranks-backward", mesh=4, ranks=2, steps=2, backward=1, opt=RD),
    t("no-communication", mesh=4, ranks=2, steps=2, comm=0),
    t("three-ranks-all-partitions", mesh=4, ranks=3, opt=RD),
    t("threads", mesh=2, threads=2, angles=2, symdir=2, opposite=1, steps=1, preempt=1, opt=dict(thorough=dict(steps=2))),
    t("thread-order", mesh=4, ranks=2, part=2, threads=2, angles=2, symdir=2, opposite=1, steps=1, omporder=1, opt=RD),
    t("capsaicin-two-ranks", mesh=4, ranks=2, steps=2, mpitype=1, opt=RD),
    t("parallel-faces", mesh=3, symdir=0, angles=4, steps=2, opt=LD),
    t("parallel-faces-backward", mesh=3, symdir=0, angles=4, steps=2, backward=1, opt=LD),
    t("parallel-faces-two-ranks", mesh=3, ranks=2, symdir=0, angles=2, maxstep=1, backward=1, opt=RD),
    t("ten-cells", mesh=6, symdir=1, steps=3, opt=dict(thorough_only=True, timeout=800)),
    t("two-ranks-strip", mesh=7, ranks=2, maxstep=1, angles=2, symdir=2, opposite=1, opt=dict(thorough_only=True, timeout=600)),
])
PROPS["C02"] = dict(assumptions=[REAL, MPI, OMP], outside="more than 3 ranks, more messages than the meshes listed produce, more free buffering choices or arrival delays than stated, message loss", runs=[
    t("tycho-eager-all-partitions", mesh=4, ranks=2, steps=2, opt=RD),
    t("tycho-rendezvous", mesh=4, ranks=2, steps=2, sendmode=1, opt=RD),
    t("tycho-free-buffering", mesh=4, ranks=2, part=2, steps=1, sendmode=2, choices=2, opt=dict(RD, thorough=dict(part=-1))),
    t("tycho-three-ranks", mesh=7, ranks=3, part=18, steps=2, anychoice=1, opt=RD),
    t("tycho-delays", mesh=4, ranks=2, part=2, steps=2, delay=2, opt=RD),
    t("capsaicin-delays", mesh=4, ranks=2, part=2, steps=2, mpitype=1, delay=2, opt=RD),
    t("capsaicin-rendezvous", mesh=4, ranks=2, part=2, steps=2, mpitype=1, sendmode=1, angles=2, symdir=2, opposite=1, opt=RD),
    t("capsaicin-free-buffering", mesh=4, ranks=2, part=2, steps=1, mpitype=1, sendmode=2, choices=2, opt=RD),
    t("tycho-consecutive-sweeps", mesh=4, ranks=3, part=21, steps=2, sweeps=2, angles=2, symdir=2, opposite=1, mpitype=0, sendmode=1, opt=RD),
    t("capsaicin-consecutive-sweeps", mesh=4, ranks=2, part=2, steps=2, sweeps=2, angles=2, symdir=2, opposite=1, mpitype=1, delay=1, opt=dict(RD, thorough=dict(ranks=3, part=21))),
    t("capsaicin-three-ranks-delays", mesh=4, ranks=3, part=21, steps=2, mpitype=1, delay=1, opt=dict(RD, thorough=dict(delay=2))),
    t("backward-capsaicin", mesh=4, ranks=2, part=2, steps=2, mpitype=1, backward=1, opt=RD),
    t("threads-capsaicin", mesh=5, ranks=2, steps=1, part=9, threads=2, angles=2, symdir=2, opposite=1, mpitype=1, delay=1, opt=dict(RD, thorough=dict(steps=2))),
    t("tycho-strip-all-partitions", mesh=7, ranks=2, maxstep=1, angles=2, symdir=2, opposite=1, opt=dict(RD, thorough_only=True, timeout=800)),
    t("capsaicin-strip-all-partitions", mesh=7, ranks=2, maxstep=1, angles=2, symdir=2, opposite=1, mpitype=1, delay=1, opt=dict(RD, thorough_only=True, timeout=800)),
])

def r(name, harness, bounds, require, **p):
    o = p.pop("opt", {}); q = dict(name=name, harness=harness, require=require, bounds=bounds); q.update(o); q["params"] = p; return q
NF = "polynomial identities are decided by exact normal form (113-bit coefficients, relative 1e-12 to absorb the rounding of constants such as 1/12) before the solver is asked; comparisons whose sign follows from the input ranges are decided by interval arithmetic"
ND = dict(no_div0=True)
def cell(name, bounds, **p): return r(name, "h_cell.cc", bounds, ["all cells"], **p)
PROPS["C03"] = dict(assumptions=[REAL, NF, "oracle: the linear discontinuous Galerkin equations written out in harness/h_cell.cc from the node coordinates of the mesh"], outside="tetrahedron shapes other than those of the listed meshes; directions other than those listed for the two elimination methods with data-dependent control flow; cross sections outside [0.01, 100]", runs=[
    cell("source-and-inflow", "every source and inflow in [-1,1], 8 directions, 4 cross sections, 4 methods, 2 groups, 1 tetrahedron", dirs=8),
    cell("vertex-orders", "every source and inflow, all 24 vertex orders, 3 directions, 4 methods", mesh=0, perm=1, dirs=3, sigmas=1),
    cell("cube", "every source and inflow, all cells of the cube in 5 tetrahedra, 2 directions, 2 cross sections, 4 methods", mesh=2, dirs=2, sigmas=2),
    cell("fan-three-groups", "every source and inflow, fan of 4 tetrahedra, 4 directions, 3 groups, 4 methods", mesh=5, dirs=4, sigmas=1, groups=3),
    cell("all-directions-cramer-glu", "every direction in [-1,1]^3, cross section in [0.1,10], source, inflow; 1 tetrahedron", mesh=0, cells=1, symdir=3, symsigma=1, groups=1, method=2, opt=ND),
    cell("all-directions-cramer-intel", "every direction in [-1,1]^3, cross section in [0.1,10], source, inflow; 1 tetrahedron", mesh=0, cells=1, symdir=3, symsigma=1, groups=1, method=3, opt=ND),
    cell("all-cross-sections-no-pivot", "every cross section in [0.1,10], source, inflow; 2 directions, 1 tetrahedron", mesh=0, cells=1, dirs=2, symsigma=1, groups=1, method=1, opt=ND),
    cell("tiny-cells", "every source and inflow, fan of 4 tetrahedra scaled by 2^-40, 8 directions, 4 cross sections scaled by 2^40, 4 methods", mesh=5, dirs=8, groups=1, scale2=40),
    cell("huge-cells", "every source and inflow, fan of 4 tetrahedra scaled by 2^20, 8 directions, 4 cross sections scaled by 2^-20, 4 methods", mesh=5, dirs=8, groups=1, scale2=-20),
    cell("all-directions-cube", "every direction and cross section, each cell of the cube", mesh=2, symdir=3, symsigma=1, groups=1, method=3, opt=dict(ND, thorough_only=True, timeout=800)),
    cell("vertex-orders-all", "every source and inflow, all 24 vertex orders of an irregular cell, 8 directions, 4 methods, 4 cross sections", mesh=1, perm=1, dirs=8, opt=dict(thorough_only=True, timeout=800)),
])
def elim(name, bounds, **p): o = dict(without=["Transport"], no_div0=True); o.update(p.pop("opt", {})); return r(name, "h_elim.cc", bounds, ["solved"], opt=o, **p)
PROPS["C04"] = dict(assumptions=[REAL, NF, "for the symbolic runs divisors are assumed non-zero (the matrices for which the method is defined)", "if the kernel no longer exists as gaussElim4 the check is vacuous for it and C03 remains"], outside="for the pivoting method: matrices farther than the stated box from the listed patterns and their row permutations", runs=[
    elim("no-pivot-all-matrices", "all 16 entries and the right-hand side arbitrary", method=1, opt=dict(no_native=True)),
    elim("cramer-glu-all-matrices", "all 16 entries and the right-hand side arbitrary", method=2, opt=dict(no_native=True)),
    elim("cramer-intel-all-matrices", "all 16 entries and the right-hand side arbitrary", method=3, opt=dict(no_native=True)),
    elim("pivot-row-orders", "every right-hand side, 4 matrix patterns (dense and with zeros) times all 24 row orders", method=0, conc=1, rows=1, bases=4),
    elim("cramer-row-orders", "every right-hand side, 4 matrix patterns times all 24 row orders", method=3, conc=1, rows=1, bases=4),
    elim("cramer-glu-row-orders", "every right-hand side, 4 matrix patterns times all 24 row orders", method=2, conc=1, rows=1, bases=4),
    elim("pivot-neighbourhoods-sparse", "all 16 entries within 1/128 of a permuted pattern with zeros (24 row orders), every right-hand side", method=0, box=128, rows=1, base=3),
    elim("pivot-neighbourhoods-zero-pivot", "all 16 entries within 1/512 of a permuted pattern with zero pivots (24 row orders), every right-hand side", method=0, box=512, rows=1, base=2),
    elim("pivot-tiny-entries", "every right-hand side, 4 matrix patterns times all 24 row orders, entries scaled by 2^-60", method=0, conc=1, rows=1, bases=4, scale2=60),
    elim("pivot-huge-entries", "every right-hand side, 4 matrix patterns times all 24 row orders, entries scaled by 2^40", method=0, conc=1, rows=1, bases=4, scale2=-40),
    elim("cramer-tiny-entries", "every right-hand side, 4 matrix patterns times all 24 row orders, entries scaled by 2^-60", method=3, conc=1, rows=1, bases=4, scale2=60),
    elim("pivot-neighbourhoods-dense", "all 16 entries within 1/512 of a permuted dense pattern (24 row orders), every right-hand side", method=0, box=512, rows=1, base=0, opt=dict(thorough_only=True, timeout=600)),
    elim("pivot-neighbourhoods-dense-2", "all 16 entries within 1/512 of a second permuted dense pattern (24 row orders), every right-hand side", method=0, box=512, rows=1, base=1, opt=dict(thorough_only=True, timeout=600)),
])

def mesh(name, bounds, req=("all ranks",), **p): return r(name, "h_mesh.cc", bounds, list(req), **p)
GEO = ["all ranks", "geometry checked"]
PROPS["C05"] = dict(assumptions=[REAL, NF, "oracle: cross and triple products of the node coordinates of the file, written out in harness/h_mesh.cc", "quadrature directions replaced by arbitrary vectors in [-1,1]^3 (the quantity is linear in the direction)"], outside="tetrahedra outside the stated boxes around the listed shapes; degenerate cells", runs=[
    mesh("vertex-orders", "all 24 vertex orders of a tetrahedron, every direction", GEO, mesh=0, geom=1, symdir=1, permcells=1),
    mesh("apex-anywhere", "right tetrahedron whose fourth vertex is anywhere in [-2,2]x[-2,2]x[2^-10,4] (flat to tall), every direction", GEO, mesh=0, geom=1, symdir=1, apex=1),
    mesh("sliver-tiny-far", "a sliver, a tiny and a far-away cell, 24 vertex orders, every direction", GEO, mesh=8, geom=1, symdir=1, permcells=1),
    mesh("first-vertex-anywhere", "tetrahedron whose first vertex is anywhere within 1/4 of its place in each coordinate, every direction", GEO, mesh=0, geom=1, symdir=1, box=4, boxnodes=1),
    mesh("all-coordinates", "two tetrahedra, all 15 node coordinates arbitrary within 1/64, all 24 vertex orders of the first, every direction", GEO, mesh=1, geom=1, symdir=1, box=64, permcells=1),
    mesh("all-coordinates-second-cell", "two tetrahedra, all 15 node coordinates arbitrary within 1/64, all 24 vertex orders of the second, every direction", GEO, mesh=1, geom=1, symdir=1, box=64, permcells=1, permfirst=1),
    mesh("cube-ranks", "cube in 5 tetrahedra, every partition over 2 ranks, every direction", GEO, mesh=2, geom=1, symdir=1, ranks=2),
    mesh("quadrature-directions", "fan of 4 tetrahedra, the 8 directions of the S2 quadrature, 6 vertex orders in faces", GEO, mesh=5, geom=1, angles=8, rots=6),
    mesh("face-orders", "fan of 4 tetrahedra, 6 vertex orders in faces, 2 orders of face lists, every direction", GEO, mesh=5, geom=1, symdir=1, rots=6, revs=1),
    mesh("tiny-cells", "fan of 4 tetrahedra scaled by 2^-40, 24 vertex orders, every direction", GEO, mesh=5, geom=1, symdir=1, permcells=1, scale2=40),
    mesh("huge-cells", "fan of 4 tetrahedra scaled by 2^20, 24 vertex orders, every direction", GEO, mesh=5, geom=1, symdir=1, permcells=1, scale2=-20),
    mesh("tiny-all-coordinates", "two tetrahedra scaled by 2^-30, all 15 node coordinates arbitrary within 1/64 of the size, every direction", GEO, mesh=1, geom=1, symdir=1, box=64, scale2=30),
    mesh("all-coordinates-strip", "strip of 3 tetrahedra, all coordinates within 1/64, all vertex orders of one cell", GEO, mesh=4, geom=1, symdir=1, box=64, permcells=1, permfirst=1, opt=dict(thorough_only=True, timeout=800)),
])
PROPS["C06"] = dict(assumptions=[MPI, "meshes are conforming; nodes have distinct coordinates"], outside="meshes and rank counts beyond those listed", runs=[
    mesh("face-orders", "cube in 5 tetrahedra, 1 rank, 6 vertex orders in faces, 2 orders of face lists", ["all ranks", "interior face", "mesh boundary"], mesh=2, topo=1, rots=6, revs=1),
    mesh("cell-vertex-orders", "two tetrahedra, all 576 vertex orders of the two cells", ["all ranks", "interior face"], mesh=1, topo=1, permcells=2),
    mesh("two-ranks-cube", "cube in 5 tetrahedra, every partition over 2 ranks, 3 vertex orders in faces", ["all ranks", "shared side"], mesh=2, topo=1, ranks=2, rots=3),
    mesh("two-ranks-vertex-orders", "two tetrahedra on 2 ranks, all 576 vertex orders of the two cells", ["all ranks", "shared side"], mesh=1, topo=1, ranks=2, permcells=2),
    mesh("three-ranks-strip", "strip of 4 tetrahedra, every partition over 3 ranks, 3 vertex orders in faces", ["all ranks", "shared side"], mesh=7, topo=1, ranks=3, rots=3),
    mesh("two-ranks-free-buffering", "strip of 3 tetrahedra, every partition over 2 ranks, each send eager or rendezvous", ["all ranks", "shared side"], mesh=4, topo=1, ranks=2, sendmode=2, delay=1),
    mesh("three-ranks-rendezvous", "fan of 4 tetrahedra, every partition over 3 ranks, rendezvous sends", ["all ranks", "shared side"], mesh=5, topo=1, ranks=3, sendmode=1),
    mesh("tiny-cells", "strip of 3 tetrahedra scaled by 2^-40, every partition over 2 ranks, 6 vertex orders in faces", ["all ranks", "shared side"], mesh=4, topo=1, ranks=2, rots=6, scale2=40),
    mesh("ten-cells-two-ranks", "two cubes in 10 tetrahedra, every partition over 2 ranks", ["all ranks", "shared side"], mesh=6, topo=1, ranks=2, opt=dict(thorough_only=True, timeout=800)),
    mesh("cube-six-three-ranks", "cube in 6 tetrahedra, every partition over 3 ranks", ["all ranks", "shared side"], mesh=3, topo=1, ranks=3, opt=dict(thorough_only=True, timeout=800)),
])
FL = ["all ranks", "flow inside a rank"]; FR = ["all ranks", "flow across ranks"]
PROPS["C07"] = dict(assumptions=[REAL, NF, MPI, "directions replaced by arbitrary vectors in [-1,1]^3"], outside="meshes and rank counts beyond those listed; directions with |omega.n| <= 1e-9 (a face that close to parallel counts as neither incoming nor outgoing)", runs=[
    mesh("cube-one-rank", "cube in 6 tetrahedra, every direction, 6 vertex orders in faces", FL, mesh=3, flow=1, symdir=1, rots=6),
    mesh("vertex-orders", "two tetrahedra, all 576 vertex orders, every direction", FL, mesh=1, flow=1, symdir=1, permcells=2),
    mesh("cube-two-ranks", "cube in 5 tetrahedra, every partition over 2 ranks, every direction", FR, mesh=2, flow=1, symdir=1, ranks=2),
    mesh("strip-three-ranks", "strip of 3 tetrahedra, every partition over 3 ranks, every direction", FR, mesh=4, flow=1, symdir=1, ranks=3),
    mesh("vertex-orders-two-ranks", "two tetrahedra on 2 ranks, all 576 vertex orders, every direction", FR, mesh=1, flow=1, symdir=1, ranks=2, part=2, permcells=2),
    mesh("all-coordinates", "two tetrahedra, all 15 node coordinates arbitrary within 1/64, 24 vertex orders, every direction: flow seen from the two sides is exactly opposite", FL, mesh=1, flow=1, symdir=1, box=64, complement=0, permcells=1),
    mesh("all-coordinates-two-ranks", "the same with the two cells on different ranks", FR, mesh=1, flow=1, symdir=1, box=64, complement=0, permcells=1, ranks=2, part=2),
    mesh("tiny-cells", "two tetrahedra scaled by 2^-40, 24 vertex orders, every direction", FL, mesh=1, flow=1, symdir=1, permcells=1, scale2=40),
    mesh("tiny-cells-two-ranks", "strip of 3 tetrahedra scaled by 2^-40, every partition over 2 ranks, every direction", FR, mesh=4, flow=1, symdir=1, ranks=2, scale2=40),
    mesh("huge-cells", "cube in 6 tetrahedra scaled by 2^20, every direction", FL, mesh=3, flow=1, symdir=1, scale2=-20),
    mesh("ten-cells-two-ranks", "two cubes in 10 tetrahedra, every partition over 2 ranks, every direction", FR, mesh=6, flow=1, symdir=1, ranks=2, opt=dict(thorough_only=True, timeout=850)),
])

SWN = ["OriginalTycho1", "OriginalTycho2", "TraverseGraph", "PBJ", "PBJOuter", "Schur", "SchurOuter", "PBJSI", "SchurKrylov"]
MAINSRC = [("src/Main.cc", ["-Dmain=tycho_main"])]
def m(name, **p):
    o = dict(no_div0=True, extra_src=MAINSRC); o.update(p.pop("opt", {})); more = p.pop("more", "")
    req = ["flux compared"] + (["sweep " + SWN[i] for i in [2, 0, 1, 3, 4, 5, 6, 7, 8][:p["sweeps"]]] if p.get("sweeps") else ["sweep " + SWN[p.get("sweep", 2)]])
    b = ["the real main(): " + ("each of %d sweep types" % p["sweeps"] if p.get("sweeps") else SWN[p.get("sweep", 2)])] + desc(dict(p, comm=1), 4)
    b.append("8 directions of S2, %d group(s)" % p.get("groups", 1)); b.append("per-step limit %s" % (p["maxstep"] if p.get("maxstep") else "1..%d" % p["steps"] if p.get("steps") else "100"))
    if p.get("intra"): b.append("intra-angle priority option %s" % ("0..4" if p["intra"] < 0 else p["intra"]))
    if p.get("inter"): b.append("inter-angle priority option %s" % ("0..2" if p["inter"] < 0 else p["inter"]))
    if p.get("scatter"): b.append("two materials with scattering, " + ("converged" if p.get("converged") else "%d source iterations" % p.get("iters", 1)))
    if p.get("mpitype"): b.append("both communication modes" if p["mpitype"] < 0 else "Capsaicin mode")
    if p.get("preempt"): b.append("up to %d thread preemptions" % p["preempt"])
    if not p.get("skew"): b.append("axis-aligned mesh (faces parallel to directions)") if p.get("mesh", 4) in (2, 3, 6) else 0
    b.append("every external source in [-1,1]" + (" for %d of the directions" % p["symangles"] if "symangles" in p else ""))
    if more: b.append(more)
    q = dict(name=name, harness="h_main.cc", require=req, bounds=", ".join(b)); q.update(o); q["params"] = p; return q
MA = [REAL, NF, MPI, OMP, "PETSc is replaced by an exact linear solver over the operator the code registers (rt/petscmock.cc)", "oracle: a dense solve of the cell equations in harness/ref.hh, ordered by the flow direction", "the source routine Problem::getSource is replaced by an arbitrary source; the rest of the program is the real one"]
PROPS["C10"] = dict(assumptions=MA, outside="meshes, rank and thread counts beyond those listed; orders above S2; several free choices at once beyond those listed", runs=[
    m("all-sweeps-one-rank", sweeps=9, mesh=2, skew=1),
    m("all-sweeps-parallel-faces", sweeps=4, mesh=3),
    m("traverse-two-ranks", sweep=2, mesh=2, skew=1, ranks=2, steps=2),
    m("tycho1-two-ranks", sweep=0, mesh=2, skew=1, ranks=2, steps=2),
    m("tycho2-two-ranks", sweep=1, mesh=2, skew=1, ranks=2, steps=2),
    m("traverse-parallel-faces-two-ranks", sweep=2, mesh=3, ranks=2),
    m("tycho1-parallel-faces-two-ranks", sweep=0, mesh=3, ranks=2),
    m("tycho2-three-ranks", sweep=1, mesh=7, skew=1, ranks=3, steps=2),
    m("traverse-three-ranks", sweep=2, mesh=7, skew=1, ranks=3, steps=2, mpitype=-1),
    m("tycho1-three-ranks", sweep=0, mesh=7, skew=1, ranks=3, steps=2),
    m("pbj-parallel-faces", sweep=3, mesh=3, ranks=2, part=38, dditer=10, symangles=2),
    m("pbjsi-parallel-faces", sweep=7, mesh=3, ranks=2, part=38, dditer=8, converged=1, symangles=2),
    m("pbj-two-ranks", sweep=3, mesh=4, skew=1, ranks=2),
    m("pbj-outer-two-ranks", sweep=4, mesh=4, skew=1, ranks=2, dditer=4, converged=1),
    m("schur-two-ranks", sweep=5, mesh=4, skew=1, ranks=2),
    m("schur-outer-three-ranks", sweep=6, mesh=4, skew=1, ranks=3, dditer=4, converged=1),
    m("pbjsi-two-ranks", sweep=7, mesh=4, skew=1, ranks=2, converged=1),
    m("schur-krylov-two-ranks", sweep=8, mesh=4, skew=1, ranks=2, converged=1),
    m("threads-all-sweeps", sweeps=3, mesh=4, skew=1, ranks=2, threads=2, steps=2),
    m("threads-three", sweeps=3, mesh=5, skew=1, threads=3),
    m("two-groups-eliminations", sweeps=3, mesh=4, skew=1, ranks=2, part=2, groups=2, elim=3),
    m("pivoting-elimination", sweep=2, mesh=4, skew=1, ranks=2, elim=0),
    m("scattering-two-ranks", sweeps=3, mesh=4, skew=1, ranks=2, scatter=1, iters=2),
    m("scattering-krylov", sweep=2, mesh=4, skew=1, ranks=2, scatter=1, si=0, converged=1),
    m("three-groups-all-sweeps", sweeps=9, mesh=4, skew=1, ranks=2, part=2, groups=3),
    m("ten-cells-two-ranks", sweep=2, mesh=6, skew=1, ranks=2, opt=dict(thorough_only=True, timeout=800)),
    m("ten-cells-two-ranks-tycho1", sweep=0, mesh=6, skew=1, ranks=2, steps=3, opt=dict(thorough_only=True, timeout=800)),
    m("ten-cells-two-ranks-tycho2", sweep=1, mesh=6, skew=1, ranks=2, steps=3, threads=2, opt=dict(thorough_only=True, timeout=800)),
    m("cube-three-ranks", sweeps=3, mesh=3, ranks=3, opt=dict(thorough_only=True, timeout=800)),
])
def s(name, **p):
    o = p.pop("opt", {}); req = ["checked"] + (["local dependency"] if p.get("part", -1) < 0 and p.get("ranks", 1) == 1 else []) + (["remote dependency", "scheduled send"] if p.get("ranks", 1) > 1 else [])
    b = ["SweepSchedule itself"] + desc(dict(p, comm=1), 4); n = p.get("angles", 8)
    b.append("the first %d directions, %s" % (n, "every non-grazing opposite pair" if p.get("opposite") else "every non-grazing direction" if p.get("symdir") else "S2 quadrature")); b.append("per-step limit %s" % (p["maxstep"] if p.get("maxstep") else "1..%d" % p.get("steps", 2)))
    b.append("intra-angle option %s, inter-angle option %s" % (p.get("intra", "0..4"), p.get("inter", "0..2")))
    q = dict(name=name, harness="h_sched.cc", require=req, bounds=", ".join(b)); q.update(o); q["params"] = p; return q
PROPS["C09"] = dict(assumptions=[REAL, MPI, OMP, "rand() is a fixed generator (the code seeds it with srand(0), so priorities are deterministic)"], outside="meshes, rank counts and per-step limits beyond those listed; meshes whose dependency graph has cycles", runs=[
    s("one-rank-options", mesh=2, skew=1, steps=3),
    s("strip-two-ranks-options", mesh=4, ranks=2, steps=3),
    s("cube-two-ranks-levels", mesh=2, skew=1, ranks=2, steps=2, intra=1, inter=0),
    s("cube-two-ranks-depth-first", mesh=2, skew=1, ranks=2, maxstep=2, intra=4),
    s("parallel-faces-two-ranks", mesh=3, ranks=2, maxstep=3, intra=2),
    s("strip-three-ranks-options", mesh=7, ranks=3, maxstep=2),
    s("all-directions", mesh=4, ranks=2, part=2, maxstep=1, angles=2, symdir=1, opposite=1),
    s("all-directions-cube", mesh=2, maxstep=2, angles=1, symdir=1, intra=3, inter=1),
    s("rendezvous", mesh=4, ranks=3, part=21, maxstep=2, sendmode=1),
    s("free-buffering", mesh=4, ranks=2, part=2, maxstep=4, angles=4, sendmode=2, choices=2, intra=1, inter=2),
    s("second-angle-group", mesh=4, ranks=2, maxstep=2, first=3, count=4),
    m("tycho1-options", sweep=0, mesh=4, skew=1, ranks=2, steps=2, intra=-1, inter=-1),
    m("tycho2-options", sweep=1, mesh=4, skew=1, ranks=2, steps=2, intra=-1, inter=-1),
    m("tycho2-threads-options", sweep=1, mesh=4, skew=1, ranks=2, part=2, threads=2, steps=2, intra=-1, inter=-1),
    m("tycho1-rendezvous", sweep=0, mesh=7, skew=1, ranks=3, maxstep=4, sendmode=1, symangles=1),
    m("tycho2-rendezvous", sweep=1, mesh=7, skew=1, ranks=3, maxstep=4, sendmode=1, symangles=1),
    m("tycho1-free-buffering", sweep=0, mesh=4, skew=1, ranks=2, part=2, maxstep=8, sendmode=2, choices=2, symangles=1),
    m("tycho2-free-buffering", sweep=1, mesh=4, skew=1, ranks=2, part=2, maxstep=8, threads=2, sendmode=2, choices=2, symangles=1),
    s("ten-cells-two-ranks", mesh=6, skew=1, ranks=2, maxstep=3, intra=3, inter=1, opt=dict(thorough_only=True, timeout=850)),
    s("cube-three-ranks", mesh=3, ranks=3, maxstep=2, intra=1, inter=2, opt=dict(thorough_only=True, timeout=850)),
    s("all-directions-strip", mesh=4, ranks=2, steps=2, angles=2, symdir=1, opposite=1, opt=dict(thorough_only=True, timeout=850)),
])
PROPS["C18"] = dict(assumptions=MA, outside="meshes and rank counts beyond those listed; output files beyond 32 kB; failing file systems", runs=[
    m("one-rank", sweep=2, mesh=2, skew=1),
    m("two-ranks-all-partitions", sweep=2, mesh=2, skew=1, ranks=2),
    m("three-ranks-all-partitions", sweep=2, mesh=7, skew=1, ranks=3),
    m("two-groups", sweep=0, mesh=4, skew=1, ranks=2, groups=2),
    m("three-groups-three-ranks", sweep=2, mesh=4, skew=1, ranks=3, groups=3, symangles=2),
    m("existing-file", sweep=2, mesh=4, skew=1, ranks=2, stale=1, more="an older, longer output file exists"),
    m("other-sweeps", sweeps=6, mesh=4, skew=1, ranks=2, part=5, dditer=4, converged=1),
    m("four-ranks", sweep=2, mesh=7, skew=1, ranks=4, part=27),
    m("ten-cells-two-ranks", sweep=2, mesh=6, skew=1, ranks=2, symangles=2, opt=dict(thorough_only=True, timeout=800)),
])
def it(name, bounds, kind, **p):
    o = dict(no_div0=True); o.update(p.pop("opt", {})); req = ["done"] if kind == 4 else ["done", "went on", "converged", "limit reached"] if p.pop("conv", 1) else ["done", "limit reached"]
    b = [["SourceIteration::fixedPoint", "SweeperPBJ::sweep", "SweeperPBJOuter::solve", "SweeperPBJSI::solve", "SourceIteration::krylov"][kind], bounds, "%d rank(s), %d group(s)" % (p.get("ranks", 1), p.get("groups", 1))]
    q = dict(name=name, harness="h_iter.cc", require=req, bounds=", ".join(b)); q.update(o); q["params"] = dict(p, kind=kind); return q
FI = "each iterate arbitrary in one flux entry per rank"
PROPS["C27"] = dict(assumptions=[REAL, NF, MPI, "the transport sweep inside the loop is replaced by one that returns arbitrary iterates; PETSc is replaced by rt/petscmock.cc", "convergence is decided up to a relative 1e-9 of the tolerance"], outside="more iterations than listed; tolerances of 1 or more (source iteration then makes no sweep, the initial error being 1); the stopping rule inside PETSc", runs=[
    it("source-iteration", FI + " in [-2,2], limit 4", 0, limit=4, neg=1),
    it("source-iteration-two-ranks", FI + " in [-2,2], limit 3", 0, limit=3, neg=1, ranks=2),
    it("source-iteration-two-entries", "each iterate arbitrary in two flux entries, limit 3", 0, limit=3, free=2, opt=dict(thorough=dict(limit=4))),
    it("source-iteration-limits", "limits 0..2, 3 tolerances", 0, nolimit=1, tols=3, groups=2, conv=0),
    it("jacobi", FI + " in [-2,2], limit 5", 1, limit=5, neg=1),
    it("jacobi-two-ranks", FI + " in [0.25,2], limit 4", 1, limit=4, ranks=2),
    it("jacobi-limits", "limits 0..2, 3 tolerances", 1, nolimit=1, tols=3, conv=0),
    it("jacobi-outer", FI + " in [-2,2], limit 5", 2, limit=5, neg=1, opt=dict(thorough=dict(limit=6))),
    it("jacobi-outer-two-ranks", FI + " in [0.25,2], limit 4", 2, limit=4, ranks=2),
    it("jacobi-source-iteration", FI + " in [-2,2], limit 5", 3, limit=5, neg=1),
    it("jacobi-source-iteration-two-ranks", FI + " in [-2,2], limit 4", 3, limit=4, neg=1, ranks=2),
    it("krylov", "tolerance and limit passed on", 4, groups=2),
    it("krylov-two-ranks", "tolerance and limit passed on", 4, ranks=2),
    m("iterations-of-the-program", sweeps=3, mesh=4, skew=1, ranks=2, part=2, scatter=1, iters=3),
    m("jacobi-sweeps-of-the-program", sweep=7, mesh=4, skew=1, ranks=2, part=2, dditer=5),
])
PROPS["C22"] = dict(assumptions=MA, outside="meshes and rank counts beyond those listed; the numerical behaviour of PETSc's Krylov method itself", runs=[
    m("schur-two-ranks", sweep=5, mesh=2, skew=1, ranks=2, linear=1, symangles=2),
    m("schur-three-ranks", sweep=5, mesh=4, skew=1, ranks=3, linear=1),
    m("schur-two-groups", sweep=5, mesh=4, skew=1, ranks=2, groups=2, linear=1),
    m("schur-parallel-faces", sweep=5, mesh=3, ranks=2, part=38, linear=1, symangles=2),
    m("schur-outer-parallel-faces", sweep=6, mesh=3, ranks=2, part=38, dditer=8, converged=1, linear=1, symangles=2),
    m("schur-krylov-parallel-faces", sweep=8, mesh=3, ranks=2, part=38, converged=1, linear=1, symangles=2),
    m("schur-scattering", sweep=5, mesh=4, skew=1, ranks=2, scatter=1, iters=2, linear=1),
    m("schur-inside-krylov", sweep=5, mesh=4, skew=1, ranks=2, part=2, si=0, scatter=1, converged=1, linear=1),
    m("schur-outer-two-ranks", sweep=6, mesh=4, skew=1, ranks=2, dditer=4, converged=1, linear=1),
    m("schur-outer-three-ranks", sweep=6, mesh=4, skew=1, ranks=3, dditer=4, converged=1, linear=1),
    m("schur-outer-two-groups", sweep=6, mesh=4, skew=1, ranks=2, groups=2, dditer=4, converged=1, linear=1, symangles=4),
    m("schur-outer-scattering", sweep=6, mesh=4, skew=1, ranks=2, scatter=2, iters=4, dditer=4, converged=1, linear=1),
    m("schur-krylov-two-ranks", sweep=8, mesh=2, skew=1, ranks=2, part=9, converged=1, linear=1, symangles=2),
    m("schur-krylov-three-ranks", sweep=8, mesh=4, skew=1, ranks=3, converged=1, linear=1),
    m("schur-krylov-scattering", sweep=8, mesh=4, skew=1, ranks=2, scatter=1, groups=2, converged=1, linear=1, symangles=4),
    m("schur-krylov-one-rank", sweep=8, mesh=2, skew=1, scatter=1, converged=1, linear=1, symangles=2),
    m("schur-threads", sweep=5, mesh=4, skew=1, ranks=2, threads=2, linear=1, symangles=4),
    m("schur-cube-three-ranks", sweep=5, mesh=2, skew=1, ranks=3, linear=1, opt=dict(thorough_only=True, timeout=850)),
    m("schur-krylov-cube-three-ranks", sweep=8, mesh=2, skew=1, ranks=3, scatter=1, converged=1, linear=1, opt=dict(thorough_only=True, timeout=850)),
])
def c(name, bounds, **p): q = r(name, "h_comm.cc", bounds, ["done", "inflow checked"], **p); return q
C8D = "every flux value (opaque), every partition, S2 directions"
PROPS["C08"] = dict(assumptions=[REAL, MPI, "flux values are opaque symbols: the exchange may only move them", "oracle: the neighbouring cell and vertex are found from the node coordinates of the mesh"], outside="meshes and rank counts beyond those listed; faces parallel to a direction carry no flux and are not compared", runs=[
    c("strip-two-ranks", "strip of 3 tetrahedra, 2 ranks, " + C8D, mesh=4, ranks=2),
    c("parallel-faces", "cube in 6 tetrahedra (faces parallel to directions), 2 ranks, " + C8D, mesh=3, ranks=2),
    c("all-directions", "cube in 5 tetrahedra, 2 ranks, every partition, every non-grazing opposite pair of directions", mesh=2, ranks=2, angles=2, symdir=2, opposite=1),
    c("one-direction", "strip of 3 tetrahedra, 2 ranks, every partition, every non-grazing direction", mesh=4, ranks=2, angles=1, symdir=1),
    c("three-ranks-rendezvous", "strip of 3 tetrahedra, 3 ranks, rendezvous sends, 2 groups, 2 consecutive exchanges, " + C8D, mesh=4, ranks=3, sendmode=1, groups=2, rounds=2),
    c("three-ranks-free", "strip of 3 tetrahedra, 3 ranks, every send eager or rendezvous, any-source order free, 2 directions", mesh=4, ranks=3, sendmode=2, anychoice=1, angles=2),
    c("two-exchanges-delays", "strip of 4 tetrahedra, 2 ranks, 2 consecutive exchanges, arrival delays up to 2, 2 directions", mesh=7, ranks=2, rounds=2, delay=2, angles=2),
    c("face-orders", "fan of 4 tetrahedra, 2 ranks, 6 vertex orders in faces, 3 directions", mesh=5, ranks=2, rots=6, angles=3),
    c("four-ranks", "strip of 4 tetrahedra, 4 ranks, " + C8D, mesh=7, ranks=4),
    c("cube-three-ranks", "cube in 5 tetrahedra, 3 ranks, 2 groups, " + C8D, mesh=2, ranks=3, groups=2),
    c("ten-cells", "two cubes in 10 tetrahedra, 2 ranks, " + C8D, mesh=6, ranks=2, opt=dict(thorough_only=True, timeout=800)),
    c("cube-six-three-ranks", "cube in 6 tetrahedra, 3 ranks, 6 vertex orders in faces, " + C8D, mesh=3, ranks=3, rots=6, opt=dict(thorough_only=True, timeout=800)),
    m("program-jacobi", sweep=3, mesh=2, skew=1, ranks=3, part=77, symangles=2),
])
RV = dict(sendmode=1)
PROPS["C26"] = dict(assumptions=[MPI, "send buffers are compared with their content at the call when the library reads them and when the operation completes; the content of a receive buffer is undefined from the call until the receive completes"], outside="message sequences beyond those the listed runs produce; buffers of MPI file operations", runs=[
    mesh("mesh-loading-rendezvous", "strip of 3 tetrahedra, every partition over 2 ranks, rendezvous sends", ["all ranks", "shared side"], mesh=4, topo=1, ranks=2, sendmode=1),
    mesh("mesh-loading-three-ranks", "strip of 4 tetrahedra, every partition over 3 ranks, rendezvous sends", ["all ranks", "shared side"], mesh=7, topo=1, ranks=3, sendmode=1),
    c("side-exchange", "strip of 3 tetrahedra, 3 ranks, rendezvous sends, 2 consecutive exchanges, " + C8D, mesh=4, ranks=3, sendmode=1, rounds=2),
    c("side-exchange-free", "strip of 3 tetrahedra, 2 ranks, every send eager or rendezvous, arrival delays, 2 exchanges, 2 directions", mesh=4, ranks=2, sendmode=2, delay=1, angles=2, rounds=2),
    t("traverse-tycho", mesh=4, ranks=2, steps=2, sendmode=1, symdata=1, opt=RD),
    t("traverse-capsaicin", mesh=4, ranks=2, steps=2, sendmode=1, mpitype=1, symdata=1, opt=RD),
    t("traverse-tycho-free", mesh=4, ranks=2, part=2, steps=1, sendmode=2, choices=2, opt=RD),
    t("traverse-capsaicin-free", mesh=4, ranks=2, part=2, steps=1, mpitype=1, sendmode=2, choices=2, opt=RD),
    t("traverse-three-ranks", mesh=7, ranks=3, part=18, steps=1, sendmode=1, mpitype=1, angles=2, symdir=2, opposite=1, opt=dict(RD, thorough=dict(steps=2))),
    s("schedule", mesh=4, ranks=3, maxstep=2, sendmode=1),
    m("tycho1", sweep=0, mesh=4, skew=1, ranks=3, steps=2, symangles=1, **RV),
    m("tycho2-threads", sweep=1, mesh=4, skew=1, ranks=2, steps=2, threads=2, symangles=1, **RV),
    m("traverse-both-modes", sweep=2, mesh=4, skew=1, ranks=3, maxstep=2, mpitype=-1, symangles=1, **RV),
    m("jacobi", sweep=3, mesh=4, skew=1, ranks=3, symangles=1, **RV),
    m("jacobi-outer", sweep=4, mesh=4, skew=1, ranks=2, dditer=4, converged=1, symangles=1, **RV),
    m("schur", sweep=5, mesh=4, skew=1, ranks=3, symangles=1, **RV),
    m("schur-outer", sweep=6, mesh=4, skew=1, ranks=2, dditer=4, converged=1, symangles=1, **RV),
    m("jacobi-source-iteration", sweep=7, mesh=4, skew=1, ranks=2, converged=1, symangles=1, **RV),
    m("schur-krylov", sweep=8, mesh=4, skew=1, ranks=2, converged=1, symangles=1, **RV),
    m("jacobi-free-buffering", sweep=3, mesh=4, skew=1, ranks=2, part=2, sendmode=2, choices=3, dditer=5, symangles=1, anychoice=1, opt=dict(timeout=120)),
])
NR = dict(no_race=False)
PROPS["C28"] = dict(assumptions=[REAL, NF, MPI, OMP, "a race is two accesses to the same byte from two threads of a region, at least one a write, without a happens-before path (barriers, critical sections, atomics, fork and join); accesses inside the C library and MPI count as accesses of the calling thread"], outside="more than 3 threads; meshes beyond those listed; vectorised loops (omp simd)", runs=[
    t("traverse-fan", mesh=5, threads=2, angles=2, symdir=2, opposite=1, steps=1, opt=NR),
    t("traverse-two-ranks", mesh=4, ranks=2, part=2, threads=2, angles=2, symdir=2, opposite=1, steps=1, opt=dict(RD, **NR)),
    t("traverse-capsaicin", mesh=4, ranks=2, part=2, threads=2, angles=2, symdir=2, opposite=1, steps=1, mpitype=1, opt=dict(RD, **NR)),
    t("traverse-preempted", mesh=2, threads=2, angles=2, symdir=2, opposite=1, steps=1, preempt=1, opt=dict(NR, thorough=dict(preempt=2))),
    m("all-sweeps-two-threads", sweeps=9, mesh=4, skew=1, threads=2, symangles=2, opt=NR),
    m("all-sweeps-three-threads", sweeps=9, mesh=4, skew=1, threads=3, groups=2, symangles=2, opt=NR),
    m("sweeps-two-ranks", sweeps=3, mesh=4, skew=1, ranks=2, threads=2, steps=2, symangles=2, opt=NR),
    m("capsaicin-two-ranks", sweep=2, mesh=4, skew=1, ranks=2, threads=2, mpitype=1, symangles=2, opt=NR),
    m("jacobi-two-ranks", sweep=3, mesh=4, skew=1, ranks=2, part=2, threads=2, symangles=2, opt=NR),
    m("schur-two-ranks", sweep=5, mesh=4, skew=1, ranks=2, part=2, threads=2, symangles=2, opt=NR),
    m("priorities", sweep=2, mesh=4, skew=1, ranks=2, part=2, threads=2, intra=-1, inter=-1, symangles=2, opt=NR),
    m("scattering-krylov", sweep=2, mesh=4, skew=1, threads=2, scatter=1, si=0, converged=1, symangles=2, opt=NR),
    m("scattering-iterations", sweeps=3, mesh=4, skew=1, ranks=2, part=2, threads=2, scatter=1, iters=2, symangles=2, opt=NR),
    m("pivoting-elimination", sweep=2, mesh=4, skew=1, threads=3, elim=0, symangles=2, opt=NR),
    m("thread-interleavings", sweeps=3, mesh=0, threads=2, preempt=2, symangles=1, opt=NR),
    m("thread-interleavings-two-ranks", sweeps=3, mesh=1, ranks=2, part=2, threads=2, preempt=1, symangles=1, opt=NR),
    m("thread-orders", sweeps=3, mesh=1, threads=2, omporder=1, symangles=1, opt=NR),
])
FS = "the C library's file functions are modelled by an in-memory file system (short reads return what is there; disk errors are outside)"
def f(name, bounds, req, **p): return r(name, "h_file.cc", bounds, req, **p)
PROPS["C11"] = dict(assumptions=[FS, "oracle: the file format of the user guide, written out in harness/h_file.cc"], outside="more than 2 cells, faces or nodes (the code loops over them uniformly); files with bytes after the documented end", runs=[
    f("round-trip", "0..2 cells, faces and nodes, every field any 64-bit value, older longer file in place", ["done", "serial file read back"], kind=0),
    f("round-trip-five", "5 cells, faces and nodes at most, every field any 64-bit value", ["done", "serial file read back"], kind=0, maxc=5, maxf=5, maxn=5, opt=dict(thorough_only=True)),
    f("malformed", "every 32-byte format name, every 64-bit version, every truncation of files of up to 1 cell, face and node", ["accepted", "<expected stop>"], kind=1, maxc=1, maxf=1, maxn=1),
])
PROPS["C12"] = dict(assumptions=[FS, MPI, "oracle: the file format of the user guide, written out in harness/h_file.cc"], outside="more than 3 partitions, more than 1 cell, face or node per partition", runs=[
    f("one-partition", "1 partition, 0..1 cells, faces, nodes, every field any 64-bit value, read whole and by its rank", ["partition read by its rank", "whole file read back"], kind=2, parts=1),
    f("two-partitions", "2 partitions of 0..1 cells, faces, nodes each, every field any 64-bit value, read whole and by each rank", ["partition read by its rank", "whole file read back"], kind=2, parts=2),
    f("three-partitions", "3 partitions of 0..1 faces and nodes each, every field any 64-bit value, read whole and by each rank", ["partition read by its rank", "whole file read back"], kind=2, parts=3, maxc=0),
    f("larger-partitions", "2 partitions of up to 2 cells and faces, every field any 64-bit value", ["partition read by its rank", "whole file read back"], kind=2, parts=2, maxc=2, maxf=2, maxn=1),
    f("malformed-by-rank", "2 partitions, every 32-byte format name, every 64-bit version and partition count, read by each rank", ["accepted", "<expected stop>"], kind=3, parts=2, par=1, maxc=1, maxf=0, maxn=0),
    f("malformed-whole", "2 partitions, every 32-byte format name, every 64-bit version, every truncation at a word", ["accepted", "<expected stop>"], kind=3, parts=2, par=0, maxc=1, maxf=0, maxn=0),
])
def pt(name, p, opt=None, **kw):
    req = ["done", "mesh boundary"] + (["rank boundary"] if p.get("parts", 2) > 1 and p["mesh"] != 8 else []) + (["empty partition"] if p.get("parts", 2) > 1 else [])
    return dict(name=name, harness="h_part.cc", params=p, require=req, bounds="%s, every assignment of its cells to %d partition(s), %sany coordinates and materials%s" % (MESH[p["mesh"]], p.get("parts", 2), "3 numberings of nodes and faces, " if p.get("renum", 1) else "", ", 6 vertex orders in faces" if p.get("rots") else ""), **(opt or {}))
PROPS["C13"] = dict(assumptions=["oracle: the serial mesh itself"], outside="meshes and partition counts beyond those listed; non-conforming meshes", runs=[
    pt("strip-face-orders", dict(mesh=4, parts=2, rots=6, revs=1)), pt("cube-three-parts", dict(mesh=2, parts=3)), pt("strip-four-parts", dict(mesh=7, parts=4)), pt("cube-six", dict(mesh=3, parts=2)), pt("disconnected", dict(mesh=8, parts=2)), pt("single", dict(mesh=0, parts=1)), pt("fan-three-parts", dict(mesh=5, parts=3, rots=6)),
    pt("ten-cells", dict(mesh=6, parts=2, renum=0), dict(thorough_only=True, timeout=600)),
])
def cl(name, bounds, opt=None, **p): return r(name, "h_cols.cc", bounds, ["done", "columns", "rows"], opt=dict({"extra_src": [("util/PartitionColumns.cc", ["-Dmain=cols_main"])], "no_div0": True}, **(opt or {})), **p)
PROPS["C14"] = dict(assumptions=[FS, REAL, "oracle: the cells' centroids"], outside="more than 7 cells (std::sort changes its method above 16); ties decided by rounding (differences below 1e-9)", runs=[
    cl("two-cells", "2 cells anywhere in [-100,100]^2, grids up to 3x3", cells=2), cl("three-cells", "3 cells anywhere, grids up to 3x3", cells=3), cl("four-cells", "4 cells anywhere, grids up to 3x3", cells=4), cl("six-cells", "6 cells anywhere, 3x2 grid", cells=6, nx=3, ny=2), cl("six-cells-two-columns", "6 cells anywhere, 2x3 grid", cells=6, nx=2, ny=3), cl("seven-cells", "7 cells with arbitrary x, 3x2 grid", cells=7, nx=3, ny=2, freeaxis=1),
    cl("five-cells", "5 cells anywhere, grids up to 3x3", dict(thorough_only=True, timeout=600), cells=5)])
def mt(name, bounds, req, opt=None, **p): return r(name, "h_metis.cc", bounds + "; any answer of the library", req, opt=dict({"extra_src": [("util/PartitionMetis.cc", ["-Dmain=metis_main"])]}, **(opt or {})), **p)
NB = ["done", "neighbours", "boundary cell"]
PROPS["C15"] = dict(assumptions=[FS, "the METIS library is a stand-in that checks its input and returns an arbitrary partition or an error"], outside="meshes beyond those listed; meshes with more than 2^31 cells; the quality of METIS partitions", runs=[
    mt("strip", "strip of 3 cells, every subset of shared faces joined, either order of a face's cells, 2 numberings of faces, 2 vertex orders, 2 face list orders, 2 partitions", NB, mesh=4, rots=2, revs=1, glue=1, renum=1, parts=2), mt("fan", "fan of 4 cells, every subset of its shared faces joined, 3 partitions", NB, mesh=5, glue=1, parts=3, swap=0), mt("fan-orders", "fan of 4 cells, either order of every face's cells, 2 numberings, 2 partitions", NB, mesh=5, renum=1, rots=2, parts=2), mt("cube", "cube of 6 cells, either order of every face's cells, 2 partitions", NB, mesh=3, parts=2, swap=1), mt("ten-cells", "10 cells, 2 partitions", NB, mesh=6, parts=2, swap=0),
    mt("five-cells", "cube of 5 cells around one without boundary, 4 partitions", NB, mesh=2, parts=4, swap=0, renum=1), mt("disconnected", "3 disconnected cells, 4 partitions", ["done", "boundary cell"], mesh=8, parts=4), mt("one-partition", "2 cells, 1 partition", ["done"], mesh=1, parts=1), mt("failure", "the library reports any of its errors", ["boundary cell"], mesh=4, fails=1),
    mt("cube-glue", "cube of 6 cells, every subset of shared faces joined, 2 partitions", NB, dict(thorough_only=True, timeout=600), mesh=3, glue=1, parts=2, swap=0), mt("fan-glue-orders", "fan of 4 cells, every subset of shared faces joined, either order of their cells, 2 numberings, 2 vertex orders, 3 partitions", NB, dict(thorough_only=True, timeout=800), mesh=5, glue=1, parts=3, rots=2, renum=1)])
def rf(name, bounds, req, opt=None, **p): return r(name, "h_refine.cc", bounds + "; any materials", req, opt=dict({"extra_src": [("util/RefineSerialMesh.cc", ["-Dmain=refine_main"])]}, **(opt or {})), **p)
PROPS["C16"] = dict(assumptions=[FS, REAL], outside="meshes beyond those listed; two different nodes so close that they round to one point; meshes with hanging nodes", runs=[
    rf("any-x", "one cell, any x of two of its nodes in [-1,1], the other coordinates fixed", ["done"], mesh=0, generic=1, kind=0, nfree=2), rf("any-y", "one cell, any y of a node", ["done"], mesh=0, generic=1, kind=0, axis=1, nfree=1), rf("any-z", "two cells, any z of a node", ["done", "shared face"], mesh=1, generic=1, kind=0, axis=2, nfree=1),
    rf("moved-node", "two cells, every node in turn anywhere within 0.1 of its place", ["done", "shared face"], mesh=1, kind=1, range=10), rf("numberings", "strip of 3 cells, 3 numberings of nodes and faces, 6 vertex orders in faces, 2 face list orders, a node of no cell", ["done", "shared face"], mesh=4, kind=2, rots=6, renum=3, revs=1, extra=1), rf("fan", "fan of 4 cells, 3 numberings of nodes and faces", ["done", "shared face"], mesh=5, kind=2, rots=2, renum=3),
    rf("cube", "cube of 6 cells, 3 numberings", ["done", "shared face"], mesh=3, kind=2, renum=3), rf("disconnected", "a sliver, a tiny and a distant cell", ["done"], mesh=8, kind=2, renum=3), rf("many-cells", "1001 disconnected cells, sizes of the result only", ["done"], kind=3, cells=1001),
    rf("any-x-three", "one cell, any x of three of its nodes", ["done"], dict(thorough_only=True, timeout=600), mesh=0, generic=1, kind=0, nfree=3), rf("any-z-two", "two cells, any z of two nodes", ["done", "shared face"], dict(thorough_only=True, timeout=600), mesh=1, generic=1, kind=0, axis=2, nfree=2), rf("moved-node-cube", "cube of 5 cells, every node in turn anywhere within 0.05 of its place", ["done", "shared face"], dict(thorough_only=True, timeout=600), mesh=2, kind=1, range=5), rf("moved-node-strip", "strip of 3 cells, every node in turn anywhere within 0.05 of its place", ["done", "shared face"], dict(thorough_only=True, timeout=600), mesh=4, kind=1, range=5)])
def k(name, bounds, req, **p): return r(name, "h_kvr.cc", bounds, req, **p)
KT = ["5 arbitrary bytes", "a line and 4 arbitrary bytes", "a pair with arbitrary bytes between its letters", "a key of one arbitrary byte among others", "bytes before comments and tabs", "a line of 4 arbitrary bytes after an incomplete line", "bytes after a carriage return", "keys with an arbitrary letter", "1 arbitrary byte", "the empty file", "bytes after a comment", "6 arbitrary bytes", "5 arbitrary bytes between key and value", "a line and 7 arbitrary bytes", "three keys with arbitrary last letters"]
KV = ["@@@", "-@@@", "21474836@@", "-21474836@@", "1@@@", "@.@", "0@@", "@00000000@", "+@@", "1e@@", "-.@@", "@.@e@", "@@.@", "1.5@-@", "@@@@", "t@@e", "fals@", "@RuE", "12345678901234567890@"]
PROPS["C19"] = dict(assumptions=["file streams are modelled on an in-memory file; strings, strtol and strtod are executed (rt/libc.c, libstdc++)", "oracle: a separate parser in harness/h_kvr.cc"], outside="texts outside the listed templates; numbers spelled in hexadecimal, as inf or nan, or outside 1e-250..1e250 (float: 1e-36..1e37); files that cannot be read to the end", runs=
    [k("text-%d" % i, KT[i], ["done"] + ([] if i == 9 else ["malformed"] if i in (5,) else []), kind=0, text=i, opt=dict(thorough_only=True, timeout=600) if i in (11, 13) else {}) for i in range(len(KT))]
  + [k("int-%d" % i, "integer value %s, @ any value character" % KV[i], ["done"], kind=1, value=i) for i in (0, 1, 2, 3, 4, 7, 8, 9, 18)]
  + [k("double-%d" % i, "floating point value %s, @ any value character" % KV[i], ["done"], kind=2, value=i) for i in (0, 1, 4, 5, 6, 9, 10, 11, 12, 13)]
  + [k("float-%d" % i, "single precision value %s, @ any value character" % KV[i], ["done"], kind=5, value=i) for i in (0, 5, 9, 12)]
  + [k("bool-%d" % i, "boolean value %s, @ any value character" % KV[i], ["done"], kind=3, value=i) for i in (14, 15, 16, 17)]
  + [k("misuse", "reading before a file, a missing file, two files, reset", ["done"], kind=4)])
def d(name, bounds, req, **p):
    q = r(name, "h_deck.cc", bounds, req, **p); q["extra_src"] = MAINSRC; q["no_div0"] = True; return q
IK = ["snOrder", "iterMax", "maxCellsPerStep", "intraAngleP", "interAngleP", "nGroups", "DD_IterMax"]
PROPS["C20"] = dict(assumptions=[FS, MPI, "the solve itself, the cross-section setup and the source are replaced by recorders; everything else of main() runs"], outside="option texts longer than stated; characters a deck value cannot contain; negative numbers; keys the program does not read; a documented option spelled in another case (may be refused or accepted as that option)", runs=[
    d("documented-options", "all 288 combinations of sweep, elimination, communication mode, output and source iteration", ["configured"], kind=0),
    d("sweep-option", "every text of up to 14 characters as SweepType", ["configured", "<expected stop>"], kind=1, option=0, maxlen=14),
    d("elimination-option", "every text of up to 12 characters as GaussElim", ["configured", "<expected stop>"], kind=1, option=1, maxlen=12),
    d("communication-option", "every text of up to 18 characters as MPIType", ["configured", "<expected stop>"], kind=1, option=2, maxlen=18),
    d("order", "snOrder 1..40", ["configured", "<expected stop>"], kind=2, key=0, max=40)]
  + [d("number-" + IK[i], "every %d-digit value of %s%s" % (n, IK[i], ", at most %d" % mx if mx else ""), ["configured"], kind=2, key=i, digits=n, **(dict(max=mx) if mx else {})) for i, n, mx in ((1, 3, 0), (2, 3, 0), (3, 1, 0), (4, 1, 0), (5, 1, 4), (6, 3, 0))]
  + [d("fractions", "each floating point key with every value d.de-2", ["configured"], kind=3), d("missing-key", "each key left out", ["refused"], kind=4), d("file-name", "every 4-character output file name, keys in upper case, every rotation of the lines", ["configured"], kind=5), d("booleans", "every text of 4 or 5 characters as OutputFile or SourceIteration", ["configured", "refused"], kind=6)])
PROPS["C17"] = dict(assumptions=["directions and weights are the double values the real constructor computes; polynomial values are evaluated in exact arithmetic on the solver's side", "oracle: the exact moments of monomials over the unit sphere"], outside="polynomials of mixed degree above 6 except those of the two highest guaranteed degrees on a lattice of exponents; accuracy below 3e-13 per monomial", runs=[
    r("unsupported-orders", "h_quad.cc", "every 64-bit order except the even ones from 2 to 30", ["<expected stop>"], kind=0),
    r("polynomials", "h_quad.cc", "orders 2..30; every polynomial of total degree up to 6, every polynomial in one direction cosine up to degree 2n-1, mixed monomials of degree 2n-1 and 2n-2; coefficients in [-1,1]", ["directions", "polynomials"], kind=1, opt=ND),
    r("polynomials-degree-ten", "h_quad.cc", "orders 2..30; as above with every polynomial of total degree up to 10", ["directions", "polynomials"], kind=1, low=10, opt=dict(thorough_only=True, timeout=600, **ND)),
])
def u(name, bounds, opt=None, **p): return r(name, "h_util.cc", bounds + "; every flux, source, weight and cross section of the stated ranges", ["operators"], opt=dict(ND, no_race=False, **(opt or {})), **p)
PROPS["C21"] = dict(assumptions=[REAL, NF, OMP], outside="more than 4 cells, 3 groups, 32 directions, 3 threads; flux values outside [-100,100]", runs=[
    u("shapes", "1..3 cells, groups and directions"), u("two-threads", "3 cells, 2 groups, 2 directions, 2 threads in every order", threads=2, cells=3, omporder=1, groups=2, angles=2), u("three-threads", "4 cells, 2 groups, 3 directions, 3 threads", threads=3, cells=4, groups=2, angles=3),
    u("quadrature-weights", "2 cells, 2 groups, 8 directions with the real weights", symwt=0, cells=2, groups=2, angles=8), u("order-four", "1 cell, 32 directions with the real weights", symwt=0, cells=1, groups=1, angles=32),
    m("scattering-two-ranks", sweeps=3, mesh=4, skew=1, ranks=2, part=2, threads=2, scatter=1, iters=2, symangles=2),
])
def sp(name, bounds, req, opt=None, **p): return r(name, "h_split.cc", bounds, req, opt=dict({"without": ["src/GraphTraverser.cc"]}, **(opt or {})), **p)
PROPS["C23"] = dict(assumptions=[OMP], outside="more than 8 threads; more than 65535 directions (5 to 8 threads: 1800, the largest supported quadrature)", runs=[
    sp("index-function", "every direction of 1..65535 directions on 1..4 threads", ["done"], kind=0, maxn=65535, maxt=4)]
  + [sp("index-function-%d" % i, "every direction of 1..1800 directions on %d threads" % i, ["done"], kind=0, maxn=1800, t=i, opt=dict(thorough_only=True, timeout=600)) for i in (5, 6, 7, 8)]
  + [sp("scheduled-sweep", "the sets the scheduled sweep makes of 1..48 directions for 1..8 threads, against the traversal's index function", ["scheduled sweep"], kind=1, maxn=48, maxt=8),
     sp("graph-traversal", "the thread that computes each of 1..8 directions on 1..4 threads, forward", ["graph traversal"], kind=2),
     sp("graph-traversal-backward", "the thread that computes each of 1..20 directions on 1..6 threads, backward", ["graph traversal"], kind=2, backward=1, maxn=20, maxt=6)])
AN = ["Mat1", "Mat2", "Mat3", "PsiData", "PsiBoundData", "PhiData"]
def ar(i, what, bounds, req, **p): return r("%s-%s" % (AN[i].lower(), what), "h_arr.cc", AN[i] + ": " + bounds, req, **{"class": i, **p})
PROPS["C24"] = dict(assumptions=["index checking is on, as in the default build"], outside="extents other than those listed", runs=
    [ar(i, "elements", "extents 1..5, every pair of index tuples", ["two elements"], kind=0, ext=5) for i in range(6)]
  + [ar(i, "out-of-range", "extents 1..3, every 64-bit index tuple out of range", ["<expected stop>"], kind=1, ext=3) for i in range(6)]
  + [ar(i, "content", "extents 1..3, initial content, setting, resizing, freeing", ["content"], kind=2, ext=3) for i in range(6)]
  + [ar(i, "huge", "extents 2, 2^16, 2^20 with more than 2^33 elements, every pair of index tuples", ["done"], kind=3) for i in range(6)])
def pr(name, bounds, req, **p): return r(name, "h_prob.cc", bounds, req, **p)
PROPS["C25"] = dict(assumptions=[REAL, NF, "oracle: the transport operator applied to the hat function 1 - r/30, written out in harness/h_prob.cc"], outside="positions closer than 1e-3 to the apex but not on it; positions outside [-100,200]", runs=[
    pr("materials", "2 cells with any 64-bit material, any four cross sections", ["cross sections", "<expected stop>"], kind=0), pr("materials-two-ranks", "3 cells with any 64-bit material over 2 ranks", ["cross sections", "<expected stop>"], kind=0, mesh=4, ranks=2),
    pr("source", "a vertex anywhere in [-100,200]^3 except the apex, any cross sections", ["inside", "outside"], kind=1, opt=ND), pr("source-direction", "a vertex anywhere except the apex, any first direction", ["inside", "outside"], kind=1, symdir=1, vertex=2, opt=ND), pr("apex", "a vertex exactly at the apex, 6 pairs of cross sections per cell", ["apex"], kind=2, opt=ND)])
PROPS["C29"] = dict(assumptions=[REAL, NF, MPI, "oracle: the norms over the global cells, written out in harness/h_prob.cc"], outside="meshes, ranks and groups beyond those listed; fluxes whose cell averages all vanish; the group difference on several ranks", runs=[
    pr("outside-hat", "2 cells outside the hat, every flux in [-10,10]", ["error", "outside"], kind=3, opt=ND), pr("inside-hat", "2 cells inside the hat, every flux", ["error", "inside"], kind=3, scale=1, opt=ND), pr("two-ranks", "3 cells over 2 ranks, every partition, every flux", ["error", "inside"], kind=3, mesh=4, ranks=2, scale=1, opt=ND), pr("three-ranks", "4 cells over 3 ranks, every partition, every flux", ["error", "inside"], kind=3, mesh=7, ranks=3, scale=1, opt=ND),
    pr("two-groups", "1 cell, 2 groups, every flux at 3 of 4 vertices", ["group difference"], kind=4, mesh=0, angles=1, free=2, opt=ND), pr("three-groups", "1 cell, 3 groups, every flux at 2 of 4 vertices", ["group difference"], kind=4, mesh=0, angles=1, groups=3, free=1, opt=ND)])

PI = dict(extra_src=[("util/SerialMeshInfo.cc", ["-Dmain=sinfo_main"]), ("util/ParallelMeshInfo.cc", ["-Dmain=pinfo_main"])], src_flags=["-include", "sxprint.h"])
def nf(name, bounds, opt=None, **p): return r(name, "h_info.cc", bounds + ", with and without verbose; every field any 64-bit value", ["done", "output compared"], opt=dict(PI, **(opt or {})), **p)
PROPS["C30"] = dict(assumptions=[FS, MPI, "printf and puts are recorded as a stream of words and values (rt/include/sxprint.h); layout (spaces, line ends) is not compared", "oracle: the words and values the documented output consists of, written out in harness/h_info.cc"], outside="output written by other means than printf and puts; more than 3 cells, faces or nodes; the digits printf makes of a value", runs=[
    nf("serial", "serial files of 0..2 cells, faces and nodes", kind=0, maxc=2, maxf=2, maxn=2), nf("serial-three", "serial files of 0..3 cells, faces and nodes", kind=0, maxc=3, maxf=3, maxn=3),
    nf("parallel-one-rank", "parallel files of 1 partition with 0..2 cells, faces and nodes", kind=1, parts=1, maxc=2, maxf=2, maxn=2), nf("parallel-two-ranks", "parallel files of 2 partitions with 0..1 cells, faces and nodes each", kind=1), nf("parallel-three-ranks", "parallel files of 3 partitions with 0..1 cells and faces each", kind=1, parts=3, maxn=0),
    nf("parallel-two-ranks-larger", "parallel files of 2 partitions with 0..2 cells, faces and nodes each", dict(thorough_only=True, timeout=600), kind=1, maxc=2, maxf=2, maxn=2)])
def po(name, bounds, req, opt=None, **p): return r(name, "h_prio.cc", bounds, ["done"] + req, opt=opt or {}, **p)
WD = ["choice within a direction", "choice between directions", "order compared"]; TD = ["interleaved", "globally prioritized", "locally prioritized", "order compared", "lowest priority"]
PROPS["C32"] = dict(assumptions=[REAL, MPI, "oracle: priorities computed from the user guide's definitions on the whole graph, written out in harness/h_prio.cc; where the documents can be read in two ways an order is demanded only if all readings agree"], outside="the random option beyond the legality of its schedules (C09); meshes, ranks and direction counts beyond those listed; directions within 1e-9 of parallel to a face", runs=[
    po("schedule-strip", "4 cells, every split over 2 ranks, 2 directions, every option, 1..3 or all cells per step", WD[1:], steps=3, mesh=7, ranks=2, dirs=1),
    po("schedule-cube", "6 cells, every split over 2 ranks, 2 directions, every option", WD, dict(thorough=dict(steps=3)), mesh=3, ranks=2, dirs=1),
    po("schedule-fan-three-ranks", "5 cells, every split over 3 ranks, 3 directions, every intra-angle option", WD, mesh=5, ranks=3, dirs=1, angles=3, inter=0),
    po("schedule-two-cubes", "10 cells over 2 ranks, 4 directions, every option, 1..3 cells per step", WD, mesh=6, part=357, ranks=2, dirs=1, angles=4, steps=3),
    po("schedule-any-direction", "4 cells dealt out to 2 ranks, any direction, every option", [WD[0], WD[2]], mesh=7, ranks=2, part=10, symdir=1, angles=1),
    po("schedule-fan-any-direction", "5 cells over 2 ranks, any direction, every option, 1 or 2 cells per step", [WD[0], WD[2]], dict(thorough_only=True, timeout=600), mesh=5, ranks=2, part=11, symdir=1, angles=1, steps=2),
    po("traverse-one-rank", "6 cells, 3 directions, every option", TD, traverse=1, mesh=3, dirs=1, angles=3),
    po("traverse-two-ranks", "6 cells, every split over 2 ranks, 3 directions, every option", TD, traverse=1, mesh=3, ranks=2, dirs=1, angles=3),
    po("traverse-threads", "4 cells, every split over 2 ranks, 3 directions on 2 threads, every option", TD[:3], traverse=1, mesh=7, ranks=2, dirs=1, angles=3, threads=2),
    po("traverse-any-direction", "4 cells dealt out to 2 ranks, any direction, every option", TD[3:], traverse=1, mesh=7, ranks=2, part=10, symdir=1, angles=1),
    po("traverse-whole-graph", "4 cells dealt out to 2 ranks: b-levels of the entire graph as the user guide defines them", [], traverse=1, mesh=7, ranks=2, part=10, dirs=1, angles=1, inter=0, intra=1, entire=1)])
# C31: the runs of other properties again, with their assertions off: only memory errors, aborts and exceptions count
SAFE = [("C01", ["three-ranks-all-partitions", "threads"]), ("C10", ["all-sweeps-one-rank", "all-sweeps-parallel-faces", "tycho2-three-ranks", "traverse-three-ranks", "threads-all-sweeps", "three-groups-all-sweeps", "scattering-krylov", "schur-outer-three-ranks", "pivoting-elimination"]), ("C18", ["three-groups-three-ranks", "existing-file", "four-ranks"]), ("C06", None), ("C08", ["strip-two-ranks", "three-ranks-rendezvous", "four-ranks"]), ("C09", ["one-rank-options", "strip-three-ranks-options", "tycho2-threads-options"]),
  ("C11", ["round-trip", "malformed"]), ("C12", ["two-partitions", "larger-partitions"]), ("C13", ["strip-four-parts", "disconnected"]), ("C14", ["two-cells", "three-cells"]), ("C15", ["strip", "disconnected"]), ("C16", ["numberings", "cube", "disconnected", "many-cells"]), ("C17", ["polynomials"]), ("C19", ["text-0", "text-1", "text-3", "text-4", "int-0", "double-0", "bool-14", "misuse"]), ("C20", ["documented-options", "sweep-option"]), ("C21", ["shapes", "three-threads"]), ("C22", ["schur-krylov-three-ranks", "schur-three-ranks"]), ("C25", ["materials-two-ranks", "source"]), ("C29", ["two-ranks"]), ("C30", ["serial", "parallel-two-ranks"])]
KINDS = "memory,ub,abort,exception"
def safe():
    out = []
    for pid, names in SAFE:
        for q in PROPS[pid]["runs"]:
            if q.get("thorough_only") or (names is not None and q["name"] not in names): continue
            n = dict(q, kinds=KINDS, name=pid.lower() + "-" + q["name"], params=dict(q["params"])); n.pop("thorough", None); out.append(n)
    return out
PROPS["C31"] = dict(assumptions=[REAL, FS, MPI, OMP, "the runs are those of the properties named in their titles; every access of the executed code is checked against the live objects, every value it decides on or passes to the system against initialisation", "index checks of the containers are on, as in the default build, and count as violations when they fire"], outside="what those runs do not execute; inputs outside their bounds; input files that are not well formed, apart from the serial meshes, decks and option texts listed", runs=safe())
