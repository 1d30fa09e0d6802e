----------------------------- MODULE ZonesTrace -----------------------------
EXTENDS Zones, TraceBase
INSTANCE SpaceGroupTable
VARIABLES z
vars == <<z, l>>
None == [none |-> TRUE]
TInit == TraceBaseInit /\ z = None
TReset == IsEvent("Reset") /\ z' = None
Ran(s) == {s[k] : k \in 1..Len(s)}
Bit(b) == IF b THEN 1 ELSE 0
Small == {<<a, b, c>> : a, b, c \in -2..2}
(* the zone is the Wigner-Seitz cell: one face for each relevant lattice vector, and no other *)
FirstZone(F, L) ==
    /\ Ran(Ev.tau) = {f[1] : f \in F} /\ Len(Ev.tau) = Cardinality(F)
    /\ Len(Ev.faces) = Len(Ev.tau) /\ Ev.fc = Len(Ev.tau) /\ Ev.vc = Ev.nv
    /\ ClosedSurface(Ev.faces, Ev.nv) /\ Ev.outward /\ Ev.along
    /\ Ev.centroid = <<Z3>> /\ Ev.vol = CellPoints(L)
    /\ Len(Ev.fpv) = Ev.nv
    /\ \A v \in 1..Ev.nv : Ran(Ev.fpv[v]) = {k - 1 : k \in {j \in 1..Len(Ev.faces) : (v - 1) \in Ran(Ev.faces[j])}} /\ Len(Ev.fpv[v]) = Cardinality(Ran(Ev.fpv[v]))
    (* each vertex is on exactly the bisectors of its faces, and not beyond any: here in units 1/D *)
    /\ Ev.D > 0 => \A v \in 1..Ev.nv : LET x == Ev.verts[v] IN
         \A k \in 1..Len(Ev.tau) : LET f == CHOOSE f \in F : f[1] = Ev.tau[k]  d == 2 * Plain(x, f[2]) - Ev.D * f[3] IN
            IF (v - 1) \in Ran(Ev.faces[k]) THEN d = 0 ELSE d < 0
Group(ops, G) == /\ I3 \in ops /\ \A W \in ops : Mul(Mul(W, G), Transpose(W)) = G
                 /\ \A V, W \in ops : Mul(V, W) \in ops
Irreducible(w, ops) ==
    /\ Ev.irvol = (IF Ev.search = 1 THEN CellPoints(z'.L) ELSE CellPoints(z'.L) * Ev.F)             \* the volume times the order of the group
    /\ Ev.search = 1 => /\ (Ev.known => Covers(w, Ev.mirrored, ops, Small) /\ Once(w, Ev.mirrored, ops, Small))
                        /\ Ev.irin /\ ClosedSurface(Ev.irfaces, Ev.irnv) /\ Ev.iroutward
    /\ Ev.search = 0 => w = <<>> /\ ~Ev.mirrored
Zone == IsEvent("Zone") /\ LET G == Ev.g  letter == Table[Ev.i].centring  L == IF Ev.prim = 1 THEN letter ELSE "P" IN
    IF ~Ev.ok THEN Ev.search = 1 /\ z' = None
    ELSE /\ Assert(Gram(G) /\ Enough(G, L), "script metric")
         /\ z' = [F |-> Faces(G, L), L |-> L, G |-> G, w |-> Ev.wedge, mirrored |-> Ev.mirrored, known |-> Ev.known, ops |-> Ran(Ev.ops), search |-> Ev.search]
         /\ Ev.conv /\ Ev.isprim = (L # "P") /\ Ev.trflag = Ev.tr
         /\ Len(Ev.ops) = Cardinality(z'.ops) /\ Len(Ev.ops) = Ev.F /\ Group(z'.ops, G) /\ (Ev.tr = 1 => M3 \in z'.ops)
         /\ FirstZone(z'.F, L)
         /\ Irreducible(Ev.wedge, z'.ops)
In(n) == InZone(z.F, n, Ev.m)
InIr(n) == Within(z.w, z.mirrored, n)
Pts == 1..Len(Ev.Q)
Fine == ~Ev.threw /\ Ev.kept /\ Ev.Q = Ev.Q
(* isinside and isinside_wedge_outer use the tolerance of the zone, so that points of the surface are inside; the others     *)
(* are as strict as the arithmetic, and nothing is claimed of them for points of a surface.                              *)
OnWedge(n) == \E k \in 1..Len(z.w) : Plain(z.w[k], n) = 0
OnZone(n) == In(n) /\ ~Inner(z.F, n, Ev.m)
Member == /\ IsEvent("Member") /\ Fine /\ UNCHANGED z
          /\ Ev.inside = [k \in Pts |-> Bit(In(Ev.Q[k]))]
          /\ \A k \in Pts : OnZone(Ev.Q[k]) \/ Ev.poly[k] = Ev.inside[k]
          /\ IF z.known THEN /\ Ev.wedgeo = [k \in Pts |-> Bit(InIr(Ev.Q[k]))]
                             /\ \A k \in Pts : OnWedge(Ev.Q[k]) \/ Ev.wedge[k] = Ev.wedgeo[k]
                             /\ \A k \in Pts : OnWedge(Ev.Q[k]) \/ OnZone(Ev.Q[k]) \/ Ev.ir[k] = Bit(In(Ev.Q[k]) /\ Behind(z.w, Ev.Q[k]))
                             /\ \A k \in Pts : (In(Ev.Q[k]) /\ z.search = 1) => \E W \in z.ops : InIr(Rot(W, Ev.Q[k]))
                             /\ (z.search = 1 => Once(z.w, z.mirrored, z.ops, Ran(Ev.Q)))
             ELSE TRUE
(* Q = q + tau with tau a point of the lattice of the zone and q nearest to the origin *)
Moved(Q, q, t) == Q = Add3(q, Scale3(Ev.m, t)) /\ Allowed(z.L, t) /\ In(q)
MoveIn ==
    /\ IsEvent("Move") /\ Fine /\ UNCHANGED z /\ Ev.r /\ Ev.of
    /\ Len(Ev.q) = Len(Ev.Q) /\ Len(Ev.tau) = Len(Ev.Q)
    /\ \A k \in Pts : Moved(Ev.Q[k], Ev.q[k], Ev.tau[k])
(* in the primitive description p, with q = p / P: the components of q are multiples of k/36 *)
FromPrim(p) == Scale3(CellPoints(z.L), VM(p, Adj(SixP[z.L])))
MoveP ==
    /\ IsEvent("MoveP") /\ Fine /\ UNCHANGED z /\ Ev.r /\ Ev.of
    /\ Len(Ev.q) = Len(Ev.Q) /\ Len(Ev.tau) = Len(Ev.Q)
    /\ \A k \in Pts : Ev.Q[k] = Add3(Ev.q[k], Scale3(Ev.m, Ev.tau[k])) /\ InZone(z.F, FromPrim(Ev.q[k]), 36 * Ev.m)
MemberP == IsEvent("MemberP") /\ Fine /\ UNCHANGED z /\ Ev.inside = [k \in Pts |-> Bit(InZone(z.F, FromPrim(Ev.Q[k]), 36 * Ev.m))]
Ir ==
    /\ IsEvent("Ir") /\ Fine /\ UNCHANGED z /\ Ev.r /\ Ev.of
    /\ Len(Ev.q) = Len(Ev.Q) /\ Len(Ev.tau) = Len(Ev.Q) /\ Len(Ev.R) = Len(Ev.Q) /\ Len(Ev.I) = Len(Ev.Q)
    /\ \A k \in Pts : /\ Ev.R[k] \in z.ops /\ Ev.I[k] \in z.ops /\ Mul(Ev.R[k], Ev.I[k]) = I3
                      /\ Ev.Q[k] = Add3(Rot(Ev.R[k], Ev.q[k]), Scale3(Ev.m, Ev.tau[k]))
                      /\ Allowed(z.L, Ev.tau[k]) /\ In(Ev.q[k])
                      /\ (z.known => InIr(Ev.q[k]) /\ ((z.mirrored \/ OnWedge(Ev.q[k]) \/ OnZone(Ev.q[k])) \/ Ev.irin[k] = 1))
Wedge ==
    /\ IsEvent("Wedge") /\ Fine /\ UNCHANGED z /\ Ev.r
    /\ Len(Ev.q) = Len(Ev.Q) /\ Len(Ev.R) = Len(Ev.Q)
    /\ \A k \in Pts : Ev.R[k] \in z.ops /\ Ev.Q[k] = Rot(Ev.R[k], Ev.q[k]) /\ (z.known => InIr(Ev.q[k]))
Foreign == IsEvent("Foreign") /\ Fine /\ UNCHANGED z /\ \A k \in 1..Len(Ev.refused) : Ev.refused[k] = 1
TNext == TReset \/ Zone \/ Member \/ MoveIn \/ MoveP \/ MemberP \/ Ir \/ Wedge \/ Foreign
TSpec == TInit /\ [][TNext]_vars
=============================================================================
