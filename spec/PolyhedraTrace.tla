--------------------------- MODULE PolyhedraTrace ---------------------------
EXTENDS Polyhedra, TraceBase
VARIABLES P, O                                    \* the solid at hand and a stored one
vars == <<P, O, l>>
TInit == TraceBaseInit /\ P = None /\ O = None
TReset == IsEvent("Reset") /\ P' = None /\ O' = None
Ran(s) == {s[k] : k \in 1..Len(s)}
Bit(b) == IF b THEN 1 ELSE 0
Edges2(s) == {<<s[k], s[(k % Len(s)) + 1]>> : k \in 1..Len(s)}
SumLen(fs) == FoldSeq(LAMBDA f, acc : acc + Len(f), 0, fs)
Closed(fs, nv) == LET E2 == UNION {Edges2(fs[k]) : k \in 1..Len(fs)} IN
    /\ \A k \in 1..Len(fs) : Len(fs[k]) >= 3 /\ Cardinality(Ran(fs[k])) = Len(fs[k])
    /\ Cardinality(E2) = SumLen(fs)
    /\ \A e \in E2 : <<e[2], e[1]>> \in E2
    /\ UNION {Ran(fs[k]) : k \in 1..Len(fs)} = 0..(nv - 1)
    /\ 2 * nv + 2 * Len(fs) - SumLen(fs) = 4
(* the corners of a face go around it once, anticlockwise as seen from outside *)
Around(h, c) == \A k \in 1..Len(c) : LET a == c[k]  b == c[(k % Len(c)) + 1]  d == c[((k + 1) % Len(c)) + 1] IN Dot3(h[1], Cross3(Sub3(b, a), Sub3(d, b))) > 0
Corner(vs, f) == [k \in 1..Len(f) |-> vs[f[k] + 1]]
IsFace(Q, h, vs, f) == LET c == Corner(vs, f) IN Ran(c) = FaceOf(Q.V, h) /\ Around(h, c)
Numbers(Q, vol, cen) == vol = Volume6(Q) /\ cen = Moment(Q)
(* what the implementation holds is the solid Q *)
Holds(Q, vs, fs, fc, vol, cen) == /\ fc = Len(fs)
    /\ IF Q = None THEN fs = <<>> /\ vol = 0
       ELSE /\ Cardinality(Ran(vs)) = Len(vs) /\ Ran(vs) = Q.V
            /\ Len(fs) = Cardinality(Q.H) /\ Closed(fs, Len(vs))
            /\ \A h \in Q.H : \E k \in 1..Len(fs) : IsFace(Q, h, vs, fs[k])
            /\ Numbers(Q, vol, cen)
(* what is left of a solid that a plane only touches may, in lattice units and by rounding, be a sliver without volume *)
Sliver(Q, vol) == Q = None /\ Ev.lattice = 1 /\ vol = 0
Here(Q) == Sliver(Q, Ev.vol) \/ Holds(Q, Ev.verts, Ev.faces, Ev.fc, Ev.vol, Ev.cen)
Fine == ~Ev.threw
Cuts == [k \in 1..Len(Ev.planes) |-> Plane(Ev.planes[k][1], Ev.planes[k][2], Ev.planes[k][3])]
BoxE == IsEvent("Box") /\ Fine /\ P' = Box(Ev.box[1], Ev.box[2]) /\ UNCHANGED O /\ Here(P')
HullE == IsEvent("Hull") /\ Fine /\ P' = Hull(Ran(Ev.pts)) /\ UNCHANGED O /\ Here(P')
Tol == IsEvent("Tol") /\ Fine /\ UNCHANGED <<P, O>>
Cut == IsEvent("Cut") /\ Fine /\ P' = CutAll(P, Cuts) /\ UNCHANGED O /\ Here(P')
Halves == IsEvent("Halves") /\ Fine /\ UNCHANGED <<P, O>> /\ LET h == Cuts[1]  X == CutOne(P, h)  Y == CutOne(P, Opposite(h)) IN
    /\ Sliver(X, Ev.xvol) \/ Holds(X, Ev.xverts, Ev.xfaces, Ev.xfc, Ev.xvol, Ev.xcen)
    /\ Sliver(Y, Ev.yvol) \/ Holds(Y, Ev.yverts, Ev.yfaces, Ev.yfc, Ev.yvol, Ev.ycen)
    /\ Ev.xvol + Ev.yvol = (IF P = None THEN 0 ELSE Volume6(P))
    /\ Ev.both = Bit(X # None /\ Y # None)
    (* put together again: one closed surface without the cut, of the volume and centroid of the whole *)
    /\ IF Ev.both = 1 THEN /\ Ev.sum = 1 /\ Len(Ev.zverts) = Cardinality(Ran(Ev.zverts)) /\ Ran(Ev.zverts) = X.V \cup Y.V
                           /\ Len(Ev.zfaces) = Cardinality(X.H) + Cardinality(Y.H) - 2 /\ Ev.zfc = Len(Ev.zfaces) /\ Closed(Ev.zfaces, Len(Ev.zverts))
                           /\ Numbers(P, Ev.zvol, Ev.zcen)
       ELSE TRUE
WithSolid == IF P = None THEN Ev.empty = 1 ELSE Ev.empty = 0
Divide == IsEvent("Divide") /\ Fine /\ UNCHANGED <<P, O>> /\ WithSolid /\ (P # None => Here(CutOne(P, Cuts[1])))
Save == IsEvent("Save") /\ Fine /\ O' = P /\ UNCHANGED P /\ Ev.same = 1
Swap == IsEvent("Swap") /\ Fine /\ O' = P /\ P' = O /\ Here(P')
Meets ==
    /\ IsEvent("Meets") /\ Fine /\ UNCHANGED O /\ Here(Common(P, O))
    /\ P' = (IF Ev.keep = 1 THEN Common(P, O) ELSE P)
    /\ ((P # None /\ O # None) => Ev.meets = Bit(Common(P, O) # None))
Member == IsEvent("Contains") /\ Fine /\ UNCHANGED <<P, O>>
    (* in lattice units a point of the surface may be on either side by rounding: the tolerance is an absolute one *)
    /\ Len(Ev.in) = Len(Ev.pts) /\ Ev.inp = Ev.in
    /\ \A k \in 1..Len(Ev.pts) : Ev.in[k] = Bit(P # None /\ InSolid(P.H, Ev.pts[k])) \/ (Ev.lattice = 1 /\ \E h \in P.H : On(h, Ev.pts[k]))
QueryBody ==
    LET vs == Ev.hverts  fs == Ev.hfaces IN
    /\ Ev.unit = 1 /\ Ev.hull = 1 /\ Holds(P, Ev.hverts, Ev.hfaces, Ev.hfc, Ev.hvol, Ev.hcen)
    /\ Ran(Ev.normals) = {h[1] : h \in P.H} /\ Len(Ev.normals) = Cardinality(P.H)
    /\ Len(Ev.fpoints) = Len(Ev.normals) /\ Len(Ev.pa) = Len(Ev.normals)
    /\ \A k \in 1..Len(Ev.normals) : \E h \in P.H :
         /\ h[1] = Ev.normals[k]
         /\ LET f == FaceOf(P.V, h) IN Ev.fpoints[k] = [i \in 1..3 |-> FoldSet(LAMBDA X, acc : acc + X[i], 0, f)]
         /\ Plane(Ev.pa[k], Ev.pb[k], Ev.pc[k]) = h /\ {Ev.pa[k], Ev.pb[k], Ev.pc[k]} \subseteq P.V
    /\ LET Eg == {{p[1], p[2]} : p \in {p \in P.V \X P.V : Adjacent(P, p[1], p[2])}} IN
         /\ Len(Ev.edges) = Cardinality(Eg) /\ Len(Ev.halves) = Len(Ev.edges) /\ Cardinality({Ran(Ev.edges[k]) : k \in 1..Len(Ev.edges)}) = Len(Ev.edges)
         /\ Ran(Ev.halves) = {LET X == CHOOSE X \in e : TRUE  Y == CHOOSE Y \in e : Y # X IN Add3(X, Y) : e \in Eg}
    /\ Ev.vc = Cardinality(P.V) /\ Len(Ev.fpv) = Ev.vc
Query == IsEvent("Query") /\ Fine /\ UNCHANGED <<P, O>> /\ WithSolid /\ (IF P = None THEN TRUE ELSE QueryBody)
MovedEBody ==
    /\ Holds(Image(P, M3, Z3), Ev.mverts, Ev.mfaces, Ev.mfc, Ev.mvol, Ev.mcen) /\ Ev.zcen = <<Z3>> /\ Ev.zvol = Volume6(P) /\ Ev.back = 1
MovedE == IsEvent("Moved") /\ Fine /\ UNCHANGED <<P, O>> /\ WithSolid /\ (IF P = None THEN TRUE ELSE MovedEBody)
LatticeEBody ==
    /\ Holds(Image(P, (IF Ev.recip = 1 THEN Transpose(Ev.W) ELSE Ev.W), Z3), Ev.averts, Ev.afaces, Ev.afc, Ev.avol, Ev.acen)
    /\ Holds(Image(P, I3, Ev.s[1]), Ev.tverts, Ev.tfaces, Ev.tfc, Ev.tvol, Ev.tcen)
LatticeE == IsEvent("Lattice") /\ Fine /\ UNCHANGED <<P, O>> /\ WithSolid /\ (IF P = None THEN TRUE ELSE LatticeEBody)
Equal2Body == Ev.eq = Bit(Ev.what = 0) /\ Ev.qe = Ev.eq /\ Ev.ne = 1 - Ev.eq
Equal2 == IsEvent("Equal") /\ Fine /\ UNCHANGED <<P, O>> /\ WithSolid /\ (IF P = None THEN TRUE ELSE Equal2Body)
FaceEBody == LET h == Cuts[1] IN
    /\ Ev.has = Bit(h \in P.H) /\ Ran(Ev.at) = (IF h \in P.H THEN FaceOf(P.V, h) ELSE {})
    /\ ((\E X \in P.V : Dot3(h[1], X) < h[2]) => Ev.none = 0)
    /\ ((\A X \in P.V : Dot3(h[1], X) > h[2]) => Ev.none = 1)
FaceE == IsEvent("Face") /\ Fine /\ UNCHANGED <<P, O>> /\ WithSolid /\ (IF P = None THEN TRUE ELSE FaceEBody)
(* random points are inside, within what rounding to thousandths of the unit of the grid allows *)
RandBody == Len(Ev.pts) = Ev.k /\ \A k \in 1..Ev.k : \A h \in P.H :
    Dot3(h[1], Ev.pts[k]) <= 1000 * h[2] + Abs(h[1][1]) + Abs(h[1][2]) + Abs(h[1][3])
Rand == IsEvent("Rand") /\ Fine /\ UNCHANGED <<P, O>> /\ WithSolid /\ (IF P = None THEN TRUE ELSE RandBody)
TNext == TReset \/ BoxE \/ HullE \/ Tol \/ Cut \/ Halves \/ Divide \/ Save \/ Swap \/ Meets \/ Member \/ Query \/ MovedE \/ LatticeE \/ Equal2 \/ FaceE \/ Rand
TSpec == TInit /\ [][TNext]_vars
=============================================================================
