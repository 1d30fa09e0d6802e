----------------------------- MODULE GridsTrace -----------------------------
EXTENDS Grids, TraceBase
VARIABLES P, G, F                                  \* the solid, the grid that fills it, the data on the grid
vars == <<P, G, F, l>>
NoGrid == [kind |-> "none"]
NotWhole == 1000000007
NoData == [what |-> "none"]
TInit == TraceBaseInit /\ P = None /\ G = NoGrid /\ F = NoData
TReset == IsEvent("Reset") /\ P' = None /\ G' = NoGrid /\ F' = NoData
Unit24 == 24
Ran(s) == {s[k] : k \in 1..Len(s)}
SumSeq(s) == FoldSeq(LAMBDA x, acc : acc + x, 0, s)
Fine == ~Ev.threw
BoxE == IsEvent("Box") /\ Fine /\ P' = Box(Ev.box[1], Ev.box[2]) /\ G' = NoGrid /\ F' = NoData
Cut ==
    /\ IsEvent("Cut") /\ Fine /\ G' = NoGrid /\ F' = NoData
    /\ LET Q == CutOne(P, Plane(Ev.plane[1], Ev.plane[2], Ev.plane[3])) IN
         IF Q = None THEN Ev.vol = 0 /\ P' = P          \* a cut that would leave nothing is not made
         ELSE Ev.vol = Volume6(Q) /\ P' = Q
(* --- construction *)
Distinct(vs) == Cardinality(Ran(vs)) = Len(vs)
TetsFill(Q, tets, vs) ==
    /\ \A k \in 1..Len(tets) : Len(tets[k]) = 4 /\ Cardinality(Ran(tets[k])) = 4 /\ \A i \in Ran(tets[k]) : InSolid(Q.H, vs[i + 1])
    /\ LET six(k) == Abs(Six(vs[tets[k][1] + 1], vs[tets[k][2] + 1], vs[tets[k][3] + 1], vs[tets[k][4] + 1])) IN
         (\A k \in 1..Len(tets) : six(k) > 0) /\ SumSeq([k \in 1..Len(tets) |-> six(k)]) = Volume6(Q)
    /\ LET fs == UNION {FacesOfTet(Ran(tets[k])) : k \in 1..Len(tets)} IN \A f \in fs :
         LET n == Cardinality({k \in 1..Len(tets) : f \subseteq Ran(tets[k])}) IN
           n = (IF \E h \in Q.H : \A i \in f : On(h, vs[i + 1]) THEN 1 ELSE 2)
NodeOK(Q, d, vs, tri) ==
    IF Q = None THEN d.type = "null" /\ d.vol = 0 /\ d.cells = <<>>
    ELSE /\ d.vol = Volume6(Q)
         /\ IF d.type = "cube" THEN /\ tri = 0 /\ Q = Box(d.lo, d.hi) /\ ~InSolid(Q.H, Z3)
                                    /\ Len(d.cells) = 1 /\ Len(d.cells[1]) = 8 /\ {vs[i + 1] : i \in Ran(d.cells[1])} = Q.V
            ELSE d.type = "poly" /\ TetsFill(Q, d.cells, vs)
NodeNumber(s, b) == s[1] + b[1] * (s[2] + b[2] * s[3])
Subs(b) == (0..(b[1] - 1)) \X (0..(b[2] - 1)) \X (0..(b[3] - 1))
Trellis == LET b == Ev.bins  n == Ev.nodes  at(s) == n[NodeNumber(s, b) + 1]  bb == Bounds(P) IN
    /\ Len(n) = b[1] * b[2] * b[3]
    (* the nodes are the boxes between planes that go from one end of the solid to the other or beyond *)
    /\ \A s \in Subs(b) : \A i \in 1..3 : /\ at(s).lo[i] < at(s).hi[i]
                                          /\ ((s[i] = 0) => (at(s).lo[i] = bb[i][1])) /\ ((s[i] = b[i] - 1) => (at(s).hi[i] >= bb[i][2]))
                                          /\ \A t \in Subs(b) : ((t[i] = s[i]) => (at(t).lo[i] = at(s).lo[i] /\ at(t).hi[i] = at(s).hi[i])) /\ ((t[i] = s[i] + 1) => (at(t).lo[i] = at(s).hi[i]))
    (* none is larger than asked for *)
    /\ \A k \in 1..Len(n) : 125 * BoxVolume(n[k].lo, n[k].hi) <= 1728 * Ev.size
    /\ \A k \in 1..Len(n) : NodeOK(Part(P, n[k].lo, n[k].hi), n[k], Ev.verts, Ev.tri)
    /\ Ev.total = Volume6(P) /\ SumSeq([k \in 1..Len(n) |-> n[k].vol]) = Volume6(P)
    /\ Ev.expect = (b[1] + 1) * (b[2] + 1) * (b[3] + 1)
    /\ Len(Ev.verts) = Ev.nv /\ Distinct(Ev.verts) /\ P.V \subseteq Ran(Ev.verts) /\ (InSolid(P.H, Z3) => Z3 \in Ran(Ev.verts))
    /\ LET used(ty) == UNION {UNION {Ran(n[k].cells[j]) : j \in 1..Len(n[k].cells)} : k \in {k \in 1..Len(n) : n[k].type = ty}} IN
         Ev.ncv = Cardinality(used("cube")) /\ Ev.npv = Cardinality(used("poly")) /\ used("cube") \cup used("poly") = 0..(Ev.nv - 1)
    /\ Ev.ntet = SumSeq([k \in 1..Len(n) |-> IF n[k].type = "poly" THEN Len(n[k].cells) ELSE 0])
    /\ \A s \in Subs(b) : LET close == {t \in Subs(b) : t # s /\ (\A i \in 1..3 : Abs(t[i] - s[i]) < 2) /\ at(t).type # "null"} IN
         Ran(at(s).near) = {NodeNumber(t, b) : t \in close} /\ Len(at(s).near) = Cardinality(close)
(* tetrahedra between points anywhere, known to 1/100 of a unit *)
InsideNearly(X) == \A h \in P.H : Dot3(h[1], X) <= 100 * h[2] + 3
Tetra == LET c == Ev.cells IN
    /\ Ev.total = Volume6(P)
    /\ \A k \in 1..Len(Ev.rel) : Ev.rel[k] > 0
    /\ Len(Ev.verts) = Ev.nv /\ Distinct(Ev.verts) /\ \A k \in 1..Ev.nv : InsideNearly(Ev.verts[k])
    /\ \A k \in 1..Len(Ev.corners) : Ev.corners[k] = 1
    /\ Len(Ev.corners) = Cardinality(P.V)
    /\ Len(c) = Len(Ev.rel) /\ Len(Ev.hang) = Ev.nv
    /\ (Ev.kind = "mesh") => \A k \in 1..Ev.nv : Ev.hang[k] = 0     \* the tetrahedra of one mesher meet in whole faces
    /\ \A k \in 1..Len(c) : Cardinality(Ran(c[k])) = 4 /\ Ran(c[k]) \subseteq 0..(Ev.nv - 1)
Nest == Tetra /\ 2 * Cardinality({k \in 1..Len(Ev.rel) : Ev.rel[k] > 1000001}) <= Len(Ev.rel) /\ (\A i \in 0..(Ev.nv - 1) : (Ev.leaf[i + 1] = 1) = \E k \in 1..Len(Ev.cells) : i \in Ran(Ev.cells[k]))
Mesh == Tetra /\ 2 * Cardinality({k \in 1..Len(Ev.rel) : Ev.rel[k] > 1000001}) <= Len(Ev.rel) /\   \* a mesher improves its tetrahedra after it has looked at their volumes
    LET c == Ev.cells IN \A f \in UNION {FacesOfTet(Ran(c[k])) : k \in 1..Len(c)} :
    Cardinality({k \in 1..Len(c) : f \subseteq Ran(c[k])}) = (IF \E h \in P.H : \A i \in f : Dot3(h[1], Ev.verts[i + 1]) >= 100 * h[2] - 3 THEN 1 ELSE 2)
Cells(e) == IF e.kind = "trellis" THEN UNION {Ran([j \in 1..Len(e.nodes[k].cells) |-> Ran(e.nodes[k].cells[j])]) : k \in 1..Len(e.nodes)} ELSE {Ran(e.cells[k]) : k \in 1..Len(e.cells)}
(* planes that divide the solid into equal parts need not lie on the grid of integers; then they have no place in the specification *)
Broken == Ev.kind = "trellis" /\ LET bb == Bounds(P)  b == Ev.bins IN \E i \in 1..3 :
    (bb[i][2] - bb[i][1]) % b[i] # 0 /\ \E k \in 1..Len(Ev.nodes) : Ev.nodes[k].lo[i] = NotWhole
BrokenTrellis == LET b == Ev.bins  n == Ev.nodes  bb == Bounds(P) IN
    /\ Len(n) = b[1] * b[2] * b[3] /\ Ev.total = Volume6(P) /\ Ev.expect = (b[1] + 1) * (b[2] + 1) * (b[3] + 1)
    /\ Len(Ev.verts) = Ev.nv /\ P.V \subseteq Ran(Ev.verts) /\ (InSolid(P.H, Z3) => Z3 \in Ran(Ev.verts))
    /\ Ev.ntet = SumSeq([k \in 1..Len(n) |-> IF n[k].type = "poly" THEN Len(n[k].cells) ELSE 0])
GridE ==
    /\ IsEvent("Grid") /\ Fine /\ UNCHANGED P /\ F' = NoData
    /\ TRUE = (IF Broken THEN BrokenTrellis ELSE CASE Ev.kind = "trellis" -> Trellis [] Ev.kind = "nest" -> Nest [] Ev.kind = "mesh" -> Mesh)
    /\ G' = [kind |-> IF Broken THEN "broken" ELSE Ev.kind, verts |-> Ev.verts, nv |-> Ev.nv, cells |-> Cells(Ev), nodes |-> IF Ev.kind = "trellis" THEN Ev.nodes ELSE <<>>, bins |-> IF Ev.kind = "trellis" THEN Ev.bins ELSE <<>>]
(* --- points *)
Weighs(X, iw) == LET id == iw[1]  w == iw[2]  S == IF G.kind = "trellis" THEN 1 ELSE 100  tol == IF S = 1 THEN 400 ELSE 120000 IN
    /\ Len(id) > 0 /\ Len(w) = Len(id) /\ Cardinality(Ran(id)) = Len(id) /\ Ran(id) \subseteq 0..(G.nv - 1)
    /\ \A k \in 1..Len(w) : w[k] >= 0 /\ w[k] <= 100001
    /\ Abs(SumSeq(w) - 100000) <= 8
    /\ \E c \in G.cells : Ran(id) \subseteq c
    /\ G.kind # "broken" => \A i \in 1..3 : Abs(SumSeq([k \in 1..Len(w) |-> w[k] * G.verts[id[k] + 1][i]]) - 100000 * S * X[i]) <= tol
Where ==
    /\ IsEvent("Where") /\ Fine /\ UNCHANGED <<P, G, F>>
    /\ \A k \in {m \in 1..Len(Ev.iw) : InSolid(P.H, Ev.pts[m])} : Weighs(Ev.pts[k], Ev.iw[k])
    /\ Len(Ev.iw) = (IF G.kind = "mesh" THEN 0 ELSE Len(Ev.pts))
    /\ (G.kind = "trellis") => \A k \in {m \in 1..Len(Ev.sub) : InSolid(P.H, Ev.pts[m])} :
         LET s == Ev.sub[k]  n == G.nodes[NodeNumber(s, G.bins) + 1] IN s \in Subs(G.bins) /\ n.type # "null" /\ InBox(n.lo, n.hi, Ev.pts[k])
(* --- data *)
Fill == IsEvent("Fill") /\ Fine /\ UNCHANGED <<P, G>> /\ F' = [what |-> "linear", cv |-> Ev.cv, cc |-> Ev.cc, ph |-> Ev.ph]
Table == IsEvent("Table") /\ Fine /\ UNCHANGED <<P, G>> /\ F' = [what |-> "table", t |-> Ev.table, yv |-> Ev.yv] /\ Len(Ev.table) = G.nv
Linear(c, X) == c[1] * X[1] + c[2] * X[2] + c[3] * X[3] + Unit24 * c[4]
Phased(p, x) == CASE p = 0 -> <<x, 0>> [] p = 1 -> <<0, x>> [] p = 2 -> <<-x, 0>> [] p = 3 -> <<0, -x>>
Values == LET B == Len(F.cv)  Y == Len(F.cv[1])  Yc == Len(F.cc[1]) IN
    /\ Len(Ev.vals) = Len(Ev.pts) /\ Len(Ev.vecs) = Len(Ev.pts) /\ Ev.vshape[1] = Len(Ev.pts) /\ Ev.cshape[1] = Len(Ev.pts)
    /\ \A k \in 1..Len(Ev.pts) :
         /\ Len(Ev.vals[k]) = B * Y /\ Len(Ev.vecs[k]) = 2 * B * Yc
         /\ \A b \in 1..B : \A y \in 1..Y : Ev.vals[k][(b - 1) * Y + y] = Linear(F.cv[b][y], Ev.pts[k])
         /\ \A b \in 1..B : \A y \in 1..Yc : LET i == 2 * ((b - 1) * Yc + y) IN <<Ev.vecs[k][i - 1], Ev.vecs[k][i]>> = Phased(F.ph[b], Linear(F.cc[b][y], Ev.pts[k]))
At == IsEvent("At") /\ UNCHANGED <<P, G, F>> /\ F.what = "linear"
    /\ TRUE = (IF \A k \in 1..Len(Ev.pts) : InSolid(P.H, Ev.pts[k]) THEN Fine /\ Values ELSE Ev.threw)   \* a point outside is refused
Flat(ss, from, to) == FlattenSeq([b \in 1..Len(ss) |-> SubSeq(ss[b], from, to)])
Own ==
    /\ IsEvent("Own") /\ Fine /\ UNCHANGED <<P, G, F>> /\ F.what = "table" /\ Ev.nv = G.nv
    /\ Len(Ev.vals) = G.nv /\ Len(Ev.vecs) = G.nv
    /\ \A k \in 1..G.nv : /\ Ev.vals[k] = Flat(F.t[k], 1, F.yv)
                                                 /\ Ev.vecs[k] = Flat(F.t[k], F.yv + 1, Len(F.t[k][1]))
Outside ==
    /\ IsEvent("Outside") /\ Fine /\ UNCHANGED <<P, G, F>>
    /\ \A k \in 1..Len(Ev.pts) : InSolid(P.H, Ev.pts[k]) \/ Ev.refused[k] = 1
TNext == TReset \/ BoxE \/ Cut \/ GridE \/ Where \/ Fill \/ Table \/ At \/ Own \/ Outside
TSpec == TInit /\ [][TNext]_vars
=============================================================================
