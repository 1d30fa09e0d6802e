--------------------------- MODULE LatticesTrace ---------------------------
EXTENDS Lattices, TraceBase
INSTANCE SpaceGroupTable
VARIABLES held, prim
vars == <<held, prim, l>>
Put(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Diag(G) == <<G[1], G[5], G[9]>>
Off(G) == <<G[6], G[3], G[2]>>
Thrice(v) == <<v[1], v[1], v[1], v[2], v[2], v[2], v[3], v[3], v[3]>>
(* M, Q: the metrics of the direct and the reciprocal lattice, in the units in which they are integers *)
Describes(M, Q, letter) ==
    /\ Ev.metricr = M /\ Ev.metricq = Q
    /\ Ev.lenr = Diag(M) /\ Ev.lenq = Diag(Q)
    /\ Ev.cosr = Thrice(Off(M)) /\ Ev.cosq = Thrice(Off(Q))          \* asked for in radian, degree and multiples of pi
    /\ Ev.eachr /\ Ev.eachq
    /\ Ev.idr = I3 /\ Ev.idq = I3
    /\ Ev.volr > 0 /\ Ev.volq > 0
    /\ Ev.volvol = 1 /\ Ev.prod = I3
    /\ Ev.letter = letter
TInit == TraceBaseInit /\ held = <<>> /\ prim = <<>>
TReset == IsEvent("Reset") /\ held' = <<>> /\ prim' = <<>>
Lat == IsEvent("Lat") /\ LET M == IF Ev.recip = 1 THEN Dual(Ev.g) ELSE Ev.g  Q == IF Ev.recip = 1 THEN Ev.g ELSE Dual(Ev.g) IN
    /\ Assert(Gram(Ev.g), "script metric")
    /\ Describes(M, Q, Table[Ev.i].centring) /\ Ev.kept
    /\ (IF Ev.recip = 1 THEN Ev.volq ELSE Ev.volr) = Det(Ev.g)      \* the other follows from volvol = 1
    /\ held' = Put(held, Ev.id, [made |-> <<Ev.how, Ev.sym, Ev.snap, Ev.i>>, m |-> <<M, Q>>, g |-> Ev.g, recip |-> Ev.recip, scale |-> Ev.scale, letter |-> Ev.letter, nops |-> Ev.nops,
                                 turn |-> IF Ev.how \in {"col", "row"} THEN Ev.turn ELSE <<>>])
    /\ UNCHANGED prim
(* The equality of the library is very strict (5e-15 for components that vanish), so that it is only claimed of lattices    *)
(* made in the same way.                                                                                                *)
(* built again from its own parameters or vectors, direct or reciprocal *)
Again == IsEvent("Again") /\ LET h == held[Ev.id] IN
    /\ Describes(h.m[1], h.m[2], h.letter) /\ Ev.nops = h.nops
    /\ (Ev.how \in {"col", "row"} \/ h.turn = <<>>) => Ev.near      \* in the same place
    /\ (Ev.is => Ev.near) /\ Ev.eq = Ev.is /\ Ev.ne = ~Ev.is    /\ UNCHANGED <<held, prim>>
SameMetric(a, b) == a.recip = b.recip /\ ScaleM(a.scale[1]*a.scale[1]*b.scale[2]*b.scale[2], a.g) = ScaleM(b.scale[1]*b.scale[1]*a.scale[2]*a.scale[2], b.g)
Same == IsEvent("Same") /\ LET a == held[Ev.a]  b == held[Ev.b] IN
    /\ Ev.eq = Ev.is /\ Ev.ne = ~Ev.is /\ Ev.sym = Ev.is
    /\ (SameMetric(a, b) /\ a.turn = b.turn /\ a.made = b.made /\ a.scale = b.scale) => Ev.is
    /\ (a.recip = b.recip /\ ~SameMetric(a, b)) => ~Ev.is
    /\ UNCHANGED <<held, prim>>
At(s, j) == IF Len(s) = 1 THEN s[1] ELSE s[j]
Pairs == 1..(IF Len(Ev.x) > Len(Ev.y) THEN Len(Ev.x) ELSE Len(Ev.y))
Vec == IsEvent("Vec") /\ LET h == held[Ev.id]  G == h.m[Ev.r + 1]  A == Adj(G)  P == Pairs  n == Len(Ev.x)  last == Ev.y[Len(Ev.y)] IN
    /\ Ev.of
    /\ Ev.dot = [j \in P |-> Dot(G, At(Ev.x, j), At(Ev.y, j))]
    /\ Ev.cross = [j \in P |-> MV(A, Cross(At(Ev.x, j), At(Ev.y, j)))]
    /\ Ev.mcross = <<MV(A, Cross(Ev.x[1], last))>> /\ Ev.mdot = Dot(G, Ev.x[1], last)
    /\ Ev.norm2 = [j \in 1..n |-> Dot(G, Ev.x[j], Ev.x[j])] /\ Ev.mnorm = Ev.norm2[1]
    /\ Ev.star = [j \in 1..n |-> MV(G, Ev.x[j])] /\ Ev.fstar = Ev.star
    /\ Ev.mixed = [j \in P |-> Plain(At(Ev.x, j), At(Ev.y, j))] /\ Ev.mixed2 = Ev.mixed /\ Ev.xmixed = Ev.mixed
    /\ Ev.xdot = Ev.dot
    /\ Ev.back = Ev.x /\ Ev.back2 = Ev.x /\ Ev.back3 = Ev.x /\ Ev.starback = Ev.x /\ Ev.place /\ Ev.starplace
    /\ Len(Ev.x) = Len(Ev.y) => /\ Ev.plus = [j \in P |-> Add3(Ev.x[j], Ev.y[j])]
                                /\ Ev.minus = [j \in P |-> Sub3(Ev.x[j], Ev.y[j])]
    /\ Ev.times = [j \in 1..n |-> Scale3(3, Ev.x[j])] /\ Ev.twice = [j \in 1..n |-> Scale3(2, Ev.x[j])] /\ Ev.neg = [j \in 1..n |-> Neg3(Ev.x[j])]
    /\ Ev.all = Ev.x \o Ev.y
    /\ UNCHANGED <<held, prim>>
(* vectors of different lattices have no scalar product *)
Mixed == IsEvent("Mixed") /\ LET a == held[Ev.a]  b == held[Ev.b] IN
    /\ (SameMetric(a, b) /\ a.turn = b.turn /\ a.made = b.made /\ a.scale = b.scale) => /\ ~Ev.error /\ Ev.same = (Ev.r = Ev.k) /\ Ev.star = (Ev.r # Ev.k)
    /\ (a.recip = b.recip /\ ~SameMetric(a, b)) => Ev.error /\ ~Ev.same /\ ~Ev.star
    /\ UNCHANGED <<held, prim>>
Turn == IsEvent("Turn") /\ Ev.of /\ Ev.y = [j \in 1..Len(Ev.x) |-> MV(Ev.W, Ev.x[j])] /\ UNCHANGED <<held, prim>>
(* the primitive description: any primitive basis would do, but all of it has to be the same one *)
Prim == IsEvent("Prim") /\ LET h == held[Ev.id] IN
    /\ Ev.letter = h.letter /\ Ev.pletter = "P"
    /\ IsPrimitiveBasis(Ev.p6, h.letter)
    /\ Mul(Ev.p6, Ev.ip) = ScaleM(6, I3) /\ Ev.p6t = Transpose(Ev.p6) /\ Ev.ipt = Transpose(Ev.ip)
    /\ Ev.does = (h.letter # "P") /\ Ev.doesnt = (h.letter = "P")
    /\ Ev.metricr = Congruent(h.m[1], Ev.p6) /\ Ev.metricq = Congruent(h.m[2], Ev.ipt)
    /\ Ev.ratio = CellPoints(h.letter) /\ Ev.qratio = Ev.ratio /\ Ev.prod = I3 /\ Ev.vectors
    /\ Ev.again /\ Ev.is = (h.letter = "P") /\ Ev.nops = h.nops
    /\ prim' = Put(prim, Ev.id, Ev.p6) /\ UNCHANGED held
(* vectors x (in units 1/u) from and to the primitive basis; y is reported in units 1/(6u) *)
Times(P, r, to, v) == CASE r = 0 /\ to = 1 -> LET t == Adj(P) IN [k \in 1..3 |-> (36 * MV(t, v)[k]) \div Det(P)]
                        [] r = 1 /\ to = 1 -> VM(v, P)
                        [] r = 0 /\ to = 0 -> MV(P, v)
                        [] OTHER -> [k \in 1..3 |-> (36 * VM(v, Adj(P))[k]) \div Det(P)]
Whole(v) == \A k \in 1..3 : (v[k] % 6) = 0
Transform == IsEvent("Trans") /\ LET P == prim[Ev.id]  want == [j \in 1..Len(Ev.x) |-> Times(P, Ev.r, Ev.to, Ev.x[j])] IN
    \* integers are only claimed for vectors with integer components in both descriptions
    /\ (Ev.type # "int" \/ \A j \in 1..Len(want) : Whole(want[j])) =>
         Ev.y = want /\ Ev.z = Ev.x /\ Ev.twice = want /\ Ev.there /\ Ev.back /\ Ev.place
    /\ UNCHANGED <<held, prim>>
Wrong == IsEvent("Wrong") /\ LET a == held[Ev.a]  b == held[Ev.b] IN
    \* the vector belongs to neither the lattice nor its primitive description (the metrics differ in volume)
    /\ (a.recip = b.recip /\ a.scale = b.scale /\ LET p == Det(a.g)  q == Det(b.g) IN \A n \in {1, 2, 3, 4} : p # q * n * n /\ q # p * n * n) => Ev.error
    /\ UNCHANGED <<held, prim>>
TSpec == TInit /\ [][TReset \/ Lat \/ Again \/ Same \/ Vec \/ Mixed \/ Turn \/ Prim \/ Transform \/ Wrong]_vars
=============================================================================
