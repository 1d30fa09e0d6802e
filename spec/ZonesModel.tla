----------------------------- MODULE ZonesModel -----------------------------
(* A point wandering through reciprocal space by lattice translations and point operations, over lattices of every system: *)
(* it has always exactly one place in the zone (one of several on its surface) and in a wedge of a generic direction.      *)
EXTENDS Zones, TLC
CONSTANT M                                       \* points are n/M
VARIABLES c, n, z                                \* z: the faces, operations and wedge of lattice c
Case == <<
  [g |-> <<1,0,0, 0,1,0, 0,0,1>>, L |-> "P", gens |-> {<<0,-1,0, 1,0,0, 0,0,1>>, <<0,0,1, 1,0,0, 0,1,0>>, M3}],          \* m-3m
  [g |-> <<1,0,0, 0,1,0, 0,0,1>>, L |-> "I", gens |-> {<<0,-1,0, 1,0,0, 0,0,1>>, <<0,0,1, 1,0,0, 0,1,0>>}],              \* 432
  [g |-> <<1,0,0, 0,1,0, 0,0,1>>, L |-> "F", gens |-> {<<0,1,0, -1,0,0, 0,0,-1>>, <<0,0,1, 1,0,0, 0,1,0>>}],             \* -43m
  [g |-> <<2,1,0, 1,2,0, 0,0,3>>, L |-> "P", gens |-> {<<1,-1,0, 1,0,0, 0,0,1>>, M3}],                                   \* 6/m
  [g |-> <<4,2,0, 2,4,0, 0,0,1>>, L |-> "R", gens |-> {<<0,-1,0, 1,-1,0, 0,0,1>>, <<0,1,0, 1,0,0, 0,0,-1>>}],            \* 32
  [g |-> <<3,0,1, 0,2,0, 1,0,4>>, L |-> "C", gens |-> {<<-1,0,0, 0,1,0, 0,0,-1>>}],                                      \* 2
  [g |-> <<3,0,0, 0,4,0, 0,0,5>>, L |-> "A", gens |-> {<<-1,0,0, 0,-1,0, 0,0,1>>, <<1,0,0, 0,-1,0, 0,0,1>>}],            \* mm2
  [g |-> <<3,1,-1, 1,4,1, -1,1,5>>, L |-> "P", gens |-> {M3}] >>                                                         \* -1
Num == 1..Len(Case)
GOf(i) == Case[i].g
Far == {<<a, b, d>> : a, b, d \in (0 - M)..M}
Generic == <<1009, 211, 37>>
Wedge(G, ops) == SetToSeq({MV(G, Sub3(Generic, Rot(W, Generic))) : W \in {x \in ops : Rot(x, Generic) # Generic}})
Of(i) == LET ops == GrowM(Case[i].gens, {I3}, {I3}) IN [faces |-> Faces(GOf(i), Case[i].L), ops |-> ops, wedge |-> Wedge(GOf(i), ops)]
Init == \E i \in Num : c = i /\ z = Of(i) /\ n \in Far
Translate == \E f \in z.faces : LET m == Sub3(n, Scale3(M, f[1])) IN m \in Far /\ n' = m /\ UNCHANGED <<c, z>>
Turn == \E W \in z.ops : LET m == Rot(W, n) IN m \in Far /\ n' = m /\ UNCHANGED <<c, z>>
Next == Translate \/ Turn
Spec == Init /\ [][Next]_<<c, n, z>>
Lattice == n # Z3 \/ LET G == GOf(c)  F == z.faces IN
    /\ Gram(G) /\ Enough(G, Case[c].L)
    /\ \A W \in z.ops : Mul(Mul(W, G), Transpose(W)) = G /\ (\A f \in F : Allowed(Case[c].L, Rot(W, f[1])))
    /\ Cardinality(F) \in {6, 8, 10, 12, 14}
    /\ \A f \in F : \A W \in z.ops \cup {M3} : \E k \in F : k[1] = Rot(W, f[1])
(* every point has an equivalent one in the zone, nearest to the origin, and just one when that is not on its surface *)
Home(m) == {x \in {Sub3(m, Scale3(M, h)) : h \in {v \in {<<i, j, k>> : i, j, k \in -2..2} : Allowed(Case[c].L, v)}} : InZone(z.faces, x, M)}
Reduced == LET H == Home(n) IN
    /\ H # {}
    /\ \A x, y \in H : Dot(GOf(c), x, x) = Dot(GOf(c), y, y)
    /\ (\E x \in H : Inner(z.faces, x, M)) => Cardinality(H) = 1
    /\ \A W \in z.ops : InZone(z.faces, Rot(W, n), M) = InZone(z.faces, n, M)
(* the points nearer to a generic direction d than to its images are a wedge that covers everything once *)
Irreducible == Covers(z.wedge, FALSE, z.ops, {n}) /\ Once(z.wedge, FALSE, z.ops, {n})
=============================================================================
