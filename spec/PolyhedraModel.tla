--------------------------- MODULE PolyhedraModel ---------------------------
(* All ways to cut a small box by up to Depth planes: the two halves add up, the order of cuts does not matter, all three *)
(* definitions of the corners agree, and the result is always a solid.                                                   *)
EXTENDS Polyhedra
CONSTANTS Side, Depth
VARIABLES P, depth
vars == <<P, depth>>
Start == Box(Z3, <<Side * U, Side * U, Side * U>>)
Normals == {n \in {<<a, b, c>> : a, b, c \in -1..1} : n # Z3}
Planes(lim) == {<<n, U * d>> : n \in Normals, d \in (0 - lim)..lim}
Init == P = Start /\ depth = 0
Next == /\ depth < Depth /\ P # None
        /\ \E h \in Planes(2 * Side) : (\E X \in P.V : ~Inside(h, X)) /\ P' = CutOne(P, h)
        /\ depth' = depth + 1
Spec == Init /\ [][Next]_vars
TypeOK == Good(P)
Probes == {<<n, U * d>> : n \in {<<1, 0, 0>>, <<0, 1, -1>>, <<1, 1, 1>>, <<-1, 1, 1>>}, d \in 0..2}
Vol(Q) == IF Q = None THEN 0 ELSE Volume6(Q)
Halves == P = None \/ \A h \in Probes : LET A == CutOne(P, h)  B == CutOne(P, Opposite(h)) IN
    /\ Vol(A) + Vol(B) = Volume6(P)
    /\ A # None => Corners(A.H) = A.V
    /\ (A # None /\ A # P) => ByEdges(P, h) = A
    /\ (A # None /\ B # None) => \A i \in 1..3 : Moment(A)[i] + Moment(B)[i] = Moment(P)[i]
Commute == P = None \/ \A g, h \in Probes : CutOne(CutOne(P, g), h) = CutOne(CutOne(P, h), g)
HullAgrees == P = None \/ Cardinality(P.V) > 8 \/ Hull(P.V) = P
=============================================================================
