-------------------------- MODULE CrystalClassModel --------------------------
(* Groups of point operations grown one generator at a time within m-3m or 6/mmm.  Each is of exactly one class, and     *)
(* its Laue class, holohedry and order are those of the groups it is part of.                                           *)
EXTENDS CrystalClass
CONSTANTS System, Depth
VARIABLES G, d
vars == <<G, d>>
Holo == IF System = 4 THEN ClosureM({<<0, -1, 0, 1, 0, 0, 0, 0, 1>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0>>, M3}) ELSE ClosureM({<<1, -1, 0, 1, 0, 0, 0, 0, 1>>, <<0, 1, 0, 1, 0, 0, 0, 0, -1>>, M3})
Init == G = {I3} /\ d = 0
Next == d < Depth /\ d' = d + 1 /\ \E A \in Holo : G' = ClosureM(G \cup {A})
Spec == Init /\ [][Next]_vars
View0 == G
LaueGroup == G \cup {NegM(A) : A \in G}
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
One == /\ Cardinality({k \in 1..32 : Classes[k].counts = Counts(G)}) = 1
       /\ Sum(Classes[ClassNo(G)].counts) = Cardinality(G)
       /\ Classes[ClassNo(LaueGroup)].laue = Classes[ClassNo(G)].laue
       /\ Classes[ClassNo(LaueGroup)].holohedry = Classes[ClassNo(G)].holohedry
       /\ M3 \in LaueGroup /\ IsGroupM(LaueGroup)
Basis == LET U == <<1, 1, 0, 0, 1, -1, 0, 0, 1>> IN ClassNo({Mul(Mul(U, A), InvM(U)) : A \in G}) = ClassNo(G)
=============================================================================
