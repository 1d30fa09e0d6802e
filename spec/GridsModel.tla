----------------------------- MODULE GridsModel -----------------------------
EXTENDS Grids
CONSTANTS Side, Depth
VARIABLES P, depth
vars == <<P, depth>>
Start == Box(<<-Side * U, -Side * U, 0>>, <<Side * U, Side * U, Side * U>>)
Normals == {n \in {<<a, b, c>> : a, b, c \in -1..1} : n # Z3}
Planes(lim) == {<<n, U * d>> : n \in Normals, d \in (0 - lim)..lim}
Init == P = Start /\ depth = 0
Next == /\ depth < Depth
        /\ \E h \in Planes(2 * Side) : (\E X \in P.V : ~Inside(h, X)) /\ CutOne(P, h) # None /\ P' = CutOne(P, h)
        /\ depth' = depth + 1
Spec == Init /\ [][Next]_vars
Knot(b, n, k) == b[1] + (k * (b[2] - b[1])) \div n
Nodes(n) == LET b == Bounds(P) IN {<<[i \in 1..3 |-> Knot(b[i], n[i], s[i])], [i \in 1..3 |-> Knot(b[i], n[i], s[i] + 1)]>> : s \in (0..(n[1] - 1)) \X (0..(n[2] - 1)) \X (0..(n[3] - 1))}
Ways == {<<1, 1, 2>>, <<2, 2, 1>>}
Vol(Q) == IF Q = None THEN 0 ELSE Volume6(Q)
Probes == {<<x, y, w>> : x, y \in {-U, -4, 0, U}, w \in {0, 3, U}}
Tiles == \A n \in Ways : (\A i \in 1..3 : ((Bounds(P)[i][2] - Bounds(P)[i][1]) % (2 * n[i])) = 0) =>
    /\ FoldSet(LAMBDA b, acc : acc + Vol(Part(P, b[1], b[2])), 0, Nodes(n)) = Volume6(P)
    /\ \A X \in Probes : InSolid(P.H, X) => \E b \in Nodes(n) : InBox(b[1], b[2], X) /\ Part(P, b[1], b[2]) # None
(* the weights of a point, over the corners of a cell *)
BoxExact == LET b == Bounds(P)  lo == [i \in 1..3 |-> b[i][1]]  hi == [i \in 1..3 |-> b[i][2]] IN \A X \in Probes :
    /\ Mean(CornersOf(lo, hi), LAMBDA C : BoxWeight(lo, hi, C, X)) = Scale3(BoxVolume(lo, hi), X)
    /\ FoldSet(LAMBDA C, acc : acc + BoxWeight(lo, hi, C, X), 0, CornersOf(lo, hi)) = BoxVolume(lo, hi)
    /\ InBox(lo, hi, X) = \A C \in CornersOf(lo, hi) : BoxWeight(lo, hi, C, X) >= 0
TetOf(P_) == LET s == SetToSeq(P_.V) IN {<<s[1], s[2], s[k], s[m]>> : k, m \in 3..Len(s)}
TetExact == \A t \in {t \in TetOf(P) : Six(t[1], t[2], t[3], t[4]) > 0} : LET v == Six(t[1], t[2], t[3], t[4])  w(X) == [k \in 1..4 |-> TetWeight(t, k, X)] IN \A X \in Probes :
    /\ w(X)[1] + w(X)[2] + w(X)[3] + w(X)[4] = v
    /\ \A i \in 1..3 : w(X)[1] * t[1][i] + w(X)[2] * t[2][i] + w(X)[3] * t[3][i] + w(X)[4] * t[4][i] = v * X[i]
    /\ (\A k \in 1..4 : w(X)[k] >= 0) => InSolid(P.H, X)
=============================================================================
