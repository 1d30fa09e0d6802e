------------------------------ MODULE Lattices ------------------------------
(* A crystal lattice by its integer metric tensor G (of the direct lattice), in integers throughout:                    *)
(*   the metric of the reciprocal lattice is (2 pi)^2 Adj(G)/det G, and the volumes are V = sqrt(det G), (2 pi)^3/V.     *)
(* Real vectors are x (in units of the basis), reciprocal vectors q.  A centred lattice also holds the points of        *)
(* Centre(letter); its primitive description has basis vectors A P, with 6P an integer matrix.                          *)
EXTENDS Seitz
Dual(G) == Adj(G)                                  \* in units of (2 pi)^2 / det G
Dot(G, x, y) == LET v == MV(G, x) IN v[1]*y[1] + v[2]*y[2] + v[3]*y[3]
Plain(x, y) == x[1]*y[1] + x[2]*y[2] + x[3]*y[3]
Cross(x, y) == <<x[2]*y[3] - x[3]*y[2], x[3]*y[1] - x[1]*y[3], x[1]*y[2] - x[2]*y[1]>>
Symmetric(G) == G[2] = G[4] /\ G[3] = G[7] /\ G[6] = G[8]
Positive(G) == G[1] > 0 /\ G[1]*G[5] - G[2]*G[4] > 0 /\ Det(G) > 0
Gram(G) == Symmetric(G) /\ Positive(G)
Congruent(G, W) == Mul(Mul(Transpose(W), G), W)
Keeps(W, G) == Congruent(G, W) = G                  \* an operation that maps the lattice onto itself with its distances
CellPoints(L) == Cardinality(Centre(L))             \* lattice points per conventional cell
(* A primitive basis P6/6 of the lattice centred as L: its vectors are lattice points and there is one point per cell. *)
IsPrimitiveBasis(P6, L) ==
    /\ Det(P6) * CellPoints(L) = 216
    /\ \A j \in 1..3 : Red(<<4 * P6[j], 4 * P6[3 + j], 4 * P6[6 + j]>>) \in Centre(L)       \* sixths to 24ths
(* coordinates with respect to the primitive bases *)
RealTo(P6, x)  == LET d == Det(P6)  A == Adj(P6) IN <<6 * MV(A, x)[1], 6 * MV(A, x)[2], 6 * MV(A, x)[3], d>>   \* numerators, denominator
RecipTo6(P6, q) == VM(q, P6)                        \* six times the components
InCentred(L, x24) == Red(x24) \in Centre(L)         \* real-lattice membership, x in 24ths
InDual(P6, q) == \A j \in 1..3 : (VM(q, P6)[j] % 6) = 0    \* q a point of the reciprocal lattice of the centred lattice
(* a primitive basis of every centred lattice, in sixths *)
Letters == {"P", "A", "B", "C", "I", "F", "R"}
SixP == [l \in Letters |-> CASE l = "P" -> ScaleM(6, I3)
   [] l = "I" -> <<-3, 3, 3, 3, -3, 3, 3, 3, -3>> [] l = "F" -> <<0, 3, 3, 3, 0, 3, 3, 3, 0>>
   [] l = "A" -> <<6, 0, 0, 0, 3, -3, 0, 3, 3>> [] l = "B" -> <<3, 0, -3, 0, 6, 0, 3, 0, 3>>
   [] l = "C" -> <<3, 3, 0, -3, 3, 0, 0, 0, 6>> [] l = "R" -> <<4, -2, -2, 2, 2, -4, 2, 2, 2>>]
=============================================================================
