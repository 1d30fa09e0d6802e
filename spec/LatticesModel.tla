--------------------------- MODULE LatticesModel ---------------------------
(* Every lattice with a small integer basis matrix (rows are Cartesian components) and every centring; what is reported *)
(* of it is what the definitions give, and the identities relied on hold for all of them.                               *)
EXTENDS Lattices
CONSTANTS Low, High
VARIABLES A, L, x, y
Vals == (0 - Low)..High
Vecs == {<<1, 0, 0>>, <<0, 1, 1>>, <<1, -2, 3>>, <<-1, 1, 0>>}
Init == /\ A \in {<<a, b, c, 0, d, e, f, 0, g>> : a, d, g \in 1..High, b, c, e, f \in Vals}
        /\ L = "P" /\ x \in Vecs /\ y \in Vecs
Recentre == \E l \in Letters : L' = l /\ UNCHANGED <<A, x, y>>
Swap == x' = y /\ y' = x /\ UNCHANGED <<A, L>>
Next == Recentre \/ Swap
Spec == Init /\ [][Next]_<<A, L, x, y>>
G == Mul(Transpose(A), A)
D == Det(G)
Useful == Det(A) # 0
Duality == Useful => /\ Gram(G) /\ D = Det(A) * Det(A)
                     /\ Mul(G, Dual(G)) = ScaleM(D, I3)
                     /\ Dual(Dual(G)) = ScaleM(D, G) /\ Det(Dual(G)) = D * D
CrossTriple == Useful => LET z == MV(Dual(G), Cross(x, y)) IN       \* V (x cross y) in the same basis
    /\ Dot(G, z, x) = 0 /\ Dot(G, z, y) = 0
    /\ Dot(G, z, z) = D * (Dot(G, x, x) * Dot(G, y, y) - Dot(G, x, y) * Dot(G, x, y))
Primitive == LET P == SixP[L] IN
    /\ IsPrimitiveBasis(P, L)
    /\ Useful => /\ Det(Congruent(G, P)) * CellPoints(L) * CellPoints(L) = 216 * 216 * D
                 /\ RecipTo6(P, <<1, 0, 0>>) = <<P[1], P[2], P[3]>>
(* the centred lattice is the set of integer combinations of the primitive basis: every centring point is one *)
Spans == LET P == SixP[L] IN \A t \in Centre(L) : LET n == RealTo(P, t) IN \A k \in 1..3 : (n[k] % (24 * n[4])) = 0
Phase == LET P == SixP[L] IN InDual(P, x) <=> \A t \in Centre(L) : (Plain(t, x) % 24) = 0
=============================================================================
