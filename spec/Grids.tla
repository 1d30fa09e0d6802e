------------------------------- MODULE Grids -------------------------------
(* Interpolation grids that fill a solid.  A cell is a box or a tetrahedron with grid points for corners; the weights of a *)
(* point of a cell are the volumes that it cuts off, and reproduce every linear function.                                  *)
EXTENDS Polyhedra
Bounds(P) == [i \in 1..3 |-> <<Min({X[i] : X \in P.V}), Max({X[i] : X \in P.V})>>]
BoxVolume(lo, hi) == (hi[1] - lo[1]) * (hi[2] - lo[2]) * (hi[3] - lo[3])
InBox(lo, hi, X) == \A i \in 1..3 : lo[i] <= X[i] /\ X[i] <= hi[i]
(* weights in a box and in a tetrahedron, by corner; they sum to the volume (six times that of the tetrahedron) *)
CornersOf(lo, hi) == {<<x, y, w>> : x \in {lo[1], hi[1]}, y \in {lo[2], hi[2]}, w \in {lo[3], hi[3]}}
BoxWeight(lo, hi, C, X) == LET f(i) == IF C[i] = hi[i] THEN X[i] - lo[i] ELSE hi[i] - X[i] IN f(1) * f(2) * f(3)
Six(a, b, c, d) == Det3(Sub3(b, a), Sub3(c, a), Sub3(d, a))
TetWeight(t, k, X) == LET s == [t EXCEPT ![k] = X] IN Six(s[1], s[2], s[3], s[4])
Mean(S, w(_)) == [i \in 1..3 |-> FoldSet(LAMBDA C, acc : acc + w(C) * C[i], 0, S)]
(* the part of a solid in a box *)
Part(P, lo, hi) == Common(P, Box(lo, hi))
(* tetrahedra fill a solid when they are inside it, do not degenerate, share or border on their faces, and add up to it *)
FacesOfTet(t) == {t \ {x} : x \in t}
=============================================================================
