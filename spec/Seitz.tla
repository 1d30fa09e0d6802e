------------------------------- MODULE Seitz -------------------------------
(* Integer 3x3 matrices (rows joined to a 9-tuple) and motions <<W, w>>: a point p moves to W p + w.  Translations are   *)
(* integers in units of 1/N of a lattice translation; motions are compared modulo whole lattice translations.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
N == 24
I3 == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
M3 == <<-1, 0, 0, 0, -1, 0, 0, 0, -1>>
Z9 == <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
Z3 == <<0, 0, 0>>
Abs(x) == IF x < 0 THEN -x ELSE x
Mul(A, B) == <<A[1]*B[1] + A[2]*B[4] + A[3]*B[7], A[1]*B[2] + A[2]*B[5] + A[3]*B[8], A[1]*B[3] + A[2]*B[6] + A[3]*B[9],
               A[4]*B[1] + A[5]*B[4] + A[6]*B[7], A[4]*B[2] + A[5]*B[5] + A[6]*B[8], A[4]*B[3] + A[5]*B[6] + A[6]*B[9],
               A[7]*B[1] + A[8]*B[4] + A[9]*B[7], A[7]*B[2] + A[8]*B[5] + A[9]*B[8], A[7]*B[3] + A[8]*B[6] + A[9]*B[9]>>
MV(A, v) == <<A[1]*v[1] + A[2]*v[2] + A[3]*v[3], A[4]*v[1] + A[5]*v[2] + A[6]*v[3], A[7]*v[1] + A[8]*v[2] + A[9]*v[3]>>
VM(v, A) == <<A[1]*v[1] + A[4]*v[2] + A[7]*v[3], A[2]*v[1] + A[5]*v[2] + A[8]*v[3], A[3]*v[1] + A[6]*v[2] + A[9]*v[3]>>
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Neg3(a) == <<-a[1], -a[2], -a[3]>>
Scale3(s, a) == <<s * a[1], s * a[2], s * a[3]>>
NegM(A) == [k \in 1..9 |-> -A[k]]
ScaleM(s, A) == [k \in 1..9 |-> s * A[k]]
Transpose(A) == <<A[1], A[4], A[7], A[2], A[5], A[8], A[3], A[6], A[9]>>
Det(A) == A[1]*(A[5]*A[9] - A[6]*A[8]) - A[2]*(A[4]*A[9] - A[6]*A[7]) + A[3]*(A[4]*A[8] - A[5]*A[7])
Tr(A) == A[1] + A[5] + A[9]
Adj(A) == <<A[5]*A[9] - A[6]*A[8], A[3]*A[8] - A[2]*A[9], A[2]*A[6] - A[3]*A[5],
            A[6]*A[7] - A[4]*A[9], A[1]*A[9] - A[3]*A[7], A[3]*A[4] - A[1]*A[6],
            A[4]*A[8] - A[5]*A[7], A[2]*A[7] - A[1]*A[8], A[1]*A[5] - A[2]*A[4]>>
Unimodular(A) == Abs(Det(A)) = 1
InvM(A) == ScaleM(Det(A), Adj(A))               \* of unimodular matrices
Red(v) == <<v[1] % N, v[2] % N, v[3] % N>>
(* ---- motions *)
E == <<I3, Z3>>
Norm(m) == <<m[1], Red(m[2])>>
MMul(a, b) == <<Mul(a[1], b[1]), Red(Add3(MV(a[1], b[2]), a[2]))>>
MInv(a) == LET V == InvM(a[1]) IN <<V, Red(Neg3(MV(V, a[2])))>>
Equal(a, b) == Norm(a) = Norm(b)
Move(a, p) == Add3(MV(a[1], p), a[2])
Trans(v) == <<I3, v>>
(* ---- kinds of operation *)
IsoTable(d, t) == IF d = 1 THEN CASE t = 3 -> 1 [] t = -1 -> 2 [] t = 0 -> 3 [] t = 1 -> 4 [] t = 2 -> 6 [] OTHER -> 0
                  ELSE IF d = -1 THEN CASE t = -3 -> -1 [] t = 1 -> -2 [] t = 0 -> -3 [] t = -1 -> -4 [] t = -2 -> -6 [] OTHER -> 0 ELSE 0
Iso(A) == IsoTable(Det(A), Tr(A))
Fold(A) == Abs(Iso(A))                            \* the order of the proper part
Proper(A) == IF Det(A) < 0 THEN NegM(A) ELSE A
RECURSIVE PowerOrder(_, _, _, _)
PowerOrder(a, x, n, top) == IF x = E THEN n ELSE IF n >= top \/ (\E k \in 1..9 : Abs(x[1][k]) > 1000) THEN top ELSE PowerOrder(a, MMul(a, x), n + 1, top)
OrderOf(a, top) == PowerOrder(Norm(a), Norm(a), 1, top)
(* ---- the smallest set that contains the identity and is closed under multiplication by the generators *)
RECURSIVE Grow(_, _, _)
Grow(gens, all, new) == IF new = {} THEN all
    ELSE LET more == {MMul(g, x) : g \in gens, x \in new} \ all IN Grow(gens, all \cup more, more)
Closure(gens) == LET g == {Norm(a) : a \in gens} IN Grow(g, {E}, {E})
(* the same, empty when there would be more than top *)
RECURSIVE GrowTo(_, _, _, _)
GrowTo(gens, all, new, top) == IF Cardinality(all) > top THEN {} ELSE IF new = {} THEN all
    ELSE LET more == {MMul(g, x) : g \in gens, x \in new} \ all IN GrowTo(gens, all \cup more, more, top)
ClosureTo(gens, top) == LET g == {Norm(a) : a \in gens} IN GrowTo(g, {E}, {E}, top)
RECURSIVE GrowM(_, _, _)
GrowM(gens, all, new) == IF new = {} THEN all
    ELSE LET more == {Mul(g, x) : g \in gens, x \in new} \ all IN GrowM(gens, all \cup more, more)
ClosureM(gens) == GrowM(gens, {I3}, {I3})
IsGroup(G) == E \in G /\ (\A a \in G : MInv(a) \in G) /\ \A a, b \in G : MMul(a, b) \in G
IsGroupM(G) == I3 \in G /\ (\A a \in G : InvM(a) \in G) /\ \A a, b \in G : Mul(a, b) \in G
(* ---- axes *)
GcdOf(a, b) == LET S == {d \in 1..(Abs(a) + Abs(b)) : (a % d) = 0 /\ (b % d) = 0} IN IF S = {} THEN 0 ELSE CHOOSE d \in S : \A e \in S : e <= d
Gcd3(v) == GcdOf(GcdOf(v[1], v[2]), v[3])
Parallel(a, b) == a[1]*b[2] = a[2]*b[1] /\ a[2]*b[3] = a[3]*b[2] /\ a[1]*b[3] = a[3]*b[1]
(* centring translations in units of 1/N *)
Centre(b) == CASE b = "P" -> {Z3}
               [] b = "A" -> {Z3, <<0, 12, 12>>}
               [] b = "B" -> {Z3, <<12, 0, 12>>}
               [] b = "C" -> {Z3, <<12, 12, 0>>}
               [] b = "I" -> {Z3, <<12, 12, 12>>}
               [] b = "F" -> {Z3, <<0, 12, 12>>, <<12, 0, 12>>, <<12, 12, 0>>}
               [] b = "R" -> {Z3, <<16, 8, 8>>, <<8, 16, 16>>}
               [] OTHER -> {}
=============================================================================
