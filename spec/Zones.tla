------------------------------- MODULE Zones -------------------------------
(* Brillouin zones in integers.  G is the metric of the reciprocal lattice of the conventional cell and L its centring,   *)
(* so that the reciprocal lattice points are the integer vectors h with Allowed(L, h).  A wavevector is n/N.              *)
(* Rotations W act on real vectors x as W x, and on wavevectors as transpose(W) n.                                        *)
EXTENDS Lattices
Allowed(L, h) == \A t \in Centre(L) : (Plain(t, h) % N) = 0
Class(L, h) == LET p == VM(h, SixP[L]) IN <<(p[1] \div 6) % 2, (p[2] \div 6) % 2, (p[3] \div 6) % 2>>      \* modulo twice the lattice
Reach == 3
Around == {<<a, b, c>> : a, b, c \in (0 - Reach)..Reach} \ {Z3}
Points(L) == {h \in Around : Allowed(L, h)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
(* Voronoi: the bisector of h holds a face exactly when +h and -h are the shortest of their class modulo twice the lattice. *)
(* A face is <<h, G h, h.G h>>.                                                                                          *)
Classes == {<<a, b, c>> : a, b, c \in 0..1} \ {Z3}
ShortestOf(G, S) == LET m == Least({Dot(G, h, h) : h \in S}) IN {h \in S : Dot(G, h, h) = m}
Faces(G, L) == LET P == {<<h, Class(L, h)>> : h \in Points(L)} IN
    {<<h, MV(G, h), Dot(G, h, h)>> : h \in UNION {LET s == ShortestOf(G, {p[1] : p \in {x \in P : x[2] = c}}) IN IF Cardinality(s) = 2 THEN s ELSE {} : c \in Classes}}
(* the search has gone far enough when no shorter vector can lie outside of Around *)
Enough(G, L) == LET P == {<<h, Class(L, h)>> : h \in Points(L)}  A == Adj(G)  D == Det(G) IN
    \A c \in Classes : LET S == {p[1] : p \in {x \in P : x[2] = c}} IN
        S # {} /\ \A i \in {1, 5, 9} : Least({Dot(G, h, h) : h \in S}) * A[i] < D * (Reach + 1) * (Reach + 1)
InZone(F, n, m) == \A f \in F : 2 * Plain(n, f[2]) <= m * f[3]             \* the point n/m; closed
Inner(F, n, m) == \A f \in F : 2 * Plain(n, f[2]) < m * f[3]
Rot(W, n) == VM(n, W)
(* a wedge is a sequence of covectors m: the points with m.n >= 0 for all of them, and their negatives if it is mirrored *)
Behind(w, n) == \A k \in 1..Len(w) : Plain(w[k], n) >= 0
Within(w, mirrored, n) == Behind(w, n) \/ (mirrored /\ Behind(w, Neg3(n)))
Deep(w, mirrored, n) == LET In(v) == \A k \in 1..Len(w) : Plain(w[k], v) > 0 IN In(n) \/ (mirrored /\ In(Neg3(n)))
(* covers every direction, and no two different directions of its interior are equivalent *)
Covers(w, mirrored, ops, dirs) == \A n \in dirs : \E W \in ops : Within(w, mirrored, Rot(W, n))
Once(w, mirrored, ops, dirs) == \A n \in dirs : Deep(w, mirrored, n) => \A W \in ops : Rot(W, n) = n \/ ~Deep(w, mirrored, Rot(W, n))
(* a polyhedron by the corners of its faces: every edge is that of two faces, in opposite directions; one closed surface *)
Edges(s) == {<<s[k], s[(k % Len(s)) + 1]>> : k \in 1..Len(s)}
SumLen(fs) == LET RECURSIVE Go(_) Go(k) == IF k = 0 THEN 0 ELSE Len(fs[k]) + Go(k - 1) IN Go(Len(fs))
ClosedSurface(fs, nv) == LET E2 == UNION {Edges(fs[k]) : k \in 1..Len(fs)} IN
    /\ \A k \in 1..Len(fs) : Len(fs[k]) >= 3 /\ Cardinality({fs[k][j] : j \in 1..Len(fs[k])}) = Len(fs[k])
    /\ Cardinality(E2) = SumLen(fs)                                       \* no directed edge twice
    /\ \A e \in E2 : <<e[2], e[1]>> \in E2
    /\ UNION {{fs[k][j] : j \in 1..Len(fs[k])} : k \in 1..Len(fs)} = 0..(nv - 1)
    /\ 2 * nv + 2 * Len(fs) - SumLen(fs) = 4                              \* Euler
=============================================================================
