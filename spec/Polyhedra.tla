----------------------------- MODULE Polyhedra -----------------------------
(* Convex solids as intersections of half-spaces, in integers.  A half-space <<n, d>> holds the points X with n.X <= d.    *)
(* Points are in units of 1/U; the normals of cutting planes have components -1, 0, 1, so that any three of them meet in a *)
(* point with denominator 1 to 4, and every corner is a point of the grid.  A solid is its bounding planes and its corners.*)
EXTENDS Seitz
U == 12
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross3(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Det3(a, b, c) == Dot3(a, Cross3(b, c))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
Canon(n, d) == LET g == Gcd(Gcd(Gcd(Abs(n[1]), Abs(n[2])), Abs(n[3])), Abs(d)) IN <<<<n[1] \div g, n[2] \div g, n[3] \div g>>, d \div g>>
Unit(n) == LET g == Gcd(Gcd(Abs(n[1]), Abs(n[2])), Abs(n[3])) IN <<n[1] \div g, n[2] \div g, n[3] \div g>>
(* the side of the plane through a, b, c that is kept: its normal (b-a) x (c-b) points outwards *)
Plane(a, b, c) == LET n == Unit(Cross3(Sub3(b, a), Sub3(c, b))) IN <<n, Dot3(n, a)>>
Opposite(h) == <<Neg3(h[1]), -h[2]>>
On(h, X) == Dot3(h[1], X) = h[2]
Inside(h, X) == Dot3(h[1], X) <= h[2]
InSolid(H, X) == \A h \in H : Inside(h, X)
(* the point where three planes meet; none if they do not meet in one point *)
Meet(f, g, h) == LET D == Det3(f[1], g[1], h[1]) IN IF D = 0 THEN {} ELSE
    LET s == Add3(Add3(Scale3(f[2], Cross3(g[1], h[1])), Scale3(g[2], Cross3(h[1], f[1]))), Scale3(h[2], Cross3(f[1], g[1])))
    IN IF \A i \in 1..3 : (s[i] % Abs(D)) = 0 THEN {<<(IF D > 0 THEN s[1] ELSE -s[1]) \div Abs(D), (IF D > 0 THEN s[2] ELSE -s[2]) \div Abs(D), (IF D > 0 THEN s[3] ELSE -s[3]) \div Abs(D)>>} ELSE {<<"off", "the", "grid">>}
None == [H |-> {}, V |-> {}]
FaceOf(V, h) == {X \in V : On(h, X)}
Bounding(H, V) == {h \in H : Cardinality(FaceOf(V, h)) > 2}
Solid(H, V) == [H |-> Bounding(H, V), V |-> V]
Box(lo, hi) == LET e == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>> IN
    Solid({<<e[i], hi[i]>> : i \in 1..3} \cup {<<Neg3(e[i]), -lo[i]>> : i \in 1..3}, {<<x, y, w>> : x \in {lo[1], hi[1]}, y \in {lo[2], hi[2]}, w \in {lo[3], hi[3]}})
(* what is left of a solid on the inner side of a plane.  Nothing, when none of its corners lies strictly inside.         *)
CutOne(P, h) == IF P = None \/ \A X \in P.V : Dot3(h[1], X) >= h[2] THEN None
    ELSE IF \A X \in P.V : Inside(h, X) THEN P
    ELSE Solid(P.H \cup {h}, {X \in P.V : Inside(h, X)} \cup {X \in UNION {Meet(h, f, g) : f, g \in P.H} : InSolid(P.H, X)})
CutAll(P, s) == LET RECURSIVE Go(_, _) Go(Q, k) == IF k > Len(s) THEN Q ELSE Go(CutOne(Q, s[k]), k + 1) IN Go(P, 1)
Common(P, Q) == IF Q = None THEN None ELSE LET s == SetToSeq(Q.H) IN CutAll(P, s)
(* the same by definition: every meeting point of three planes that is on the inner side of all *)
Corners(H) == {X \in UNION {Meet(f, g, h) : f, g, h \in H} : InSolid(H, X)}
(* and the same by walking along edges, as an implementation would *)
Adjacent(P, X, Y) == X # Y /\ Cardinality({h \in P.H : On(h, X) /\ On(h, Y)}) > 1
Crossing(h, X, Y) == LET a == h[2] - Dot3(h[1], X)  b == Dot3(h[1], Y) - h[2] IN [i \in 1..3 |-> (X[i] * b + Y[i] * a) \div (a + b)]   \* a, b > 0
ByEdges(P, h) == LET V == {X \in P.V : Inside(h, X)} \cup {Crossing(h, p[1], p[2]) : p \in {p \in P.V \X P.V : Adjacent(P, p[1], p[2]) /\ Dot3(h[1], p[1]) < h[2] /\ Dot3(h[1], p[2]) > h[2]}}
    IN Solid(P.H \cup {h}, V)
(* the convex hull of points *)
Hull(S) == LET pl == {Plane(t[1], t[2], t[3]) : t \in {t \in S \X S \X S : Cross3(Sub3(t[2], t[1]), Sub3(t[3], t[2])) # Z3}}
               H == {h \in pl : (\A X \in S : Inside(h, X)) /\ \E X \in S : ~On(h, X)}
           IN [H |-> H, V |-> {X \in S : Cardinality({h \in H : On(h, X)}) > 2}]
(* the surface as triangles: a corner of each face with each of its edges, oriented with the face *)
Triangles(P) == UNION {LET f == FaceOf(P.V, h)  p == CHOOSE X \in f : TRUE IN
      {<<p, e[1], e[2]>> : e \in {e \in f \X f : Adjacent(P, e[1], e[2]) /\ Dot3(h[1], Cross3(Sub3(e[1], p), Sub3(e[2], p))) > 0}} : h \in P.H}
SumOver(S, F(_)) == FoldSet(LAMBDA x, acc : acc + F(x), 0, S)
Volume6(P) == LET F(t) == Det3(t[1], t[2], t[3]) IN SumOver(Triangles(P), F)                           \* six times, in units 1/U^3
Moment(P) == LET T == Triangles(P) IN [i \in 1..3 |-> LET F(t) == Det3(t[1], t[2], t[3]) * (t[1][i] + t[2][i] + t[3][i]) IN SumOver(T, F)]   \* volume6 times four times the centroid
(* motions of a solid *)
Image(P, W, v) == LET J == InvM(W) IN [H |-> {LET n == VM(h[1], J) IN <<n, h[2] + Dot3(n, v)>> : h \in P.H}, V |-> {Add3(MV(W, X), v) : X \in P.V}]
Good(P) == P = None \/
    /\ \A h \in P.H : h[1] = Unit(h[1])
    /\ \A X \in P.V : InSolid(P.H, X) /\ Cardinality({h \in P.H : On(h, X)}) > 2
    /\ Cardinality(P.V) + Cardinality(P.H) - Cardinality({p \in P.V \X P.V : Adjacent(P, p[1], p[2])}) \div 2 = 2
    /\ Volume6(P) > 0
=============================================================================
