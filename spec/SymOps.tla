------------------------------- MODULE SymOps ------------------------------
(* Lists of point operations (pt) and of motions (sp) under editing, and what is asked of them.       *)
EXTENDS Seitz
VARIABLES pt, sp
MInit == pt = <<>> /\ sp = <<>>
Set(s) == {s[k] : k \in 1..Len(s)}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Resized(s, n, fill) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE fill]
Bag(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
Reordered(s, t) == Len(s) = Len(t) /\ \A x \in Set(s) \cup Set(t) : Bag(s, x) = Bag(t, x)
Key(mode, A) == IF mode \in {-2, 2} THEN Iso(A) ELSE Fold(A)
Sorted(s, mode) == \A k \in 1..(Len(s) - 1) : IF mode < 0 THEN Key(mode, s[k]) >= Key(mode, s[k + 1]) ELSE Key(mode, s[k]) <= Key(mode, s[k + 1])
IsPermIdx(p, n) == Len(p) = n /\ Set(p) = 0..(n - 1)
First(n, P(_)) == LET S == {k \in 1..n : P(k)} IN IF S = {} THEN n ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1
Distinct(s) == Cardinality(Set(s)) = Len(s)
NormSet(s) == {Norm(s[k]) : k \in 1..Len(s)}
(* a list without superfluous members that generates G *)
GeneratesM(s, G) == ClosureM(Set(s)) = G /\ \A k \in 1..Len(s) : ClosureM(Set(Without(s, k))) # G
Generates(s, G) == Closure(Set(s)) = G /\ \A k \in 1..Len(s) : Closure(Set(Without(s, k))) # G
(* the axis reported for an operation: zero for the identity and the inversion, else the primitive       *)
(* vector (either sense) which the proper part leaves alone                                              *)
AxisOK(A, v) == IF Fold(A) = 1 THEN v = Z3 ELSE v # Z3 /\ Gcd3(v) = 1 /\ MV(Proper(A), v) = v
HasTrans(S, v) == Trans(v) \in S
CentringOf(S) == LET a == HasTrans(S, <<0, 12, 12>>)  b == HasTrans(S, <<12, 0, 12>>)  c == HasTrans(S, <<12, 12, 0>>) IN
    IF a /\ b /\ c THEN "F" ELSE IF a THEN "A" ELSE IF b THEN "B" ELSE IF c THEN "C" ELSE IF HasTrans(S, <<12, 12, 12>>) THEN "I"
    ELSE IF HasTrans(S, <<16, 8, 8>>) /\ HasTrans(S, <<8, 16, 16>>) THEN "R" ELSE "P"
=============================================================================
