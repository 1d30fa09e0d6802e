------------------------------- MODULE Modes -------------------------------
(* Modes held at the points of a graph. A mode is a sequence of Gaussian integers: some scalars, then 3-vectors, then 3x3 matrices. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumOf(s) == SumTo(s, Len(s))
RanOf(s) == {s[k] : k \in 1..Len(s)}
SignOf(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
(* the square root in thousandths *)
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m)
Milli(n) == Root(1000000 * n, 0, 46341)
(* Gaussian integers *)
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
Square(a) == a[1] * a[1] + a[2] * a[2]
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Inner(a, b) == LET t == [k \in 1..Len(a) |-> Mul(Conj(a[k]), b[k])] IN <<SumOf([k \in 1..Len(a) |-> t[k][1]]), SumOf([k \in 1..Len(a) |-> t[k][2]])>>
(* the phase that makes the product of two complex modes real and positive; here always a power of i *)
Aligning(cplx, a, b) == IF cplx = 0 THEN <<1, 0>> ELSE LET d == Inner(a, b) IN
    IF d = <<0, 0>> THEN <<1, 0>> ELSE IF d[2] = 0 THEN <<SignOf(d[1]), 0>> ELSE IF d[1] = 0 THEN <<0, -SignOf(d[2])>> ELSE <<7, 7>>
Turned(f, b) == [k \in 1..Len(b) |-> Mul(f, b[k])]
(* costs, in thousandths *)
Apart(a, b) == Milli(SumOf([k \in 1..Len(a) |-> Square(Minus(a[k], b[k]))]))
Scalars(a, b) == SumOf([k \in 1..Len(a) |-> Milli(Square(Minus(a[k], b[k])))])
Norm2(a) == SumOf([k \in 1..Len(a) |-> Square(a[k])])
(* angles between axes and diagonals, from the sign and the square of the cosine *)
AngleOf(s, c2, n2) == LET sharp == CASE c2 = n2 -> 0 [] c2 = 0 -> 1571 [] 2 * c2 = n2 -> 785 [] 4 * c2 = n2 -> 1047 [] 4 * c2 = 3 * n2 -> 524 IN IF s < 0 THEN 3142 - sharp ELSE sharp
VectorCost(f, cplx, a, b) == LET d == Inner(a, b)  A == Norm2(a)  B == Norm2(b)  h2 == Square(d) IN
    CASE f = 1 -> Apart(a, b)
      [] f = 2 -> 1000 * (1 - IF cplx = 0 THEN d[1] ELSE h2)
      [] f = 3 -> IF A * B = 0 THEN (IF A + B = 0 THEN 0 ELSE 1571) ELSE AngleOf(d[1], d[1] * d[1], A * B)
      [] f = 4 -> IF A * B = 0 THEN (IF A + B = 0 THEN 0 ELSE 1571) ELSE AngleOf(IF cplx = 0 THEN d[1] ELSE 1, h2, A * B)
      [] OTHER -> IF A * B = 0 THEN (IF A + B = 0 THEN 0 ELSE 1000) ELSE 1000 - (1000 * h2) \div (A * B)
(* I: what one kind of data is: cplx, e, f, w *)
KindCost(I, a, b) == LET s == I.e[1]  v == 3 * I.e[2]  m == I.e[3] IN
    I.w[1] * (IF s > 0 THEN Scalars(SubSeq(a, 1, s), SubSeq(b, 1, s)) ELSE 0)
  + I.w[2] * (IF v > 0 THEN VectorCost(I.f, I.cplx, SubSeq(a, s + 1, s + v), SubSeq(b, s + 1, s + v)) ELSE 0)
  + I.w[3] * (LET at(k) == s + v + 9 * k IN SumOf([k \in 1..m |-> Apart(SubSeq(a, at(k) - 8, at(k)), SubSeq(b, at(k) - 8, at(k)))]))
Phased(I, a, b) == Turned(Aligning(I.cplx, a, b), b)
(* D: values and vectors, each with what it is and data[point][mode] *)
ModeCost(D, p, q, i, j) ==
    KindCost(D.val, D.val.data[p + 1][i], D.val.data[q + 1][j])
  + KindCost(D.vec, D.vec.data[p + 1][i], Phased(D.vec, D.vec.data[p + 1][i], D.vec.data[q + 1][j]))
Modes(D) == Len(D.val.data[1])
Table(D, p, q) == [i \in 1..Modes(D) |-> [j \in 1..Modes(D) |-> ModeCost(D, p, q, i, j)]]
TotalCost(t, P) == SumOf([i \in 1..Len(P) |-> t[i][P[i] + 1]])
IdentityOf(n) == [k \in 1..n |-> k - 1]
AllPerms(n) == {P \in [1..n -> 0..(n - 1)] : Cardinality(RanOf(P)) = n}
Undone(P) == [k \in 1..Len(P) |-> (CHOOSE j \in 1..Len(P) : P[j] = k - 1) - 1]
IsPerm(P, n) == Len(P) = n /\ RanOf(P) = 0..(n - 1)
LeastOf(t, n) == LET c == {TotalCost(t, P) : P \in AllPerms(n)} IN CHOOSE x \in c : \A y \in c : x <= y
MagnitudeOf(t) == SumOf([i \in 1..Len(t) |-> SumOf([j \in 1..Len(t) |-> IF t[i][j] < 0 THEN -t[i][j] ELSE t[i][j]])])
(* the cost is known to thousandths, and equal costs are told apart to a part in 10^4 of them all only *)
Best(D, p, q, P) == LET t == Table(D, p, q) IN TotalCost(t, P) <= LeastOf(t, Len(P)) + 40 + MagnitudeOf(t) \div 4000
(* iw: points and weights; perm(p, q): what matches the modes of p and q *)
Mixed(K, iw, perm(_, _), phased) == LET n == Len(K.data[1])  Y == Len(K.data[1][1]) IN
    [b \in 1..n |-> LET a == K.data[iw[1][1] + 1][b]
                        term(x) == LET m == K.data[iw[x][1] + 1][perm(iw[1][1], iw[x][1])[b] + 1] IN Turned(<<iw[x][2], 0>>, IF phased THEN Phased(K, a, m) ELSE m) IN
        [y \in 1..Y |-> LET t == [x \in 1..Len(iw) |-> term(x)[y]] IN <<SumOf([x \in 1..Len(iw) |-> t[x][1]]), SumOf([x \in 1..Len(iw) |-> t[x][2]])>>]]
Nothing(n, B) == [p \in 1..n |-> [b \in 1..B |-> <<<<0, 0>>>>]]
PairsIn(c) == {<<c[i], c[j]>> : i, j \in 1..Len(c)} \ {<<c[i], c[i]>> : i \in 1..Len(c)}
=============================================================================
