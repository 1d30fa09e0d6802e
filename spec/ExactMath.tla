----------------------------- MODULE ExactMath -----------------------------
(* Integer vectors and square matrices (sequences, matrices flattened in row order), from definitions. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
Sum(s) == SumTo(s, Len(s))
At(A, m, i, j) == A[(i - 1) * m + j]                    \* element of an array with m columns
Mul(A, B, n, k, m) == [x \in 1..(n * m) |->
    LET i == ((x - 1) \div m) + 1  j == ((x - 1) % m) + 1
    IN Sum([p \in 1..k |-> At(A, k, i, p) * At(B, m, p, j)])]
Transpose(A, n, m) == [x \in 1..(n * m) |-> At(A, m, ((x - 1) % n) + 1, ((x - 1) \div n) + 1)]  \* (n,m) to (m,n)
Identity(n) == [x \in 1..(n * n) |-> IF (x - 1) \div n = (x - 1) % n THEN 1 ELSE 0]
Scale(A, c) == [x \in 1..Len(A) |-> c * A[x]]
Minor(A, n, r, c) == [x \in 1..((n - 1) * (n - 1)) |->
    LET i == ((x - 1) \div (n - 1)) + 1  j == ((x - 1) % (n - 1)) + 1
    IN At(A, n, IF i < r THEN i ELSE i + 1, IF j < c THEN j ELSE j + 1)]
Sign(k) == IF k % 2 = 0 THEN 1 ELSE -1
RECURSIVE Det(_, _)
Det(A, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN A[1]
             ELSE Sum([c \in 1..n |-> Sign(c + 1) * At(A, n, 1, c) * Det(Minor(A, n, 1, c), n - 1)])
Adj(A, n) == [x \in 1..(n * n) |->
    LET i == ((x - 1) \div n) + 1  j == ((x - 1) % n) + 1 IN Sign(i + j) * Det(Minor(A, n, j, i), n - 1)]
Trace3(A, n) == Sum([i \in 1..n |-> At(A, n, i, i)])
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Abs(x) == IF x < 0 THEN -x ELSE x
Divides(d, a) == a % d = 0
IsGcd(g, a, b) == IF a = 0 /\ b = 0 THEN g = 0
                  ELSE g > 0 /\ Divides(g, a) /\ Divides(g, b) /\
                       \A d \in 1..(IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a < b THEN a ELSE b) :
                           Divides(d, a) /\ Divides(d, b) => d <= g
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
(* nearest integer of p/q, halves away from zero *)
Round(p, q) == IF p >= 0 THEN (2 * p + q) \div (2 * q) ELSE -((2 * (-p) + q) \div (2 * q))
(* twice the cosine of 60k degrees and of 90k degrees: whole numbers *)
Cos60x2(k) == LET m == k % 6 IN IF m = 0 THEN 2 ELSE IF m \in {1, 5} THEN 1 ELSE IF m \in {2, 4} THEN -1 ELSE -2
Cos90(k) == LET m == k % 4 IN IF m = 0 THEN 1 ELSE IF m = 2 THEN -1 ELSE 0
=============================================================================
