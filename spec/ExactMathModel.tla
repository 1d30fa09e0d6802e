--------------------------- MODULE ExactMathModel --------------------------
(* The definitions satisfy the laws that tie them together, for every pair of small matrices.          *)
EXTENDS ExactMath
CONSTANTS Lo, Hi    \* entries range over -Lo..Hi without 1
VARIABLES A, B, n
Entries == (-Lo..Hi) \ {1}
Mats(k) == [1..(k * k) -> Entries]
Init == n \in 1..2 /\ A \in Mats(n) /\ B \in Mats(n)
(* grow to three dimensions by bordering: covers 3x3 matrices of a product form *)
Next == /\ n = 2 /\ n' = 3
        /\ A' = Mul(<<1, 0, A[1], 0, 1, A[2], A[3], 0, 1>>, <<1, A[4], 0, B[1], 1, 0, 0, B[2], 1>>, 3, 3, 3)
        /\ B' = Mul(<<1, B[3], 0, A[1], 1, B[4], 0, 0, 1>>, <<1, 0, 0, A[2], B[1], 0, A[3], 0, 1>>, 3, 3, 3)
Spec == Init /\ [][Next]_<<A, B, n>>
M(X, Y) == Mul(X, Y, n, n, n)
Laws == /\ Det(M(A, B), n) = Det(A, n) * Det(B, n)
        /\ M(A, Adj(A, n)) = Scale(Identity(n), Det(A, n))
        /\ M(Adj(A, n), A) = Scale(Identity(n), Det(A, n))
        /\ Det(Transpose(A, n, n), n) = Det(A, n)
        /\ Transpose(M(A, B), n, n) = M(Transpose(B, n, n), Transpose(A, n, n))
        /\ Trace3(M(A, B), n) = Trace3(M(B, A), n)
        /\ n = 3 => LET a == SubSeq(A, 1, 3) b == SubSeq(A, 4, 6) c == SubSeq(A, 7, 9) IN
                    /\ Dot(a, Cross(b, c)) = Det(A, 3)
                    /\ Dot(Cross(a, b), a) = 0 /\ Dot(Cross(a, b), b) = 0
=============================================================================
