--------------------------- MODULE ToleranceModel ---------------------------
(* The rule makes the eight operators consistent, for every pair of numbers and tolerance in range.    *)
EXTENDS Tolerance
CONSTANTS Max, MaxM, MaxK
VARIABLES A, B, C, m, k
Init == A = 0 /\ B = 0 /\ C = 0 /\ m \in 0..MaxM /\ k \in 0..MaxK
Next == /\ A' \in {A - 1, A, A + 1} /\ B' \in {B - 1, B, B + 1} /\ C' \in {0, 1, -1, A} /\ UNCHANGED <<m, k>>
        /\ Abs(A') <= Max /\ Abs(B') <= Max
Spec == Init /\ [][Next]_<<A, B, C, m, k>>
eq(x, y) == Equal(x, y, m, k)
OneRule == LET e == eq(A, B) c(op) == Cmp(op, e, A, B) IN
           /\ e = eq(B, A) /\ (A = B => e) /\ eq(-A, -B) = e
           /\ Cardinality({op \in {"lt", "eq", "gt"} : c(op)}) = 1
           /\ c("le") = ~c("gt") /\ c("ge") = ~c("lt") /\ c("nle") = c("gt") /\ c("nge") = c("lt")
           /\ (c("le") /\ c("ge")) = c("eq")
           \* swapping the arguments mirrors the order
           /\ Cmp("lt", eq(B, A), B, A) = c("gt") /\ Cmp("le", eq(B, A), B, A) = c("ge")
           \* a smaller tolerance never equates more
           /\ k > 0 => (e => Equal(A, B, m, k - 1))
Lists == LET a == <<A, B>> b == <<B, C>> es == <<eq(A, B), eq(B, C)>> IN
         \A op \in {"le", "ge", "eq"} : CmpList(op, es, a, b) = ~CmpList(Negated(op), es, a, b)
=============================================================================
