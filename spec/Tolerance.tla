----------------------------- MODULE Tolerance -----------------------------
(* Numbers are A/2^m and B/2^m; the tolerance is absolute and relative 2^-k: everything in integers.   *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Equal(A, B, m, k) == Abs(A - B) * Pow2(k) <= Pow2(m) + Abs(A + B)
Ops == <<"lt", "gt", "le", "ge", "eq", "nle", "nge", "neq">>
(* one comparison operator, given whether the two are equal and their order *)
Cmp(op, eq, A, B) ==
    CASE op = "lt" -> ~eq /\ A < B [] op = "gt" -> ~eq /\ A > B
      [] op = "le" -> eq \/ A < B  [] op = "ge" -> eq \/ A > B
      [] op = "eq" -> eq           [] op = "neq" -> ~eq
      [] op = "nle" -> ~(eq \/ A < B) [] op = "nge" -> ~(eq \/ A > B)
(* the operators written as a negation hold for lists when they hold somewhere, the others everywhere  *)
CmpList(op, eqs, a, b) == IF op \in {"nle", "nge", "neq"} THEN \E i \in 1..Len(a) : Cmp(op, eqs[i], a[i], b[i])
                          ELSE \A i \in 1..Len(a) : Cmp(op, eqs[i], a[i], b[i])
Negated(op) == CASE op = "le" -> "nle" [] op = "ge" -> "nge" [] op = "eq" -> "neq" [] OTHER -> "none"
(* the default tolerance: 5e-15 absolute and 10^4 (times the given factor) machine epsilons of the type *)
DefaultFloat(A, B, f) == Abs(A - B) * 524288 <= f * 625 * Abs(A + B)       \* 2^-23 * 10^4 = 625 / 2^19
DefaultDoubleRel(d, f) == 2 * Abs(d) <= f * 625                            \* 2^46 + d against 2^46
DefaultDoubleAbs(d) == Abs(d) <= 5764                                      \* d * 2^-60 against 0
=============================================================================
