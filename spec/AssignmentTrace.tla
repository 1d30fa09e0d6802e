-------------------------- MODULE AssignmentTrace --------------------------
(* Each event is one call of one of the implementation's solvers on an integer cost matrix.  The       *)
(* answer is accepted only if it is a state the specifications can terminate in: for the optimal       *)
(* solvers a permutation whose cost meets a lower bound given by feasible dual prices carried with the *)
(* event (the prices are untrusted: their feasibility is evaluated here), and for small dimensions     *)
(* additionally by comparison with every permutation; for stable matching, no blocking pair.           *)
EXTENDS Integers, FiniteSets, Sequences, TLC, TraceBase

VARIABLE calls
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 0..(n-1)
CostOf(c, p, n) == Sum([i \in 1..n |-> c[i][p[i] + 1]])
Feasible(c, u, v, n) == \A i, j \in 1..n : u[i] + v[j] <= c[i][j]
Optimal(c, p, u, v, n) == Feasible(c, u, v, n) /\ CostOf(c, p, n) = Sum(u) + Sum(v)
Perms(n) == {p \in [1..n -> 0..(n-1)] : Cardinality({p[i] : i \in 1..n}) = n}
BestOfAll(c, p, n) == IF n > 4 THEN TRUE ELSE \A q \in Perms(n) : CostOf(c, p, n) <= CostOf(c, q, n)
Inverse(p, q, n) == \A i \in 1..n : q[p[i] + 1] = i - 1

NoBlockingPair(c, r, q, n) ==
    \A i, j \in 1..n : ~(c[i][j] < c[i][r[i] + 1] /\ c[i][j] < c[q[j] + 1][j])

Init == TraceBaseInit /\ calls = 0
Next ==
    \/ IsEvent("Reset") /\ calls' = 0
    \/ /\ IsEvent("Optimal")
       /\ LET n == Ev.n IN
          \/ /\ Ev.ok
             /\ IsPerm(Ev.row, n)
             /\ Optimal(Ev.cost, Ev.row, Ev.u, Ev.v, n)
             /\ BestOfAll(Ev.cost, Ev.row, n)
             /\ (Has("col") => IsPerm(Ev.col, n) /\ Inverse(Ev.row, Ev.col, n))
             /\ (Has("total") => Ev.total = CostOf(Ev.cost, Ev.row, n))
          \/ /\ ~Ev.ok                       \* only a matrix without any cost may be declined
             /\ \A i, j \in 1..n : Ev.cost[i][j] = 0
       /\ calls' = calls + 1
    \/ /\ IsEvent("Stable")
       /\ IsPerm(Ev.row, Ev.n) /\ IsPerm(Ev.col, Ev.n) /\ Inverse(Ev.row, Ev.col, Ev.n)
       /\ NoBlockingPair(Ev.cost, Ev.row, Ev.col, Ev.n)
       /\ calls' = calls + 1
    \* res[i] = obj[perm[i]], and the permutation is consumed (left as the identity)
    \/ /\ IsEvent("Apply")
       /\ \A i \in 1..Ev.n : Ev.res[i] = Ev.obj[Ev.perm[i] + 1] /\ Ev.left[i] = i - 1
       /\ calls' = calls + 1
    \/ /\ IsEvent("ApplyInverse")
       /\ \A i \in 1..Ev.n : Ev.res[Ev.perm[i] + 1] = Ev.obj[i] /\ Ev.left[i] = i - 1
       /\ calls' = calls + 1
Spec == Init /\ [][Next]_<<calls, l>>
=============================================================================
