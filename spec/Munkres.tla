------------------------------ MODULE Munkres ------------------------------
(* The assignment problem, solved as the implementation does it: Munkres' algorithm over a reduced     *)
(* cost matrix with starred and primed zeros.  The cost matrix is chosen nondeterministically.  On     *)
(* termination the stars must be a permutation of least total cost.                                    *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS N,        \* dimension
          MaxCost   \* entries range over 0..MaxCost

Ix == 1..N
VARIABLES orig, cost, star, prime, rowc, colc, z0, pc
vars == <<orig, cost, star, prime, rowc, colc, z0, pc>>

SetMin(S) == CHOOSE m \in S : \A x \in S : m <= x
Perms == {p \in [Ix -> Ix] : \A i, j \in Ix : i # j => p[i] # p[j]}
RECURSIVE SumTo(_, _, _)
SumTo(m, p, k) == IF k = 0 THEN 0 ELSE m[k][p[k]] + SumTo(m, p, k - 1)
Total(m, p) == SumTo(m, p, N)
AllZero(m) == \A i, j \in Ix : m[i][j] = 0

Init == /\ orig \in [Ix -> [Ix -> 0..MaxCost]]
        /\ cost = orig
        /\ star = {} /\ prime = {} /\ rowc = {} /\ colc = {} /\ z0 = <<0, 0>>
        /\ pc = IF AllZero(orig) THEN "declined" ELSE "reduce"

(* subtract every row's least element *)
ReduceRows ==
    /\ pc = "reduce"
    /\ cost' = [i \in Ix |-> LET m == SetMin({cost[i][j] : j \in Ix}) IN [j \in Ix |-> cost[i][j] - m]]
    /\ pc' = "star"
    /\ UNCHANGED <<orig, star, prime, rowc, colc, z0>>

(* star a maximal set of independent zeros, scanning in row order *)
RECURSIVE Greedy(_, _)
Greedy(k, S) ==
    IF k = N * N THEN S
    ELSE LET i == k \div N + 1  j == (k % N) + 1
         IN Greedy(k + 1, IF cost[i][j] = 0 /\ (\A s \in S : s[1] # i /\ s[2] # j)
                          THEN S \cup {<<i, j>>} ELSE S)
StarZeros ==
    /\ pc = "star"
    /\ star' = Greedy(0, {})
    /\ pc' = "cover"
    /\ UNCHANGED <<orig, cost, prime, rowc, colc, z0>>

CoverColumns ==
    /\ pc = "cover"
    /\ colc' = {s[2] : s \in star}
    /\ pc' = IF Cardinality(colc') = N THEN "done" ELSE "prime"
    /\ UNCHANGED <<orig, cost, star, prime, rowc, z0>>

Uncovered == {x \in Ix \X Ix : cost[x[1]][x[2]] = 0 /\ x[1] \notin rowc /\ x[2] \notin colc}
(* prime some uncovered zero; the implementation takes the first one in row order, any will do *)
PrimeZero ==
    /\ pc = "prime"
    /\ IF Uncovered = {}
       THEN pc' = "adjust" /\ UNCHANGED <<prime, rowc, colc, z0>>
       ELSE \E x \in Uncovered :
              /\ prime' = prime \cup {x}
              /\ LET S == {s \in star : s[1] = x[1]} IN
                 IF S = {}
                 THEN z0' = x /\ pc' = "augment" /\ UNCHANGED <<rowc, colc>>
                 ELSE LET s == CHOOSE s \in S : TRUE
                      IN /\ rowc' = rowc \cup {x[1]}
                         /\ colc' = colc \ {s[2]}
                         /\ UNCHANGED <<z0, pc>>
    /\ UNCHANGED <<orig, cost, star>>

(* the alternating path of primes and stars that starts at z0 *)
RECURSIVE Path(_)
Path(x) == LET S == {s \in star : s[2] = x[2]}
           IN IF S = {} THEN <<x>>
              ELSE LET s == CHOOSE s \in S : TRUE
                       p == CHOOSE p \in prime : p[1] = s[1]
                   IN <<x, s>> \o Path(p)
Augment ==
    /\ pc = "augment"
    /\ LET P == {Path(z0)[k] : k \in 1..Len(Path(z0))}
       IN star' = (star \ P) \cup (P \ star)
    /\ prime' = {} /\ rowc' = {} /\ colc' = {}
    /\ pc' = "cover"
    /\ UNCHANGED <<orig, cost, z0>>

Adjust ==
    /\ pc = "adjust"
    /\ LET m == SetMin({cost[x[1]][x[2]] : x \in {y \in Ix \X Ix : y[1] \notin rowc /\ y[2] \notin colc}})
       IN cost' = [i \in Ix |-> [j \in Ix |-> cost[i][j] + (IF i \in rowc THEN m ELSE 0)
                                                         - (IF j \notin colc THEN m ELSE 0)]]
    /\ pc' = "prime"
    /\ UNCHANGED <<orig, star, prime, rowc, colc, z0>>

Next == ReduceRows \/ StarZeros \/ CoverColumns \/ PrimeZero \/ Augment \/ Adjust
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
StarsIndependent == \A s, t \in star : s # t => s[1] # t[1] /\ s[2] # t[2]
ReducedNonNegative == pc # "reduce" => \A i, j \in Ix : cost[i][j] >= 0
StarsAreZeros == \A s \in star : cost[s[1]][s[2]] = 0
Assigned == [i \in Ix |-> (CHOOSE s \in star : s[1] = i)[2]]
DoneIsOptimal == pc = "done" => /\ Cardinality(star) = N
                                /\ \A p \in Perms : Total(orig, Assigned) <= Total(orig, p)
Terminates == <>(pc \in {"done", "declined"})
=============================================================================
