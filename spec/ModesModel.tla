---------------------------- MODULE ModesModel ----------------------------
(* three points in a row, two modes of one scalar each *)
EXTENDS Modes
CONSTANTS Largest, Weight
VARIABLES D, tab, sorted
vars == <<D, tab, sorted>>
None == [data |-> <<>>, cplx |-> 0, e |-> <<1, 0, 0>>, f |-> 1, w |-> <<Weight, Weight, Weight>>]
Zeros == [None EXCEPT !.data = Nothing(3, 2)]
Joined == {<<0, 1>>, <<1, 2>>}
Values == [1..3 -> [1..2 -> 0..Largest]]
DataOf(v) == [p \in 1..3 |-> [b \in 1..2 |-> <<<<v[p][b], 0>>>>]]
Init == D = [val |-> Zeros, vec |-> Zeros] /\ tab = {} /\ sorted = FALSE
Fill == \E v \in Values : D' = [D EXCEPT !.val = [@ EXCEPT !.data = DataOf(v)]] /\ tab' = {} /\ sorted' = FALSE
(* any of the cheapest matchings may be chosen *)
Sort == /\ ~sorted /\ sorted' = TRUE /\ UNCHANGED D
        /\ \E A \in {P \in AllPerms(2) : TotalCost(Table(D, 0, 1), P) = LeastOf(Table(D, 0, 1), 2)} :
           \E C \in {P \in AllPerms(2) : TotalCost(Table(D, 1, 2), P) = LeastOf(Table(D, 1, 2), 2)} :
              tab' = {<<<<0, 1>>, A>>, <<<<1, 0>>, Undone(A)>>, <<<<1, 2>>, C>>, <<<<2, 1>>, Undone(C)>>}
Next == Fill \/ Sort
Spec == Init /\ [][Next]_vars
PermOf(p, q) == IF ~sorted \/ p = q \/ {p, q} = {0, 2} THEN IdentityOf(2) ELSE (CHOOSE x \in tab : x[1] = <<p, q>>)[2]
Permutations_ == \A p, q \in 0..2 : IsPerm(PermOf(p, q), 2) /\ PermOf(q, p) = Undone(PermOf(p, q))
Optimal == sorted => \A k \in Joined : Best(D, k[1], k[2], PermOf(k[1], k[2])) /\ Best(D, k[2], k[1], PermOf(k[2], k[1]))
(* mixing two points only rearranges: the sum over modes does not depend on the matching *)
AllOf(m) == SumOf([b \in 1..2 |-> m[b][1][1]])
Conserved == \A k \in Joined : LET m == Mixed(D.val, <<<<k[1], 3>>, <<k[2], 5>>>>, PermOf, FALSE) IN
    AllOf(m) = 3 * AllOf(D.val.data[k[1] + 1]) + 5 * AllOf(D.val.data[k[2] + 1])
(* both directions of a connection give the same modes, in some order *)
BothWays == \A k \in Joined : LET a == Mixed(D.val, <<<<k[1], 3>>, <<k[2], 5>>>>, PermOf, FALSE)
                                  b == Mixed(D.val, <<<<k[2], 5>>, <<k[1], 3>>>>, PermOf, FALSE) IN RanOf(a) = RanOf(b)
=============================================================================
