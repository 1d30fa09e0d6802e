---------------------------- MODULE SpaceGroups ----------------------------
(* The table of space-group settings, what its entries imply and how they are found by name. *)
EXTENDS Hall, CrystalClass, SpaceGroupTable, TLC
Count == 530
OpsOf(i) == ClosureTo(Decode(Table[i].chars).gens, 192)
Rotations(G) == {g[1] : g \in G}
FirstWith(P(_), none) == LET S == {i \in 1..Count : P(i)} IN IF S = {} THEN none ELSE CHOOSE i \in S : \A j \in S : i <= j
ChoiceFits(i, choice) == choice = "" \/ choice = Table[i].choice
ByHall(text) == FirstWith(LAMBDA i : Table[i].hall = text, 0)
ByName(text, choice) == FirstWith(LAMBDA i : ChoiceFits(i, choice) /\ text \in {Table[i].international, Table[i].full, Table[i].short}, 0)
(* a choice of setting only goes with a name, not with a Hall symbol *)
ByText(text, choice) == LET h == ByHall(text)  n == ByName(text, choice) IN IF choice # "" THEN (IF n # 0 THEN n ELSE h) ELSE IF h # 0 THEN h ELSE n
ByNumber(n, choice) == FirstWith(LAMBDA i : Table[i].number = n /\ ChoiceFits(i, choice), -1)
(* ---- what is the same in every description of a space group: of each kind, how many of its operations (up to lattice   *)
(* translations) leave points fixed.  An operation does when, for some lattice translation l, the sum of W^k (w + l) over  *)
(* the powers of W vanishes.                                                                                               *)
RECURSIVE SumPow(_, _, _)
SumPow(A, X, n) == IF n = 0 THEN Z9 ELSE LET R == SumPow(A, Mul(A, X), n - 1) IN [k \in 1..9 |-> X[k] + R[k]]
RankSum(A) == SumPow(A, I3, OrderOf(<<A, Z3>>, 10))
Lattice(L) == {Add3(Scale3(N, <<a, b, c>>), t) : a \in -2..2, b \in -2..2, c \in -2..2, t \in Centre(L)}
Fixes(m, L) == LET S == RankSum(m[1])  v == MV(S, m[2]) IN \E t \in L : MV(S, t) = Neg3(v)
CosetReps(G) == {CHOOSE g \in G : g[1] = A : A \in Rotations(G)}
Signature(i) == LET G == OpsOf(i)  L == Lattice(Table[i].centring)  R == CosetReps(G) IN
    [k \in 1..10 |-> Cardinality({g \in R : Iso(g[1]) = Kinds[k] /\ (g[1] = I3 \/ Fixes(g, L))})]
(* ---- the entries' own consistency *)
ClassStart(k) == IF k = 1 THEN 1 ELSE UpTo[k - 1] + 1
Consistent(i) == LET e == Table[i]  d == Decode(e.chars)  G == OpsOf(i)  k == ClassOfNumber(e.number) IN
    /\ d.ok /\ ~d.vague /\ d.L = e.centring /\ (e.first = e.centring \/ (e.choice = "R" /\ e.first = "R" /\ e.centring = "P"))   \* rhombohedral axes are primitive
    /\ ClassNo(Rotations(G)) = k /\ e.class = k
    /\ Cardinality(G) = Cardinality(Rotations(G)) * Cardinality(Centre(e.centring))
    /\ e.schoenflies = Classes[k].schoenflies \o "^" \o ToString(e.number - ClassStart(k) + 1)
    /\ (i > 1 => e.number \in {Table[i - 1].number, Table[i - 1].number + 1}) /\ (i = 1 => e.number = 1)
    /\ Signature(i) = Signature(ByNumber(e.number, ""))
=============================================================================
