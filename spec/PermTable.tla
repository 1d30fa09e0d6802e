----------------------------- MODULE PermTable -----------------------------
(* The pairwise permutation table: a partial map from ordered pairs of distinct points to permutations *)
(* of the modes.  A pair is absent, reserved (present without a value) or has a value.  The stored     *)
(* permutations are shared between pairs through indices that callers may keep and use again.          *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Sizes, Branches      \* the sizes and permutation lengths tried by the exhaustive model

Reserved == <<>>               \* present without a value (no permutation is empty)
Id(b) == [k \in 1..b |-> k - 1]
PermsOf(b) == {p \in [1..b -> 0..(b-1)] : \A i, j \in 1..b : i # j => p[i] # p[j]}
Pairs(n) == {x \in (0..(n-1)) \X (0..(n-1)) : x[1] # x[2]}

VARIABLES size, br, tab,       \* tab: function on the set of known pairs
          handle,              \* indices handed out so far -> permutation they denote
          reply
vars == <<size, br, tab, handle, reply>>
NoReply == <<"none">>

Init == /\ size \in Sizes /\ br \in Branches
        /\ tab = <<>> /\ handle = [x \in {0} |-> Id(br)] /\ reply = NoReply

Known == DOMAIN tab
HasValue(p) == p \in Known /\ tab[p] # Reserved
Needed(p) == p \in Known /\ tab[p] = Reserved
Get(p) == IF HasValue(p) THEN tab[p] ELSE Id(br)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* an index returned for permutation v: one already known for v, or a new one that denotes nothing else *)
HandleFor(idx, v) == IF idx \in DOMAIN handle THEN handle[idx] = v /\ UNCHANGED handle
                     ELSE (\A k \in DOMAIN handle : handle[k] # v) /\ handle' = Put(handle, idx, v)

New(n, b, ks) == /\ size' = n /\ br' = b
                 /\ tab' = [p \in ks |-> Reserved]
                 /\ handle' = [x \in {0} |-> Id(b)]
                 /\ reply' = NoReply
Set(p, v, idx) ==
    /\ IF p \in Known THEN UNCHANGED <<tab, handle>>
       ELSE tab' = Put(tab, p, v) /\ HandleFor(idx, v)
    /\ reply' = <<"idx", idx>>
    /\ UNCHANGED <<size, br>>
(* replacing by value; an error if the pair is unknown *)
Replace(p, v, idx) ==
    /\ IF p \in Known THEN tab' = [tab EXCEPT ![p] = v] /\ HandleFor(idx, v) /\ reply' = <<"idx", idx>>
       ELSE UNCHANGED <<tab, handle>> /\ reply' = <<"error">>
    /\ UNCHANGED <<size, br>>
ReplaceByIndex(p, idx) ==
    /\ idx \in DOMAIN handle
    /\ IF p \in Known THEN tab' = [tab EXCEPT ![p] = handle[idx]] /\ reply' = <<"idx", idx>>
       ELSE UNCHANGED tab /\ reply' = <<"error">>
    /\ UNCHANGED <<size, br, handle>>
Reserve(ks) ==
    /\ tab' = [p \in Known \cup ks |-> IF p \in Known THEN tab[p] ELSE Reserved]
    /\ reply' = NoReply /\ UNCHANGED <<size, br, handle>>
(* a changed size forgets every pair; a changed length forgets every value and every index *)
Refresh(n, b) ==
    /\ size' = n /\ br' = b
    /\ tab' = LET kept == IF n # size THEN <<>> ELSE tab
              IN [p \in DOMAIN kept |-> IF b # br THEN Reserved ELSE kept[p]]
    /\ handle' = IF b # br THEN [x \in {0} |-> Id(b)] ELSE handle
    /\ reply' = <<"bool", n # size>>

Fresh == CHOOSE k \in 0..Cardinality(DOMAIN handle) : k \notin DOMAIN handle
IdxFor(v) == IF \E k \in DOMAIN handle : handle[k] = v THEN CHOOSE k \in DOMAIN handle : handle[k] = v ELSE Fresh
DoNew == \E n \in Sizes, b \in Branches, p \in Pairs(2) : New(n, b, {p})
DoSet == \E p \in Pairs(size), v \in PermsOf(br) : Set(p, v, IdxFor(v))
DoReplace == \E p \in Pairs(size), v \in PermsOf(br) : Replace(p, v, IdxFor(v))
DoReplaceIndex == \E p \in Pairs(size), k \in DOMAIN handle : ReplaceByIndex(p, k)
DoReserve == \E p \in Pairs(size) : Reserve({p})
DoRefresh == \E n \in Sizes, b \in Branches : Refresh(n, b)
Next == DoNew \/ DoSet \/ DoReplace \/ DoReplaceIndex \/ DoReserve \/ DoRefresh
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
ValuesArePermutations == \A p \in Known : tab[p] = Reserved \/ tab[p] \in PermsOf(br)
KnownInRange == Known \subseteq Pairs(size)
HandlesDistinct == \A j, k \in DOMAIN handle : handle[j] = handle[k] => j = k
IdentityFirst == handle[0] = Id(br)
SetNeverOverwrites == [][ DoSet => \A p \in Known : tab'[p] = tab[p] ]_vars
ReplaceOnlyOne == [][ (DoReplace \/ DoReplaceIndex) /\ size' = size /\ br' = br =>
                        Cardinality({p \in Known : p \in DOMAIN tab' /\ tab'[p] # tab[p]}) <= 1 ]_vars
MapView == <<size, br, tab, handle>>
=============================================================================
