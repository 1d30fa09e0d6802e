---------------------------- MODULE StableMatch ----------------------------
(* Deferred acceptance on a single preference matrix: rows propose in order of increasing entry, and a *)
(* column keeps the proposal with the smaller entry in its own column.                                  *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS N, MaxPref
Ix == 1..N
VARIABLES pref, rowOf, tried, pc     \* rowOf[c] = row held by column c or 0; tried[r] = columns that refused r
vars == <<pref, rowOf, tried, pc>>

Init == /\ pref \in [Ix -> [Ix -> 0..MaxPref]]
        /\ rowOf = [c \in Ix |-> 0]
        /\ tried = [r \in Ix |-> {}]
        /\ pc = "run"
Free == {r \in Ix : \A c \in Ix : rowOf[c] # r}
(* a best column among those that have not refused r (ties broken either way) *)
Best(r, c) == c \notin tried[r] /\ \A d \in Ix \ tried[r] : pref[r][c] <= pref[r][d]
Propose == \E r \in Free, c \in Ix :
    /\ Best(r, c)
    /\ LET h == rowOf[c] IN
       \/ /\ h = 0
          /\ rowOf' = [rowOf EXCEPT ![c] = r] /\ UNCHANGED tried
       \/ /\ h # 0 /\ pref[r][c] <= pref[h][c]          \* accept the new one, refuse the old
          /\ rowOf' = [rowOf EXCEPT ![c] = r]
          /\ tried' = [tried EXCEPT ![h] = @ \cup {c}]
       \/ /\ h # 0 /\ pref[h][c] <= pref[r][c]          \* keep the old one
          /\ tried' = [tried EXCEPT ![r] = @ \cup {c}] /\ UNCHANGED rowOf
    /\ UNCHANGED <<pref, pc>>
Finish == Free = {} /\ pc = "run" /\ pc' = "done" /\ UNCHANGED <<pref, rowOf, tried>>
Next == Propose \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* no row and column strictly prefer each other to what they hold *)
Stable(m, ro) == LET co == [r \in Ix |-> CHOOSE c \in Ix : ro[c] = r]
                 IN \A r, c \in Ix : ~(m[r][c] < m[r][co[r]] /\ m[r][c] < m[ro[c]][c])
OneToOne == \A c, d \in Ix : c # d /\ rowOf[c] # 0 => rowOf[c] # rowOf[d]
NeverExhausted == \A r \in Free : tried[r] # Ix
DoneIsStable == pc = "done" => Stable(pref, rowOf)
Terminates == <>(pc = "done")
=============================================================================
