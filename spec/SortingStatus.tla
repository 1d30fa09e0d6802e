--------------------------- MODULE SortingStatus ---------------------------
(* The packed per-vertex sorting status: four independent flags and a visit counter that share one     *)
(* machine word in the implementation.  The specification keeps them apart, so that an operation on    *)
(* one part which disturbs another in the implementation cannot be explained.                          *)
EXTENDS Integers, Sequences

CONSTANTS MaxVisits,   \* the largest number of visits the word can hold
          VisitArgs    \* the arguments tried with the counter operations

VARIABLES flags,       \* [sorted, locked, queued, claimed -> BOOLEAN]
          visits,      \* 0..MaxVisits
          reply        \* what the last call returned: a number, 0/1 for a truth value, or Overflow

vars == <<flags, visits, reply>>
FlagNames == {"sorted", "locked", "queued", "claimed"}
NoFlags == [f \in FlagNames |-> FALSE]
Overflow == -1
Bit(b) == IF b THEN 1 ELSE 0

Init == flags = NoFlags /\ visits = 0 /\ reply = 0

(* the three-argument constructor *)
Make(s, k, v) ==
    IF v <= MaxVisits
    THEN /\ flags' = [NoFlags EXCEPT !["sorted"] = s, !["locked"] = k]
         /\ visits' = v
         /\ reply' = v
    ELSE /\ reply' = Overflow
         /\ UNCHANGED <<flags, visits>>

SetFlag(f, b) ==
    /\ flags' = [flags EXCEPT ![f] = b]
    /\ reply' = Bit(b)
    /\ UNCHANGED visits

SetVisits(v) ==
    /\ IF v <= MaxVisits
       THEN visits' = v /\ reply' = v
       ELSE reply' = Overflow /\ UNCHANGED visits
    /\ UNCHANGED flags

AddVisit ==
    /\ IF visits < MaxVisits
       THEN visits' = visits + 1 /\ reply' = visits + 1
       ELSE reply' = Overflow /\ UNCHANGED visits
    /\ UNCHANGED flags

(* increment up to a limit; at the limit the object is locked instead *)
AddVisitUpTo(m) ==
    IF visits < m
    THEN AddVisit
    ELSE /\ flags' = [flags EXCEPT !["locked"] = TRUE]
         /\ reply' = visits
         /\ UNCHANGED visits

(* "may I work on this one": not locked, count the visit, and still to be sorted *)
TryVisit(m) ==
    IF flags["locked"]
    THEN reply' = 0 /\ UNCHANGED <<flags, visits>>
    ELSE IF visits < m
         THEN IF visits < MaxVisits
              THEN /\ visits' = visits + 1
                   /\ reply' = Bit(~flags["sorted"])
                   /\ UNCHANGED flags
              ELSE reply' = Overflow /\ UNCHANGED <<flags, visits>>
         ELSE /\ flags' = [flags EXCEPT !["locked"] = TRUE]
              /\ reply' = Bit(~flags["sorted"])
              /\ UNCHANGED visits

Queueable == \A f \in FlagNames : ~flags[f]

Step(op) == CASE op.ev = "Make"         -> Make(op.s, op.k, op.v)
              [] op.ev = "SetFlag"      -> SetFlag(op.f, op.b)
              [] op.ev = "SetVisits"    -> SetVisits(op.v)
              [] op.ev = "AddVisit"     -> AddVisit
              [] op.ev = "AddVisitUpTo" -> AddVisitUpTo(op.v)
              [] op.ev = "TryVisit"     -> TryVisit(op.v)
              [] OTHER -> FALSE

MakeOps    == {[ev |-> "Make", s |-> s, k |-> k, v |-> v] : s \in BOOLEAN, k \in BOOLEAN, v \in VisitArgs}
FlagOps    == {[ev |-> "SetFlag", f |-> f, b |-> b] : f \in FlagNames, b \in BOOLEAN}
VisitOps   == {[ev |-> "SetVisits", v |-> v] : v \in VisitArgs}
AddOps     == {[ev |-> "AddVisit"]}
BoundedOps == {[ev |-> "AddVisitUpTo", v |-> v] : v \in VisitArgs}
TryOps     == {[ev |-> "TryVisit", v |-> v] : v \in VisitArgs}
Ops == MakeOps \cup FlagOps \cup VisitOps \cup AddOps \cup BoundedOps \cup TryOps

DoMake == \E op \in MakeOps : Step(op)
DoFlag == \E op \in FlagOps : Step(op)
DoVisits == \E op \in VisitOps : Step(op)
DoAdd == \E op \in AddOps : Step(op)
DoBounded == \E op \in BoundedOps : Step(op)
DoTry == \E op \in TryOps : Step(op)
Next == DoMake \/ DoFlag \/ DoVisits \/ DoAdd \/ DoBounded \/ DoTry

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ flags \in [FlagNames -> BOOLEAN]
          /\ visits >= 0 /\ visits <= MaxVisits
          /\ reply >= Overflow /\ reply <= MaxVisits
(* setting a flag leaves the counter and the other flags alone; counting leaves all flags but "locked" alone *)
FlagsIndependent == [][ (\E op \in FlagOps : Step(op)) => UNCHANGED visits ]_vars
CountKeepsFlags == [][ (\E op \in VisitOps \cup AddOps : Step(op)) => UNCHANGED flags ]_vars
LimitOnlyLocks == [][ (\E op \in BoundedOps \cup TryOps : Step(op))
                        => \A f \in FlagNames \ {"locked"} : flags'[f] = flags[f] ]_vars
(* an operation that reports overflow changes nothing *)
OverflowKeeps == [][ reply' = Overflow => UNCHANGED <<flags, visits>> ]_vars
(* once locked, a visit is refused and not counted *)
LockedRefuses == [][ flags["locked"] /\ (\E op \in TryOps : Step(op)) => UNCHANGED <<flags, visits>> ]_vars

(* bound for exhaustive checking: the counter near zero or near its limit *)
Near == visits <= 3 \/ visits >= MaxVisits - 2
=============================================================================
