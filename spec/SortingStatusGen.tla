------------------------- MODULE SortingStatusGen --------------------------
(* Prints, for every distinct abstract state, one shortest history that reaches it: the replay driver  *)
(* then applies every operation from that state (one implementation test per transition).              *)
EXTENDS SortingStatus, TLC, Json
VARIABLE hist
GenInit == Init /\ hist = <<>>
GenNext == \E op \in Ops : Step(op) /\ hist' = Append(hist, op)
GenView == <<flags, visits>>
Emit == PrintT("BEH " \o ToJson(hist))
GenConstraint == Near
=============================================================================
