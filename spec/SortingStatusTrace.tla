------------------------ MODULE SortingStatusTrace -------------------------
EXTENDS SortingStatus, TraceBase
TInit == Init /\ TraceBaseInit
(* the projected state the implementation reports after every call *)
Projected == /\ reply' = Ev.ret
             /\ flags' = [f \in FlagNames |-> Ev.st[f]]
             /\ visits' = Ev.st.visits
             /\ Ev.st.visited = (visits' > 0)
             /\ Ev.st.queable = (\A f \in FlagNames : ~flags'[f])
TReset == IsEvent("Reset") /\ flags' = NoFlags /\ visits' = 0 /\ reply' = 0
TStep == /\ l <= Len(Trace) /\ Ev.ev # "Reset" /\ l' = l + 1
         /\ Step(Ev) /\ Projected
TNext == TReset \/ TStep
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
