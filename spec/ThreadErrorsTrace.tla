------------------------- MODULE ThreadErrorsTrace --------------------------
(* One event per iteration that raised (in any order), then what the caller saw: the multiset of error  *)
(* texts found in the message it received.                                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TraceBase
VARIABLES raised        \* the tokens raised so far in this loop, in a set: every raise has its own token
Init == TraceBaseInit /\ raised = {}
Loop == IsEvent("Loop") /\ raised' = {}
Raise == IsEvent("Raise") /\ Ev.token \notin raised /\ raised' = raised \cup {Ev.token}
(* errors with no text of their own carry a negative token: they count, but cannot be named            *)
Caller == /\ IsEvent("Caller") /\ raised' = {}
          /\ Ev.threw = (raised # {})
          \* what the message names was raised, and nothing twice
          /\ \A i \in 1..Len(Ev.named) : Ev.named[i] \in raised
          /\ Cardinality({Ev.named[i] : i \in 1..Len(Ev.named)}) = Len(Ev.named)
          \* every raised error with a text is named
          /\ {t \in raised : t > 0} = {Ev.named[i] : i \in 1..Len(Ev.named)}
          \* a lone error arrives as it was raised
          /\ Cardinality(raised) = 1 => Ev.unchanged
          /\ Ev.after        \* and the program went on
TReset == IsEvent("Reset") /\ raised' = {}
TSpec == Init /\ [][TReset \/ Loop \/ Raise \/ Caller]_<<l, raised>>
=============================================================================
