----------------------------- MODULE TraceBase -----------------------------
(* Common parts of the trace specifications: the recorded trace, the position in it, acceptance.       *)
(* A trace file is a sequence of JSON objects with a field "ev"; a "Reset" event separates the traces  *)
(* of independent runs of the implementation, which are checked one after another in the same TLC run. *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json

Trace == ndJsonDeserialize("trace.ndjson")

VARIABLE l

TraceBaseInit == l = 1
Ev == Trace[l]
IsEvent(e) == /\ l <= Len(Trace)
              /\ Trace[l].ev = e
              /\ l' = l + 1

Has(k) == k \in DOMAIN Ev

(* Accepted iff every line was consumed; the first line that was not is reported otherwise.            *)
TraceAccepted ==
    LET d == TLCGet("stats").diameter
    IN  IF d - 1 = Len(Trace) THEN TRUE
        ELSE /\ PrintT("REJECTED at line " \o ToString(d))
             /\ FALSE
=============================================================================
