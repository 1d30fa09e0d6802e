--------------------------- MODULE SubscriptTrace --------------------------
EXTENDS Subscript, TLC, TraceBase
(* Every event is one complete walk of a real iterator.                                                *)
Walk == IsEvent("Walk") /\
        IF FixedOf(Ev.shape, Ev.given) = 1..Len(Ev.shape) THEN Ev.error
        ELSE ~Ev.error /\ Ev.visited = Enumeration(Ev.shape, Ev.given) /\ Ev.again = Ev.visited /\ Ev.assigned = Ev.visited
Broad == IsEvent("Broadcast") /\
        IF ~Compatible(Ev.a, Ev.b) THEN Ev.error
        ELSE /\ ~Ev.error /\ Ev.outer = Outer(Ev.a, Ev.b) /\ Ev.count = Prod(Outer(Ev.a, Ev.b))
             /\ Ev.visited = Triples(Ev.a, Ev.b)
Linear == IsEvent("Linear") /\
        LET st == IF Ev.order = "row" THEN RowStride(Ev.shape) ELSE ColStride(Ev.shape) IN
        /\ Len(Ev.subs) = Prod(Ev.shape)
        /\ \A k \in 1..Len(Ev.subs) :
             /\ \A d \in 1..Len(Ev.shape) : Inside(Ev.subs[k][d], Ev.shape[d])
             /\ Dot(Ev.subs[k], st) = k - 1
             /\ Ev.lins[k] = k - 1
             /\ Ev.ok[k]
        /\ ~Ev.outside
(* a strided view: every index has its linear position and is found again from it *)
Strided == IsEvent("Strided") /\
        LET e == Enumeration(Ev.shape, NoFixed(Ev.shape)) IN
        /\ Ev.lins = [k \in 1..Len(e) |-> Dot(e[k], Ev.stride)]
        /\ Ev.back = e
TReset == IsEvent("Reset")
TSpec == TraceBaseInit /\ [][TReset \/ Walk \/ Broad \/ Linear \/ Strided]_l
=============================================================================
