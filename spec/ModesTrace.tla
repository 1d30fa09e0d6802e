----------------------------- MODULE ModesTrace -----------------------------
EXTENDS Modes, TraceBase
VARIABLES D, conn, tab
vars == <<l, D, conn, tab>>
None == [data |-> <<>>, cplx |-> 0, e |-> <<1, 0, 0>>, f |-> 0, w |-> <<1, 1, 1>>]
Empty == [n |-> 0, val |-> None, vec |-> None]
TInit == TraceBaseInit /\ D = Empty /\ conn = {} /\ tab = {}
TReset == IsEvent("Reset") /\ D' = Empty /\ conn' = {} /\ tab' = {}
Fine == Ev.threw = FALSE
Connected(cells) == UNION {PairsIn(cells[k]) : k \in 1..Len(cells)}
Keys(e) == {<<e.keys[k][1], e.keys[k][2]>> : k \in 1..Len(e.keys)}
Make ==
    /\ IsEvent("Make") /\ Fine /\ Keys(Ev) = Connected(Ev.cells) \cup {<<0, 0>>}
    /\ D' = [Empty EXCEPT !.n = Ev.n] /\ conn' = Connected(Ev.cells) /\ tab' = {}
B(K) == Len(K.data[1])
(* new data for one kind; the other is kept if it has as many modes *)
Fill ==
    /\ IsEvent("Fill") /\ Fine /\ UNCHANGED conn /\ Len(Ev.data) = D.n /\ tab' = {}
    /\ LET new(K) == [K EXCEPT !.data = Ev.data, !.cplx = Ev.cplx, !.e = Ev.e]
           fit(K) == IF K.data # <<>> /\ B(K) = Len(Ev.data[1]) THEN K ELSE [K EXCEPT !.data = Nothing(D.n, Len(Ev.data[1])), !.e = <<1, 0, 0>>]
       IN D' = IF Ev.vec = 1 THEN [D EXCEPT !.vec = new(@), !.val = fit(@)] ELSE [D EXCEPT !.val = new(@), !.vec = fit(@)]
Cost ==
    /\ IsEvent("Cost") /\ Fine /\ UNCHANGED <<conn, tab>>
    /\ LET c(K) == [K EXCEPT !.f = Ev.f, !.w = Ev.w] IN D' = IF Ev.vec = 1 THEN [D EXCEPT !.vec = c(@)] ELSE [D EXCEPT !.val = c(@)]
Got == {<<Ev.perms[k][1], Ev.perms[k][2]>> : k \in 1..Len(Ev.perms)}
PermOf(s, p, q) == (CHOOSE x \in s : x[1] = <<p, q>>)[2]
Sort ==
    /\ IsEvent("Sort") /\ Fine /\ UNCHANGED <<D, conn>>
    /\ LET n == B(D.val)  s == Got IN
       TRUE = (/\ Keys(Ev) = conn \cup {<<0, 0>>} /\ conn \subseteq {x[1] : x \in s}
               /\ \A x \in s : /\ IsPerm(x[2], n)
                               /\ (x[1] \notin conn) => (x[2] = IdentityOf(n))
                               /\ (x[1] \in conn) => (x[2] = Undone(PermOf(s, x[1][2], x[1][1])))
                               /\ (x[1] \in conn /\ x[1][1] < x[1][2]) => Best([val |-> D.val, vec |-> D.vec], x[1][1], x[1][2], x[2]))
    /\ tab' = {x \in Got : x[1] \in conn}
Known(p, q) == IF tab = {} \/ <<p, q>> \notin conn THEN IdentityOf(B(D.val)) ELSE PermOf(tab, p, q)
Look == (* the matching of data not sorted yet is by position *)
    /\ IsEvent("Look") /\ Fine /\ UNCHANGED <<D, conn, tab>>
    /\ TRUE = (\A x \in Got : x[2] = Known(x[1][1], x[1][2]))
At ==
    /\ IsEvent("At") /\ Fine /\ UNCHANGED <<D, conn, tab>>
    /\ Ev.vals = Mixed(D.val, Ev.iw, Known, FALSE) /\ Ev.vecs = Mixed(D.vec, Ev.iw, Known, TRUE)
TNext == TReset \/ Make \/ Fill \/ Cost \/ Sort \/ Look \/ At
TSpec == TInit /\ [][TNext]_vars
=============================================================================
