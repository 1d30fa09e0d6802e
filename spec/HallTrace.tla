------------------------------ MODULE HallTrace ------------------------------
EXTENDS Hall, TraceBase
Init0 == TraceBaseInit
Keys(ms) == {Norm(ms[k]) : k \in 1..Len(ms)}
(* a text is read; if it is a symbol its parts, generators and group are as defined, and its rewriting means the same *)
Symbol == IsEvent("Symbol") /\ LET d == Decode(Ev.text) IN d.slack \/
    /\ Ev.valid = d.ok
    /\ Ev.again = d.ok
    /\ d.ok => /\ Ev.letter = d.L
               /\ ~Ev.error
               /\ d.vague \/ Keys(Ev.gens) = {Norm(g) : g \in d.gens}
               /\ LET r == Decode(Ev.rewritten) IN r.ok /\ r.L = d.L /\ (d.vague \/ r.gens = d.gens)
               /\ Ev.reread
    /\ d.ok /\ ~d.vague =>
        LET G == ClosureTo(d.gens, 400) IN
        IF Ev.big THEN G = {}
        ELSE /\ Cardinality(G) = Len(Ev.group)
             /\ Keys(Ev.group) = G
             /\ Ev.inversion = (<<M3, Z3>> \in G)
(* the parts of a symbol put together by hand *)
Parts == IsEvent("Parts") /\ LET d == Decode(Ev.rewritten) IN Ev.valid = d.ok /\ (d.ok /\ ~d.vague => Keys(Ev.gens) = d.gens /\ d.L = Ev.letter /\ d.cs = Ev.cs)
TReset == IsEvent("Reset")
TSpec == Init0 /\ [][TReset \/ Symbol \/ Parts]_l
=============================================================================
