----------------------------- MODULE BasisTrace -----------------------------
EXTENDS Basis, TraceBase
VARIABLES atoms, ops, go
vars == <<l, atoms, ops, go>>
TInit == TraceBaseInit /\ atoms = <<>> /\ ops = <<>> /\ go = <<>>
TReset == IsEvent("Reset") /\ atoms' = <<>> /\ ops' = <<>> /\ go' = <<>>
Crystal == IsEvent("Crystal") /\ atoms' = Ev.atoms /\ ops' = Ev.ops /\ go' = IF Respects(Ev.atoms, Ev.ops) THEN TLCEval(Journeys(Ev.atoms, Ev.ops)) ELSE <<>>
Same == UNCHANGED <<atoms, ops, go>>
Good == go # <<>>
(* each operation on each atom; in a crystal every one permutes the atoms *)
Maps ==
    /\ IsEvent("Maps") /\ Same
    /\ TRUE = (\A k \in 1..Len(atoms) : \A i \in 1..Len(ops) : Found(atoms, atoms[k].t, At240(ops[i], atoms[k].p), Ev.got[k][i]))
    /\ TRUE = ((Good /\ Distinct(atoms)) => \A i \in 1..Len(ops) : {Ev.got[k][i][2] : k \in 1..Len(atoms)} = 0..(Len(atoms) - 1))
Point == IsEvent("Point") /\ Same /\ TRUE = (\A k \in 1..Len(atoms) : Found(atoms, atoms[k].t, MV(Ev.m, atoms[k].p), Ev.got[k]))
Where == IsEvent("Where") /\ Same /\ TRUE = (/\ Found(atoms, Ev.t, Ev.p, <<Ev.found, Ev.at>>)
                                             /\ Closest(atoms, Ev.t, Ev.p, Ev.near, Ev.nat, Ev.d))
Gamma ==
    /\ IsEvent("Gamma") /\ Same
    /\ TRUE = (IF Ev.threw
               THEN \/ ~Respects(atoms, Ev.motions)
                    \/ \E r \in 1..Len(Ev.ps) : \A i \in 1..Len(Ev.motions) : Ev.motions[i][1] # Ev.ps[r]
               ELSE \A r \in 1..Len(Ev.ps) : \E i \in 1..Len(Ev.motions) : /\ Ev.motions[i][1] = Ev.ps[r]
                        /\ (\A k \in 1..Len(atoms) : Candidates(atoms, atoms[k].t, At240(Ev.motions[i], atoms[k].p)) # {})
                        /\ (\A k \in 1..Len(atoms) : Ev.where[k][r] \in 0..(Len(atoms) - 1))
                        /\ Means(atoms, Ev.motions[i], [k \in 1..Len(atoms) |-> Ev.where[k][r]], [k \in 1..Len(atoms) |-> Ev.vecs[k][r]]))
Snap ==
    /\ IsEvent("Snap") /\ Same
    /\ TRUE = (Good => LET f == TLCEval(After(go, ops, Ev.d)) IN
            IF Ev.lattice = 1 THEN Ev.ok = AllSettled(go, ops, f) /\ (Ev.ok => \A k \in 1..Len(atoms) : AboutV(Ev.got[k], f[k], 1))
            ELSE Ev.ok = AllSettled(go, ops, f) /\ \A k \in 1..Len(atoms) : AboutV(Ev.got[k], f[k], 1))
TNext == TReset \/ Crystal \/ Maps \/ Point \/ Where \/ Gamma \/ Snap
TSpec == TInit /\ [][TNext]_vars
=============================================================================
