-------------------------- MODULE VertexKnitTrace --------------------------
EXTENDS VertexKnit, TLC, TraceBase
VARIABLES np
(* the pristine vertices of a recorded run are 0..np-1 *)
TInit == TraceBaseInit /\ regs = <<>> /\ want = <<>> /\ phase = "fill" /\ np = 0
TReset == IsEvent("Reset") /\ regs' = <<>> /\ want' = <<>> /\ phase' = "fill" /\ np' = 0
IsP(v) == v < np
RegisterT(r, v) == IF IsP(v) THEN [r EXCEPT !.kept = AddTo(@, v)] ELSE [r EXCEPT !.extra = AddTo(@, v)]
RefT(r, v) == IF IsP(v) THEN <<"P", PosIn(r.kept, v) - 1>> ELSE <<"A", PosIn(r.extra, v) - 1>>
Begin == /\ IsEvent("Begin") /\ regs' = [w \in 1..Ev.workers |-> Empty] /\ np' = Ev.np
         /\ want' = <<>> /\ phase' = "fill"
(* every registration answers with the reference of that vertex: its position in order of first registration *)
Add == /\ IsEvent("Add") /\ phase = "fill"
       /\ LET r == RegisterT(regs[Ev.w], Ev.v) IN
          /\ <<Ev.kind, Ev.idx>> = RefT(r, Ev.v)
          /\ regs' = [regs EXCEPT ![Ev.w] = IF Ev.n < 0 THEN r
                       ELSE [r EXCEPT !.nodes = Put(@, Ev.n, Append(At(@, Ev.n), RefT(r, Ev.v)))]]
          /\ Ev.kept = Len(r.kept) /\ Ev.extra = Len(r.extra)
       /\ want' = IF Ev.n < 0 THEN want ELSE Put(want, Ev.n, Append(At(want, Ev.n), Ev.v))
       /\ UNCHANGED <<phase, np>>
Touched == UNION {{regs[w].kept[k] : k \in 1..Len(regs[w].kept)} \cup {regs[w].extra[k] : k \in 1..Len(regs[w].extra)} : w \in 1..Len(regs)}
(* the merged result: V is the vertex list, map the flat indices of every node.  How the result is     *)
(* numbered is free; what it means is not.                                                             *)
Result == /\ (IsEvent("Reduce") \/ IsEvent("ParallelReduce"))
          /\ Ev.ok
          /\ NoDuplicates(Ev.vertices)
          /\ {Ev.vertices[k] : k \in 1..Len(Ev.vertices)} = Touched
          /\ {Ev.map[k].n : k \in 1..Len(Ev.map)} = DOMAIN want
          /\ \A k \in 1..Len(Ev.map) :
               LET m == Ev.map[k] IN
               /\ Len(m.idx) = Len(want[m.n])
               /\ \A j \in 1..Len(m.idx) : Ev.vertices[m.idx[j] + 1] = want[m.n][j]
          /\ phase' = "done" /\ UNCHANGED <<regs, want, np>>
(* serial and parallel merging agree exactly, and the inputs are untouched by both *)
Same == IsEvent("Same") /\ Ev.same /\ Ev.inputs_unchanged /\ UNCHANGED <<regs, want, phase, np>>
TSpec == TInit /\ [][TReset \/ Begin \/ Add \/ Result \/ Same]_<<vars, np, l>>
=============================================================================
