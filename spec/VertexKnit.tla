----------------------------- MODULE VertexKnit ----------------------------
(* Vertex registries filled independently by workers and merged pairwise afterwards.                   *)
(* Pristine vertices are 0..NP-1, further ("crafted") vertices are the remaining elements of Verts.    *)
(* A registry holds: kept  - the pristine vertices met, in order (their position is their new index);  *)
(*                   extra - the crafted vertices met, in order;                                       *)
(*                   nodes - for every node it processed the references to its vertices, in order.     *)
(* A reference is <<"P", k>> (k-th kept) or <<"A", k>> (k-th extra), k from 0.                         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NP, Verts, Workers, NodeIds, MaxPerNode

ASSUME 0..(NP-1) \subseteq Verts
Pristine == 0..(NP-1)
Empty == [kept |-> <<>>, extra |-> <<>>, nodes |-> <<>>]

VARIABLES regs,      \* sequence of registries, one per worker, later fewer
          want,      \* ghost: node -> the vertices registered for it, in order
          phase      \* "fill", "merge", "done"
vars == <<regs, want, phase>>

PosIn(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Member(s, x) == \E k \in 1..Len(s) : s[k] = x
AddTo(s, x) == IF Member(s, x) THEN s ELSE Append(s, x)
(* the reference a registry answers with for a vertex it has registered *)
Ref(r, v) == IF v \in Pristine THEN <<"P", PosIn(r.kept, v) - 1>> ELSE <<"A", PosIn(r.extra, v) - 1>>
Deref(r, ref) == IF ref[1] = "P" THEN r.kept[ref[2] + 1] ELSE r.extra[ref[2] + 1]
Register(r, v) == IF v \in Pristine THEN [r EXCEPT !.kept = AddTo(@, v)] ELSE [r EXCEPT !.extra = AddTo(@, v)]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>

AddVertex(w, n, v) ==
    /\ phase = "fill"
    /\ \A u \in 1..Len(regs) : u # w => n \notin DOMAIN regs[u].nodes     \* a node belongs to one worker
    /\ LET r == Register(regs[w], v) IN
       regs' = [regs EXCEPT ![w] = [r EXCEPT !.nodes = Put(@, n, Append(At(@, n), Ref(r, v)))]]
    /\ want' = Put(want, n, Append(At(want, n), v))
    /\ UNCHANGED phase

(* registering without referring to it from a node (the bounding polyhedron, the origin) *)
Touch(w, v) ==
    /\ regs' = [regs EXCEPT ![w] = Register(@, v)]
    /\ UNCHANGED <<want, phase>>

StartMerge == phase = "fill" /\ phase' = "merge" /\ UNCHANGED <<regs, want>>

RECURSIVE AddAll(_, _)
AddAll(s, t) == IF t = <<>> THEN s ELSE AddAll(AddTo(s, Head(t)), Tail(t))
Merge(a, b) ==
    LET r == [kept |-> AddAll(a.kept, b.kept), extra |-> AddAll(a.extra, b.extra), nodes |-> <<>>]
        move(ref) == Ref(r, Deref(b, ref))
    IN [r EXCEPT !.nodes = [n \in DOMAIN a.nodes \cup DOMAIN b.nodes |->
                              IF n \in DOMAIN a.nodes THEN a.nodes[n]
                              ELSE [k \in 1..Len(b.nodes[n]) |-> move(b.nodes[n][k])]]]
(* any two neighbouring registries may be merged next: covers the pairwise tree and every other order *)
MergeStep(i) ==
    /\ phase = "merge" /\ i < Len(regs)
    /\ regs' = [k \in 1..(Len(regs) - 1) |-> IF k < i THEN regs[k] ELSE IF k = i THEN Merge(regs[i], regs[i + 1]) ELSE regs[k + 1]]
    /\ UNCHANGED <<want, phase>>
Finish == phase = "merge" /\ Len(regs) = 1 /\ phase' = "done" /\ UNCHANGED <<regs, want>>

(* the consolidated numbering: kept vertices first, then the extra ones *)
Vertices(r) == r.kept \o r.extra
Flat(r, ref) == IF ref[1] = "P" THEN ref[2] ELSE Len(r.kept) + ref[2]

Init == regs = [w \in 1..Workers |-> Empty] /\ want = <<>> /\ phase = "fill"
DoAdd == \E w \in 1..Workers, n \in NodeIds, v \in Verts :
            Len(At(want, n)) < MaxPerNode /\ AddVertex(w, n, v)
DoMerge == \E i \in 1..(Workers - 1) : MergeStep(i)
Next == DoAdd \/ StartMerge \/ DoMerge \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NoDuplicates(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
RegistriesClean == \A w \in 1..Len(regs) : NoDuplicates(regs[w].kept) /\ NoDuplicates(regs[w].extra)
(* at every moment each node's references mean the vertices registered for it *)
MeaningKept == \A w \in 1..Len(regs) : \A n \in DOMAIN regs[w].nodes :
                 [k \in 1..Len(regs[w].nodes[n]) |-> Deref(regs[w], regs[w].nodes[n][k])] = want[n]
AllVertices == UNION {{want[n][k] : k \in 1..Len(want[n])} : n \in DOMAIN want}
DoneComplete == phase = "done" =>
    LET r == regs[1]  V == Vertices(r) IN
    /\ NoDuplicates(V)
    /\ {V[k] : k \in 1..Len(V)} = AllVertices
    /\ \A n \in DOMAIN want : [k \in 1..Len(want[n]) |-> V[Flat(r, r.nodes[n][k]) + 1]] = want[n]
=============================================================================
