---------------------------- MODULE SymOpsModel ----------------------------
(* How a small list of generators is found for a list of operations: take the first operation, strike out all that the   *)
(* taken ones generate, until nothing is left; then leave out every taken one that the others generate.                  *)
(* Checked from every list of up to MaxLen operations of the holohedries 4/mmm and 6/mmm.                                *)
EXTENDS SymOps
CONSTANTS MaxLen, System
VARIABLES todo, taken, k, phase
vars == <<pt, sp, todo, taken, k, phase>>
C4 == <<0, -1, 0, 1, 0, 0, 0, 0, 1>>
C6 == <<1, -1, 0, 1, 0, 0, 0, 0, 1>>
C2 == <<0, 1, 0, 1, 0, 0, 0, 0, -1>>
C3 == <<0, 0, 1, 1, 0, 0, 0, 1, 0>>
Holo == CASE System = 4 -> ClosureM({C4, C2, M3}) [] System = 6 -> ClosureM({C6, C2, M3}) [] System = 3 -> ClosureM({C4, C3})
Lists == UNION {[1..n -> Holo] : n \in 1..MaxLen}
Init == /\ pt \in Lists
        /\ sp = <<>> /\ todo = pt /\ taken = <<>> /\ k = 1 /\ phase = "take"
Take == /\ phase = "take" /\ todo # <<>>
        /\ taken' = Append(taken, Head(todo))
        /\ todo' = SelectSeq(todo, LAMBDA a : a \notin ClosureM(Set(taken) \cup {Head(todo)}))
        /\ UNCHANGED <<pt, sp, k, phase>>
Turn == phase = "take" /\ todo = <<>> /\ phase' = "prune" /\ UNCHANGED <<pt, sp, todo, taken, k>>
Prune == /\ phase = "prune" /\ k <= Len(taken)
         /\ IF taken[k] \in ClosureM(Set(Without(taken, k))) THEN taken' = Without(taken, k) /\ k' = k ELSE taken' = taken /\ k' = k + 1
         /\ UNCHANGED <<pt, sp, todo, phase>>
Done == phase = "prune" /\ k > Len(taken) /\ phase' = "done" /\ UNCHANGED <<pt, sp, todo, taken, k>>
Next == Take \/ Turn \/ Prune \/ Done
Spec == Init /\ [][Next]_vars
(* nothing is lost at any time, nothing foreign is taken, and at the end nothing is superfluous *)
Covered == ClosureM(Set(taken) \cup Set(todo)) = ClosureM(Set(pt)) /\ Set(taken) \subseteq Set(pt)
Minimal == phase = "done" => GeneratesM(taken, ClosureM(Set(pt)))
Grouped == phase = "done" => LET G == ClosureM(Set(pt)) IN IsGroupM(G) /\ (Cardinality(Holo) % Cardinality(G)) = 0
(* every operation has one of ten kinds, an inverse of the same kind, and the order its kind implies *)
Kinds == phase = "done" => \A a \in Set(pt) : Iso(a) # 0 /\ Iso(InvM(a)) = Iso(a)
    /\ OrderOf(<<a, Z3>>, 10) = (CASE Iso(a) = 1 -> 1 [] Iso(a) \in {-1, -2, 2} -> 2 [] Iso(a) = 3 -> 3 [] Iso(a) \in {4, -4} -> 4 [] OTHER -> 6)
=============================================================================
