------------------------------- MODULE Store -------------------------------
(* Objects held in memory, and files that keep them under names.  An object is known by what was done to it: how it was   *)
(* made and what happened since.  Saving puts that into the file, in place of what was there; loading gives an object      *)
(* with the same past, of which everything that follows depends on nothing else.                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NSlots, NEntries, NKinds, NOps, Most
VARIABLES obj, disk, last, path
vars == <<obj, disk, last, path>>
Slots == 1..NSlots
Entries == 1..NEntries
Empty == <<>>
Init == obj = [s \in Slots |-> Empty] /\ disk = [e \in Entries |-> Empty] /\ last = [e \in Entries |-> <<>>] /\ path = <<>>
Make(s, k) == /\ obj' = [obj EXCEPT ![s] = <<<<"made", k>>>>] /\ UNCHANGED <<disk, last>> /\ path' = Append(path, <<"Make", s, k>>)
Do(s, o) == /\ obj[s] # Empty /\ Len(obj[s]) < Most /\ obj' = [obj EXCEPT ![s] = Append(@, <<"did", o>>)] /\ UNCHANGED <<disk, last>>
            /\ path' = Append(path, <<"Do", s, o>>)
Save(s, e) == /\ obj[s] # Empty /\ disk' = [disk EXCEPT ![e] = obj[s]] /\ last' = [last EXCEPT ![e] = <<s, Len(path) + 1>>] /\ UNCHANGED obj
              /\ path' = Append(path, <<"Save", s, e>>)
Load(s, e) == /\ obj' = [obj EXCEPT ![s] = IF disk[e] = Empty THEN @ ELSE disk[e]] /\ UNCHANGED <<disk, last>> /\ path' = Append(path, <<"Load", s, e>>)
Next == \E s \in Slots : (\E k \in 1..NKinds : Make(s, k)) \/ (\E o \in 1..NOps : Do(s, o)) \/ (\E e \in Entries : Save(s, e) \/ Load(s, e))
Spec == Init /\ [][Next]_vars
View == <<obj, disk>>
(* every past starts with one making, and a file holds only such *)
WellMade(h) == h = Empty \/ (h[1][1] = "made" /\ \A i \in 2..Len(h) : h[i][1] = "did")
Sound == (\A s \in Slots : WellMade(obj[s])) /\ (\A e \in Entries : WellMade(disk[e]) /\ ((disk[e] = Empty) <=> (last[e] = <<>>)))
(* what is done to one object changes no other and no file; a file changes by saving only, and then at one name *)
Apart == [][/\ Cardinality({s \in Slots : obj'[s] # obj[s]}) + Cardinality({e \in Entries : disk'[e] # disk[e]}) <= 1
            /\ \A e \in Entries : disk'[e] # disk[e] => \E s \in Slots : disk'[e] = obj[s]
            /\ \A s \in Slots : (obj'[s] # obj[s] /\ Len(obj'[s]) > 1) => (obj'[s] = Append(obj[s], obj'[s][Len(obj'[s])]) \/ \E e \in Entries : obj'[s] = disk[e])]_vars
CONSTANT Long
Short == Len(path) <= Long
Emit == Len(path) = Long => PrintT("BEH " \o ToJson(path))
=============================================================================
