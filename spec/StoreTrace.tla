------------------------------ MODULE StoreTrace ------------------------------
(* Real objects and real files.  A version stands for the past of an object.  What is done to a version for the first     *)
(* time gives a new one, with the answer and the description that were seen; done again to that version, also after it    *)
(* was saved and loaded, it gives the same.                                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TraceBase
VARIABLES obj, disk, descs, known
vars == <<l, obj, disk, descs, known>>
Slots == 1..8
TInit == TraceBaseInit /\ obj = [s \in Slots |-> 0] /\ disk = <<>> /\ descs = <<>> /\ known = <<>>
TReset == IsEvent("Reset") /\ obj' = [s \in Slots |-> 0] /\ disk' = <<>> /\ descs' = <<>> /\ known' = <<>>
Find(base, what) == {k \in 1..Len(known) : known[k].base = base /\ known[k].what = what}
Held(key) == {k \in 1..Len(disk) : disk[k].key = key}
Step(base) ==
    IF Find(base, Ev.what) = {} THEN
        LET v == IF Ev.threw /\ base = 0 THEN 0 ELSE Len(descs) + 1 IN
        /\ descs' = IF v = 0 THEN descs ELSE Append(descs, Ev.desc)
        /\ known' = Append(known, [base |-> base, what |-> Ev.what, new |-> v, ans |-> Ev.ans, threw |-> Ev.threw])
        /\ obj' = [obj EXCEPT ![Ev.slot] = v]
    ELSE LET k == CHOOSE x \in Find(base, Ev.what) : TRUE IN
        /\ UNCHANGED <<descs, known>>
        /\ Ev.threw = known[k].threw /\ Ev.ans = known[k].ans
        /\ (known[k].new # 0 => Ev.desc = descs[known[k].new])
        /\ obj' = [obj EXCEPT ![Ev.slot] = known[k].new]
Make == IsEvent("Make") /\ Step(0) /\ UNCHANGED disk
Do == IsEvent("Do") /\ obj[Ev.slot] # 0 /\ Step(obj[Ev.slot]) /\ UNCHANGED disk
Save == /\ IsEvent("Save") /\ obj[Ev.slot] # 0 /\ Ev.ok /\ Ev.desc = descs[obj[Ev.slot]]
        /\ disk' = Append(SelectSeq(disk, LAMBDA d : d.key # Ev.key), [key |-> Ev.key, ver |-> obj[Ev.slot]])
        /\ UNCHANGED <<obj, descs, known>>
Load == /\ IsEvent("Load")
        /\ IF Held(Ev.key) = {} THEN Ev.threw /\ UNCHANGED obj
           ELSE LET v == disk[CHOOSE k \in Held(Ev.key) : TRUE].ver IN
                ~Ev.threw /\ Ev.desc = descs[v] /\ obj' = [obj EXCEPT ![Ev.slot] = v]
        /\ UNCHANGED <<disk, descs, known>>
TNext == TReset \/ Make \/ Do \/ Save \/ Load
TSpec == TInit /\ [][TNext]_vars
=============================================================================
