---------------------------- MODULE ThreadErrors ----------------------------
(* Workers run the iterations of a parallel loop; an iteration may raise an error, which the collector  *)
(* keeps under a lock. After the loop the collector raises what it kept, once.                         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Items, NWorkers
VARIABLES Failing,      \* the iterations that raise: any subset
          todo, held, lock, kept, count, outcome
Workers == 1..NWorkers
vars == <<Failing, todo, held, lock, kept, count, outcome>>
None == 0
Init == /\ Failing \in SUBSET (1..Items) /\ todo = 1..Items /\ held = [w \in Workers |-> None] /\ lock = None /\ kept = {} /\ count = 0 /\ outcome = "running"
(* a worker picks an iteration and runs it; when it raises the worker holds the error *)
Take(w) == /\ held[w] = None /\ todo # {}
           /\ \E i \in todo : todo' = todo \ {i} /\ held' = [held EXCEPT ![w] = IF i \in Failing THEN i ELSE None]
           /\ UNCHANGED <<lock, kept, count, outcome>>
Lock(w) == /\ held[w] # None /\ lock = None /\ lock' = w /\ UNCHANGED <<todo, held, kept, count, outcome>>
Keep(w) == /\ lock = w /\ kept' = kept \cup {held[w]} /\ count' = count + 1 /\ held' = [held EXCEPT ![w] = None] /\ lock' = None
           /\ UNCHANGED <<todo, outcome>>
Quiet == todo = {} /\ \A w \in Workers : held[w] = None
Raise == /\ Quiet /\ outcome = "running"
         /\ outcome' = IF count = 0 THEN "nothing" ELSE IF count = 1 THEN "one" ELSE "all"
         /\ UNCHANGED <<todo, held, lock, kept, count>>
Next == (Raise \/ \E w \in Workers : Take(w) \/ Lock(w) \/ Keep(w)) /\ UNCHANGED Failing
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* nothing is invented, nothing lost, and the caller is told exactly once *)
NoneInvented == kept \subseteq Failing /\ count = Cardinality(kept)
NoneLost == outcome # "running" => kept = Failing /\ (outcome = "nothing") = (Failing = {})
Told == <>(outcome # "running")
OneHolder == lock # None => held[lock] # None
=============================================================================
