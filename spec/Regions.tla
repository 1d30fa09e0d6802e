------------------------------ MODULE Regions ------------------------------
(* A parallel region: threads take the items of a loop, in any order, and work on each in steps between which any other   *)
(* thread may go on.  An item gives a result of its own, a contribution to a sum, and points, which may be other items'   *)
(* points too: those are looked up and added to a registry in one step, or found there.                                  *)
(* What is wanted of the whole does not depend on which thread did what, or when.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Items, NThreads
VARIABLES todo, doing, out, part, registry, phase, total, path
vars == <<todo, doing, out, part, registry, phase, total, path>>
Threads == 0..(NThreads - 1)
Idle == 0
(* item k has points k and k+1, so that neighbours share one *)
PointsOf(k) == {k, k + 1}
ResultOf(k) == 10 * k + 1
Init == /\ todo = 1..Items /\ doing = [t \in Threads |-> <<Idle, {}>>] /\ out = [k \in 1..Items |-> 0] /\ part = [t \in Threads |-> 0]
        /\ registry = <<>> /\ phase = "loop" /\ total = 0 /\ path = <<>>
Take(t) == /\ doing[t][1] = Idle /\ todo # {}
           /\ LET k == CHOOSE x \in todo : \A y \in todo : x <= y IN
              todo' = todo \ {k} /\ doing' = [doing EXCEPT ![t] = <<k, PointsOf(k)>>]
           /\ UNCHANGED <<out, part, registry, phase, total>>
Place(t) == /\ doing[t][1] # Idle /\ doing[t][2] # {}
            /\ LET p == CHOOSE x \in doing[t][2] : \A y \in doing[t][2] : x <= y IN
               /\ doing' = [doing EXCEPT ![t][2] = @ \ {p}]
               /\ registry' = IF \E i \in 1..Len(registry) : registry[i] = p THEN registry ELSE Append(registry, p)
            /\ UNCHANGED <<todo, out, part, phase, total>>
Finish(t) == /\ doing[t][1] # Idle /\ doing[t][2] = {}
             /\ out' = [out EXCEPT ![doing[t][1]] = ResultOf(doing[t][1])] /\ part' = [part EXCEPT ![t] = @ + doing[t][1]]
             /\ doing' = [doing EXCEPT ![t] = <<Idle, {}>>]
             /\ UNCHANGED <<todo, registry, phase, total>>
Step(t) == phase = "loop" /\ (Take(t) \/ Place(t) \/ Finish(t)) /\ path' = Append(path, t)
RECURSIVE SumOver(_, _)
SumOver(f, s) == IF s = {} THEN 0 ELSE LET t == CHOOSE x \in s : TRUE IN f[t] + SumOver(f, s \ {t})
Join == /\ phase = "loop" /\ todo = {} /\ \A t \in Threads : doing[t][1] = Idle
        /\ phase' = "joined" /\ total' = SumOver(part, Threads) /\ UNCHANGED <<todo, doing, out, part, registry, path>>
Next == Join \/ \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars
View == <<todo, doing, out, part, registry, phase, total>>
Registered == {registry[i] : i \in 1..Len(registry)}
(* the same for every schedule: no point twice, none missing, and everything else as if one thread had done it *)
Once == \A i, j \in 1..Len(registry) : registry[i] = registry[j] => i = j
Same == phase = "joined" => /\ out = [k \in 1..Items |-> ResultOf(k)] /\ total = (Items * (Items + 1)) \div 2
                            /\ Registered = 1..(Items + 1)
(* behaviours to replay: which thread went on at each step *)
Emit == phase = "joined" => PrintT("BEH " \o ToJson(path))
=============================================================================
