-------------------------- MODULE SpaceGroupsModel --------------------------
(* Every entry of the table, and every look-up by a name that occurs in it. *)
EXTENDS SpaceGroups
VARIABLES i, how, found
vars == <<i, how, found>>
Init == i \in 1..Count /\ how = "none" /\ found = i
Look == /\ how = "none"
        /\ \E h \in {"hall", "name", "full", "short", "number"} :
             /\ how' = h
             /\ found' = (CASE h = "hall" -> ByText(Table[i].hall, "") [] h = "name" -> ByText(Table[i].international, Table[i].choice)
                            [] h = "full" -> ByText(Table[i].full, Table[i].choice) [] h = "short" -> ByText(Table[i].short, Table[i].choice)
                            [] h = "number" -> ByNumber(Table[i].number, Table[i].choice))
             /\ i' = i
Spec == Init /\ [][Look]_vars
Entry == how = "none" => Consistent(i)
(* a name, its setting and a number lead to the same space group *)
Same == found > 0 /\ Table[found].number = Table[i].number
Exact == how \in {"number"} => found = i
=============================================================================
