-------------------------- MODULE SpaceGroupsTrace --------------------------
EXTENDS SpaceGroups, TraceBase
TReset == IsEvent("Reset")
Set0(s) == {s[k] : k \in 1..Len(s)}
Distinct(s) == Cardinality(Set0(s)) = Len(s)
Both(R) == R \cup {NegM(A) : A \in R}
Known(i) == i \in 1..Count
(* everything an entry says of itself *)
Entry == IsEvent("Entry") /\ Ev.known = Known(Ev.i) /\
    IF ~Known(Ev.i) THEN Ev.number = 0
    ELSE LET e == Table[Ev.i]  G == OpsOf(Ev.i)  R == Rotations(G)  c == Classes[e.class] IN
    /\ Ev.number = e.number /\ Ev.schoenflies = e.schoenflies /\ Ev.hall = e.hall /\ Ev.international = e.international
    /\ Ev.full = e.full /\ Ev.short = e.short /\ Ev.choice = e.choice /\ Ev.letter = e.centring /\ Ev.class = e.class /\ Ev.self = Ev.i
    /\ Ev.getters
    /\ Len(Ev.ops) = Cardinality(G) /\ {Norm(Ev.ops[k]) : k \in 1..Len(Ev.ops)} = G
    /\ Ev.opsletter = e.centring
    /\ Distinct(Ev.rots) /\ Set0(Ev.rots) = R
    /\ Distinct(Ev.rotst) /\ Set0(Ev.rotst) = Both(R)
    /\ Distinct(Ev.table) /\ Set0(Ev.table) = R /\ Distinct(Ev.tablet) /\ Set0(Ev.tablet) = Both(R)
    /\ Ev.small                                  \* a list that is too short is refused
    /\ Ev.group = <<c.symbol, c.schoenflies, c.holohedry, c.laue>>
    /\ Ev.found = <<e.class, c.symbol, c.schoenflies, c.holohedry, c.laue>>
LookHall == IsEvent("Hall") /\ Ev.found = ByHall(Ev.text)
LookName == IsEvent("Name") /\ Ev.found = ByName(Ev.text, Ev.choice)
LookText == IsEvent("Text") /\ Ev.found = ByText(Ev.text, Ev.choice)
LookNumber == IsEvent("Number") /\ Ev.found = ByNumber(Ev.n, Ev.choice)
(* a group of point operations given in any basis, in any order, some of them twice *)
Class == IsEvent("Class") /\ LET G == Set0(Ev.rots)  k == ClassNo(G)  c == Classes[k] IN
    /\ Assert(IsGroupM(G) /\ k > 0, "script group")
    /\ Ev.found = <<k, c.symbol, c.schoenflies, c.holohedry, c.laue>>
    /\ Distinct(Ev.kept) /\ Set0(Ev.kept) = G
    /\ Distinct(Ev.unique) /\ Set0(Ev.unique) = G /\ Distinct(Ev.uniquet) /\ Set0(Ev.uniquet) = Both(G)
    /\ Ev.isos = [j \in 1..Len(Ev.rots) |-> Iso(Ev.rots[j])]
    /\ Ev.orders = [j \in 1..Len(Ev.rots) |-> Fold(Ev.rots[j])]
(* the change of basis found for a tabulated setting: M has the new basis vectors as columns *)
Change == IsEvent("Change") /\ LET G == Rotations(OpsOf(Ev.i))  k == ClassNo(G) IN Ev.found = k /\ (k <= 2 \/ Transforms(Ev.m, G)) /\ Det(Ev.m) > 0
TSpec == TraceBaseInit /\ [][TReset \/ Entry \/ LookHall \/ LookName \/ LookText \/ LookNumber \/ Class \/ Change]_l
=============================================================================
