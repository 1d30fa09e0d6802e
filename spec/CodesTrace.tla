----------------------------- MODULE CodesTrace -----------------------------
EXTENDS Codes, TLC, TraceBase
VARIABLE names      \* the names given to the centrings so far
Init == TraceBaseInit /\ names = {}
Keep == UNCHANGED names
Code == /\ IsEvent("Code")
        /\ Ev.known = IsKnown(Ev.code) /\ Ev.letter = Letter(Ev.code)
        /\ Ev.back = (IF IsKnown(Ev.code) THEN Ev.code ELSE Invalid)
        /\ Ev.name # "" /\ Ev.name \notin names
        /\ IsKnown(Ev.code) => /\ Ev.invdet = PointsPerCell(Ev.code)
                               /\ Ev.det6 * PointsPerCell(Ev.code) = 216
                               /\ Ev.does = (Ev.code # 1)
                               /\ Ev.sayspoints = PointsPerCell(Ev.code)
        /\ ~IsKnown(Ev.code) => Ev.refused
        /\ names' = names \cup {Ev.name}
Char == IsEvent("Char") /\ Ev.code = CodeOf(Ev.ch) /\ Ev.hall = CodeOf(Ev.ch) /\ Ev.cs = Ev.csgot /\ Keep
(* the pure translations of the lattice a Hall symbol's letter gives, and the centring found for them   *)
Cell == /\ IsEvent("Cell")
        /\ {Ev.trans[i] : i \in 1..Len(Ev.trans)} = CentringVectors(Ev.code)
        /\ Len(Ev.trans) = PointsPerCell(Ev.code)
        /\ Ev.found = Ev.code /\ Ev.lattice = Ev.code /\ Keep
Enum == IsEvent("Enum") /\ Ev.members = Members(Ev.kind) /\ Ev.values = [i \in 1..Len(Members(Ev.kind)) |-> i - 1] /\ Keep
Decoded == IsEvent("Decode") /\ Ev.out = Decode(Ev.kind, Ev.n) /\ Keep
Default == IsEvent("Default") /\ Ev.rl = 0 /\ Ev.lu = 3 /\ Keep
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
(* deg: angles in micro-degrees; the lattice was given them in a unit and reports them in all            *)
Angles == /\ IsEvent("Angles")
          /\ Ev.unit = "not_provided" => Ev.given = InferredUnit(Ev.maxmicro)
          /\ \A i \in 1..3 : /\ Near(Ev.asdegree[i], Ev.deg[i], 2) /\ Near(Ev.asradian[i], Ev.deg[i], 2) /\ Near(Ev.aspi[i], Ev.deg[i], 2)
          /\ Keep
Refuse == IsEvent("Refuse") /\ Ev.refused /\ Keep
TReset == IsEvent("Reset") /\ names' = {}
TSpec == Init /\ [][TReset \/ Code \/ Char \/ Cell \/ Enum \/ Decoded \/ Default \/ Angles \/ Refuse]_<<l, names>>
=============================================================================
