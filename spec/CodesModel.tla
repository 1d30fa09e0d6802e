----------------------------- MODULE CodesModel -----------------------------
EXTENDS Codes, TLC
CONSTANT MaxSteps
Alphabet == {"P", "A", "B", "C", "I", "F", "R", "H", "p", "!", "S"}
VARIABLES val, form, first, n
Init == /\ n = 0 /\ first \in Alphabet /\ val = CodeOf(first) /\ form = "code"
ToLetter == form = "code" /\ form' = "letter" /\ val' = Letter(val) /\ UNCHANGED first
FromLetter == form = "letter" /\ form' = "code" /\ val' = CodeOf(val) /\ UNCHANGED first
ToCell == form = "code" /\ IsKnown(val) /\ form' = "cell" /\ val' = CentringVectors(val) /\ UNCHANGED first
(* recovering the centring from the translations of a lattice                                           *)
FromCell == form = "cell" /\ form' = "code" /\ val' = (CHOOSE k \in 1..7 : CentringVectors(k) = val) /\ UNCHANGED first
Next == n < MaxSteps /\ n' = n + 1 /\ (ToLetter \/ FromLetter \/ ToCell \/ FromCell)
Spec == Init /\ [][Next]_<<val, form, first, n>>

Same == form = "code" => val = CodeOf(first)
LettersBack == form = "letter" => (IF CodeOf(first) = Invalid THEN val = "!" ELSE val = first)
Distinct == \A i, j \in 1..7 : i # j => Centrings[i] # Centrings[j] /\ CentringVectors(i) # CentringVectors(j)
Cells == \A k \in 1..7 : /\ Cardinality(CentringVectors(k)) = PointsPerCell(k)
                         /\ \A u, v \in CentringVectors(k) : VMod(u, v) \in CentringVectors(k)
Decoding == \A kind \in {"Bravais", "AngleUnit", "LengthUnit", "NodeType", "RotatesLike"} :
              /\ \A i, j \in 1..Len(Members(kind)) : i # j => Members(kind)[i] # Members(kind)[j]
              /\ \A k \in -3..9 : Decode(kind, k) = -1 <=> ~(k \in 0..(Len(Members(kind)) - 1))
=============================================================================
