------------------------------- MODULE Codes --------------------------------
(* The codes that name centrings, units and kinds of data, and the conversions between their forms.    *)
(* State machine: a holder carries one value in one of its forms (code, letter or name); a conversion  *)
(* changes the form.  Whatever the history of conversions, the value stays the same; characters which   *)
(* are no centring letter lead to the one invalid value and stay there.                                *)
EXTENDS Integers, Sequences, FiniteSets

Centrings == <<"P", "A", "B", "C", "I", "F", "R">>
Invalid == 0
IsKnown(code) == code \in 1..7
Letter(code) == IF IsKnown(code) THEN Centrings[code] ELSE "!"
CodeOf(ch) == IF \E k \in 1..7 : Centrings[k] = ch THEN CHOOSE k \in 1..7 : Centrings[k] = ch ELSE Invalid
(* lattice points of a conventional cell, and which fractions of it (in sixths) they are                *)
PointsPerCell(code) == <<1, 2, 2, 2, 2, 4, 3>>[code]
CentringVectors(code) ==
    LET s == <<  {<<0, 0, 0>>}, {<<0, 0, 0>>, <<0, 3, 3>>}, {<<0, 0, 0>>, <<3, 0, 3>>}, {<<0, 0, 0>>, <<3, 3, 0>>},
                 {<<0, 0, 0>>, <<3, 3, 3>>}, {<<0, 0, 0>>, <<0, 3, 3>>, <<3, 0, 3>>, <<3, 3, 0>>},
                 {<<0, 0, 0>>, <<4, 2, 2>>, <<2, 4, 4>>} >>
    IN s[code]
VMod(u, v) == [i \in 1..3 |-> (u[i] + v[i]) % 6]

AngleUnits == <<"not_provided", "radian", "degree", "pi">>
LengthUnits == <<"none", "angstrom", "inverse_angstrom", "real_lattice", "reciprocal_lattice">>
NodeTypes == <<"assumed_null", "found_null", "null", "cube", "polygon">>
DataKinds == <<"vector", "pseudovector", "Gamma">>
Members(kind) == CASE kind = "Bravais" -> <<"invalid">> \o Centrings [] kind = "AngleUnit" -> AngleUnits
                   [] kind = "LengthUnit" -> LengthUnits [] kind = "NodeType" -> NodeTypes [] kind = "RotatesLike" -> DataKinds
(* an integer given for a data kind or a unit means the member of that position, or is refused          *)
Decode(kind, n) == IF n \in 0..(Len(Members(kind)) - 1) THEN n ELSE -1

(* An angle written without its unit: all three below pi means radian (micro-radian here), else degree. *)
InferredUnit(maxmicro) == IF maxmicro < 3141593 THEN "radian" ELSE "degree"
=============================================================================
