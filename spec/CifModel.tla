------------------------------ MODULE CifModel ------------------------------
(* The group of motions, element by element, and the reader of their text, character by character. *)
EXTENDS Cif
VARIABLES a, b, c, text, pos, st
vars == <<a, b, c, text, pos, st>>
C4 == <<0, -1, 0, 1, 0, 0, 0, 0, 1>>
C6 == <<1, -1, 0, 1, 0, 0, 0, 0, 1>>
C3 == <<0, 0, 1, 1, 0, 0, 0, 1, 0>>
C2 == <<0, 1, 0, 1, 0, 0, 0, 0, -1>>
S6 == <<-1, 1, 0, -1, 0, 0, 0, 0, -1>>
Skew == <<1, 2, 0, 0, -1, 0, -3, 0, 1>>
Ms == {I3, C4, C6, C3, C2, S6, Skew}
Ws == {Z3, <<12, 0, 6>>, <<0, 8, 16>>, <<-5, 24, 30>>}
Init == /\ a \in Ms \X Ws
        /\ b \in Ms \X Ws
        /\ c \in Ms \X Ws
        /\ text = Written(a)
        /\ pos = 1
        /\ st = Start
(* only the text of a is read: the others are for the laws *)
Next == /\ b = <<I3, Z3>> /\ c = b
        /\ pos <= Len(text)
        /\ st' = Read(st, text[pos])
        /\ pos' = pos + 1
        /\ UNCHANGED <<a, b, c, text>>
Spec == Init /\ [][Next]_vars
Associative == MMul(MMul(a, b), c) = MMul(a, MMul(b, c))
Inverses == MMul(a, MInv(a)) = E /\ MMul(MInv(a), a) = E /\ MInv(MMul(a, b)) = MMul(MInv(b), MInv(a))
Unit == MMul(a, E) = Norm(a) /\ MMul(E, a) = Norm(a)
Acts == Red(Move(MMul(a, b), c[2])) = Red(Move(a, Move(b, c[2])))
Same == Equal(a, <<a[1], Add3(a[2], <<N, -2 * N, 0>>)>>)
Understood == pos > Len(text) => LET p == CloseNum(st) IN p.ok /\ p.comp = 3 /\ TwentyFourths(p) /\ MotionOf(p) = a
=============================================================================
