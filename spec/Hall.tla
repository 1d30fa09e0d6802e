-------------------------------- MODULE Hall --------------------------------
(* Hall's symbols for space groups, read one character at a time.                                                     *)
(*   [-]L  { [-]N [axis] [translations] }  [ (s t u) ]                                                                *)
(* L a centring letter, N an order 1 2 3 4 6, an axis x y z ' " *, translations among a b c n u v w d and one screw   *)
(* 1..5 less than N; the shift of origin in twelfths.  Where ^ or _ occurs an axis must follow ^, a translation _.    *)
EXTENDS Seitz
Letters == {"P", "A", "B", "C", "I", "R", "F"}
Orders == {"1", "2", "3", "4", "6"}
Axes == {"x", "y", "z", "'", "\"", "*"}
Glides == {"a", "b", "c", "n", "u", "v", "w", "d"}
Screws == {"1", "2", "3", "4", "5"}
Numeral(ch) == CASE ch = "0" -> 0 [] ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3 [] ch = "4" -> 4 [] ch = "5" -> 5 [] ch = "6" -> 6 [] ch = "7" -> 7 [] ch = "8" -> 8 [] ch = "9" -> 9 [] OTHER -> -1
NoSym == [n |-> 0, axis |-> <<>>, tran |-> <<>>]
Begin(marked) == [marked |-> marked, L |-> "?", cs |-> FALSE, neg |-> FALSE, mark |-> "", cur |-> NoSym, syms |-> <<>>, in |-> FALSE, shift |-> <<>>, num |-> [set |-> FALSE, neg |-> FALSE, v |-> 0],
                  shut |-> FALSE, slack |-> FALSE, ok |-> TRUE]
Bad(s) == [s EXCEPT !.ok = FALSE]
Flush(s) == IF s.cur.n = 0 THEN s ELSE [s EXCEPT !.syms = Append(@, s.cur), !.cur = NoSym]
NoNum == [set |-> FALSE, neg |-> FALSE, v |-> 0]
EndNum(s) == IF s.num.set THEN [s EXCEPT !.shift = Append(@, IF s.num.neg THEN -s.num.v ELSE s.num.v), !.num = NoNum] ELSE IF s.num.neg THEN Bad(s) ELSE s
(* within the parentheses; 1-2 may be two numbers or none: nothing is said of it (slack) *)
Inside(s, ch) == CASE ch = ")" -> LET t == EndNum(s) IN [t EXCEPT !.in = FALSE, !.shut = TRUE, !.ok = t.ok /\ Len(t.shift) = 3]
                   [] ch = " " -> EndNum(s)
                   [] ch = "-" -> IF s.num.set THEN [s EXCEPT !.slack = TRUE] ELSE IF s.num.neg THEN Bad(s) ELSE [s EXCEPT !.num.neg = TRUE]
                   [] Numeral(ch) >= 0 -> [s EXCEPT !.num = [set |-> TRUE, neg |-> s.num.neg, v |-> 10 * s.num.v + Numeral(ch)]]
                   [] OTHER -> Bad(s)
NewSym(s, ch) == IF s.L = "?" THEN Bad(s) ELSE [Flush(s) EXCEPT !.cur = [NoSym EXCEPT !.n = IF s.neg THEN -Numeral(ch) ELSE Numeral(ch)], !.neg = FALSE]
AddAxis(s, ch) == IF s.cur.n = 0 \/ s.neg THEN Bad(s) ELSE [s EXCEPT !.cur.axis = Append(@, ch), !.mark = ""]
AddTran(s, ch) == IF s.cur.n = 0 \/ s.neg THEN Bad(s) ELSE [s EXCEPT !.cur.tran = Append(@, ch), !.mark = ""]
Read(s, ch) ==
    CASE s.in -> Inside(s, ch)
      [] s.shut /\ ch # " " -> Bad(s)
      [] ch = " " -> IF s.neg \/ s.mark # "" THEN Bad(s) ELSE Flush(s)
      [] ch \in Letters -> IF s.L = "?" /\ s.mark = "" THEN [s EXCEPT !.L = ch, !.cs = s.neg, !.neg = FALSE] ELSE Bad(s)
      [] ch = "-" -> IF s.neg \/ s.mark # "" THEN Bad(s) ELSE [s EXCEPT !.neg = TRUE]
      [] ch = "(" -> IF s.neg \/ s.mark # "" THEN Bad(s) ELSE [Flush(s) EXCEPT !.in = TRUE]
      [] ch \in {"^", "_"} -> IF s.cur.n = 0 \/ s.neg \/ s.mark # "" THEN Bad(s) ELSE [s EXCEPT !.mark = ch]
      [] s.mark = "^" -> IF ch \in Axes THEN AddAxis(s, ch) ELSE Bad(s)
      [] s.mark = "_" -> IF ch \in Glides \cup Screws THEN AddTran(s, ch) ELSE Bad(s)
      [] ch \in Orders /\ (s.marked \/ s.cur.n = 0) -> NewSym(s, ch)
      [] ch \in Axes /\ ~s.marked -> AddAxis(s, ch)
      [] ch \in Glides \cup Screws /\ ~s.marked -> AddTran(s, ch)
      [] OTHER -> Bad(s)
(* ---- what the symbols mean *)
Mag(n) == Abs(n)
OnlyPrimes(a) == \A k \in 1..Len(a) : a[k] \in {"'", "\"", "*"}
Weight(a) == LET F(x, ch) == x + (CASE ch = "'" -> 1 [] ch = "\"" -> 2 [] ch = "*" -> 3) IN FoldLeft(F, 0, a)
AxisOf(a) == IF a = <<>> THEN "" ELSE IF Len(a) = 1 /\ a[1] \in {"x", "y", "z"} THEN a[1]
             ELSE IF OnlyPrimes(a) THEN (CASE Weight(a) = 1 -> "'" [] Weight(a) = 2 -> "\"" [] Weight(a) = 3 -> "*" [] OTHER -> "bad") ELSE "bad"
(* the axis meant when none is written: the first is z; a second two-fold is x after 2 or 4, a-b after 3 or 6; a further three-fold is a+b+c *)
Implied(n, first, before) == IF first THEN "z" ELSE CASE Mag(n) = 2 /\ Mag(before) \in {2, 4} -> "x" [] Mag(n) = 2 /\ Mag(before) \in {3, 6} -> "a-b" [] Mag(n) = 3 -> "*" [] OTHER -> "none"
RotZ(n) == CASE n = 1 -> I3 [] n = 2 -> <<-1, 0, 0, 0, -1, 0, 0, 0, 1>> [] n = 3 -> <<0, -1, 0, 1, -1, 0, 0, 0, 1>>
             [] n = 4 -> <<0, -1, 0, 1, 0, 0, 0, 0, 1>> [] n = 6 -> <<1, -1, 0, 1, 0, 0, 0, 0, 1>>
Cycle == <<0, 0, 1, 1, 0, 0, 0, 1, 0>>                    \* x to y to z to x
About(axis, R) == CASE axis = "z" -> R [] axis = "x" -> Mul(Mul(Cycle, R), InvM(Cycle)) [] axis = "y" -> Mul(Mul(InvM(Cycle), R), Cycle)
(* two-folds across the axis before: ' about a-b, " about a+b, carried along with that axis -- as Hall tabulates them *)
Across(p, ch) == CASE p = "z" /\ ch = "'" -> <<0, -1, 0, -1, 0, 0, 0, 0, -1>> [] p = "z" /\ ch = "\"" -> <<0, 1, 0, 1, 0, 0, 0, 0, -1>>
                   [] p = "x" /\ ch = "'" -> <<-1, 0, 0, 0, 0, -1, 0, -1, 0>> [] p = "x" /\ ch = "\"" -> <<-1, 0, 0, 0, 0, 1, 0, 1, 0>>
                   [] p = "y" /\ ch = "'" -> <<0, 0, -1, 0, -1, 0, -1, 0, 0>> [] p = "y" /\ ch = "\"" -> <<0, 0, 1, 0, -1, 0, 1, 0, 0>>
                   [] OTHER -> Z9
Rot(n, axis, p) == CASE Mag(n) = 1 -> I3
                     [] axis \in {"x", "y", "z"} -> About(axis, RotZ(Mag(n)))
                     [] Mag(n) = 2 /\ axis \in {"'", "\""} -> Across(p, axis)
                     [] Mag(n) = 2 /\ axis = "a-b" -> Across("z", "'")
                     [] Mag(n) = 3 /\ axis = "*" -> Cycle
                     [] OTHER -> Z9
Unit(axis) == CASE axis = "x" -> <<1, 0, 0>> [] axis = "y" -> <<0, 1, 0>> [] axis = "z" -> <<0, 0, 1>> [] OTHER -> Z3
Glide(ch) == CASE ch = "a" -> <<12, 0, 0>> [] ch = "b" -> <<0, 12, 0>> [] ch = "c" -> <<0, 0, 12>> [] ch = "n" -> <<12, 12, 12>>
               [] ch = "u" -> <<6, 0, 0>> [] ch = "v" -> <<0, 6, 0>> [] ch = "w" -> <<0, 0, 6>> [] ch = "d" -> <<6, 6, 6>> [] OTHER -> Z3
Shifted(n, axis, tran) == LET F(t, ch) == Add3(t, IF ch \in Glides THEN Glide(ch) ELSE Scale3((Numeral(ch) * N) \div Mag(n), Unit(axis))) IN Red(FoldLeft(F, Z3, tran))
TranOK(n, tran) == (\A j, k \in 1..Len(tran) : tran[j] = tran[k] => j = k) /\ Cardinality({k \in 1..Len(tran) : tran[k] \in Screws}) <= 1
                   /\ \A k \in 1..Len(tran) : tran[k] \in Screws => Numeral(tran[k]) < Mag(n)
Meaning == [ops |-> <<>>, axis |-> "z", n |-> 0, ok |-> TRUE, vague |-> FALSE]
Interpret(m, s) == LET first == m.n = 0  a == AxisOf(s.axis)  axis == IF a = "" THEN Implied(s.n, first, m.n) ELSE a  R == Rot(s.n, axis, IF first THEN "none" ELSE m.axis) IN
    [ops |-> Append(m.ops, <<IF s.n < 0 THEN NegM(R) ELSE R, Shifted(s.n, axis, s.tran)>>),
     axis |-> axis, n |-> s.n, ok |-> m.ok /\ R # Z9 /\ a # "bad" /\ TranOK(s.n, s.tran),
     vague |-> m.vague \/ (axis \notin {"x", "y", "z"} /\ \E k \in 1..Len(s.tran) : s.tran[k] \in Screws)]
(* the motion M seen from an origin moved by t: V M V^-1 *)
FromOrigin(t, a) == <<a[1], Red(Sub3(Add3(a[2], t), MV(a[1], t)))>>
Decode(chars) ==
    LET s == FoldLeft(Read, Begin(\E k \in 1..Len(chars) : chars[k] \in {"^", "_"}), chars)
        t == Flush(s)
        m == FoldLeft(Interpret, Meaning, t.syms)
        ok == t.ok /\ t.L # "?" /\ ~t.neg /\ t.mark = "" /\ ~t.in /\ m.ok
        o == IF Len(t.shift) = 3 THEN Scale3(2, t.shift) ELSE Z3
    IN [ok |-> ok, slack |-> t.slack, L |-> t.L, cs |-> t.cs, vague |-> m.vague, shift |-> o, syms |-> t.syms,
        gens |-> IF ~ok THEN {} ELSE {FromOrigin(o, g) : g \in {Trans(c) : c \in Centre(t.L)} \cup (IF t.cs THEN {<<M3, c>> : c \in Centre(t.L)} ELSE {}) \cup {m.ops[k] : k \in 1..Len(m.ops)}}]
(* ---- writing *)
Numerals == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Whole(_)
Whole(k) == IF k < 0 THEN <<"-">> \o Whole(-k) ELSE (IF k < 10 THEN <<>> ELSE Whole(k \div 10)) \o <<Numerals[(k % 10) + 1]>>
OneSym(s) == <<" ">> \o Whole(s.n) \o s.axis \o s.tran
Written(L, cs, syms, shift) == LET F(t, s) == t \o OneSym(s) IN (IF cs THEN <<"-">> ELSE <<>>) \o <<L>> \o FoldLeft(F, <<>>, syms)
    \o (IF shift = Z3 THEN <<>> ELSE <<" ", "(">> \o Whole(shift[1]) \o <<" ">> \o Whole(shift[2]) \o <<" ">> \o Whole(shift[3]) \o <<")">>)
=============================================================================
