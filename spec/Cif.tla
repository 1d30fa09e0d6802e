-------------------------------- MODULE Cif --------------------------------
(* Motions written as text, "-x+y, 1/2+z, x-1/4": a machine that reads one character at a time.  A component is a sum  *)
(* of signed terms; a term is a letter, an integer times a letter, or a number (integer, fraction or decimal).         *)
EXTENDS Seitz
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(ch) == \E k \in 1..10 : Digits[k] = ch
DigitOf(ch) == (CHOOSE k \in 1..10 : Digits[k] = ch) - 1
Start == [comp |-> 1, sign |-> 1, num |-> 0, den |-> 1, mode |-> "none", W |-> Z9, w |-> <<<<0, 1>>, <<0, 1>>, <<0, 1>>>>, ok |-> TRUE]
(* mode: none (no term yet), sign (a sign), int, den (after a slash), dec (after a point), done (a letter closed it) *)
Fresh(s) == [s EXCEPT !.sign = 1, !.num = 0, !.den = 1, !.mode = "none"]
CloseNum(s) == IF s.mode \in {"int", "den", "dec"} THEN Fresh([s EXCEPT !.w[s.comp] = <<s.sign * s.num, s.den>>, !.ok = s.ok /\ s.den > 0 /\ s.w[s.comp] = <<0, 1>>])
               ELSE Fresh([s EXCEPT !.ok = s.ok /\ s.mode # "sign"])
Letter(s, k) == Fresh([s EXCEPT !.W[3 * (s.comp - 1) + k] = @ + s.sign * (IF s.mode = "int" THEN s.num ELSE 1), !.ok = s.ok /\ s.mode \in {"none", "sign", "int"}])
Read(s, ch) ==
    CASE ch = " " -> s
      [] ch = "," -> LET t == CloseNum(s) IN [t EXCEPT !.comp = IF t.comp < 3 THEN t.comp + 1 ELSE 3, !.ok = t.ok /\ t.comp < 3]
      [] ch = "x" -> Letter(s, 1)
      [] ch = "y" -> Letter(s, 2)
      [] ch = "z" -> Letter(s, 3)
      [] ch = "+" -> [CloseNum(s) EXCEPT !.mode = "sign"]
      [] ch = "-" -> [CloseNum(s) EXCEPT !.mode = "sign", !.sign = -1]
      [] ch = "/" -> [s EXCEPT !.mode = "den", !.den = 0, !.ok = s.ok /\ s.mode = "int"]
      [] ch = "." -> [s EXCEPT !.mode = "dec", !.ok = s.ok /\ s.mode \in {"none", "sign", "int"}]
      [] IsDigit(ch) -> CASE s.mode = "den" -> [s EXCEPT !.den = 10 * @ + DigitOf(ch)]
                          [] s.mode = "dec" -> IF s.den < 1000000 THEN [s EXCEPT !.num = 10 * @ + DigitOf(ch), !.den = 10 * @] ELSE s   \* six places do
                          [] OTHER -> [s EXCEPT !.mode = "int", !.num = 10 * @ + DigitOf(ch)]
      [] OTHER -> [s EXCEPT !.ok = FALSE]
Parsed(chars) == LET s == FoldLeft(Read, Start, chars)  t == CloseNum(s) IN [t EXCEPT !.ok = t.ok /\ t.comp = 3]
(* the motion a text names, its translation in units of 1/N; TwentyFourths: it is a whole number of them to five places *)
Nearest(f) == (2 * f[1] * N + f[2]) \div (2 * f[2])
TwentyFourths(p) == \A k \in 1..3 : Abs(p.w[k][1] * N - Nearest(p.w[k]) * p.w[k][2]) * 1000 <= p.w[k][2]
MotionOf(p) == <<p.W, [k \in 1..3 |-> Nearest(p.w[k])]>>
(* several motions, separated by semicolons *)
RECURSIVE Pieces(_)
Pieces(chars) == LET S == {k \in 1..Len(chars) : chars[k] = ";"} IN
    IF S = {} THEN (IF chars = <<>> THEN <<>> ELSE <<chars>>)
    ELSE LET k == CHOOSE i \in S : \A j \in S : i <= j IN <<SubSeq(chars, 1, k - 1)>> \o Pieces(SubSeq(chars, k + 1, Len(chars)))
(* ---- writing, one way among many *)
RECURSIVE Number(_)
Number(n) == (IF n < 10 THEN <<>> ELSE Number(n \div 10)) \o <<Digits[(n % 10) + 1]>>
Term(c, letter) == IF c = 0 THEN <<>> ELSE <<IF c < 0 THEN "-" ELSE "+">> \o (IF Abs(c) = 1 THEN <<>> ELSE Number(Abs(c))) \o <<letter>>
Row(r, t) == Term(r[1], "x") \o Term(r[2], "y") \o Term(r[3], "z") \o (IF t = 0 THEN <<>> ELSE <<IF t < 0 THEN "-" ELSE "+">> \o Number(Abs(t)) \o <<"/">> \o Number(N))
Written(m) == LET W == m[1]  w == m[2] IN Row(SubSeq(W, 1, 3), w[1]) \o <<",", " ">> \o Row(SubSeq(W, 4, 6), w[2]) \o <<",">> \o Row(SubSeq(W, 7, 9), w[3])
=============================================================================
