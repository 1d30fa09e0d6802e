------------------------------ MODULE CifTrace ------------------------------
EXTENDS Cif, TraceBase
VARIABLE heap     \* motions at hand
vars == <<heap, l>>
TReset == IsEvent("Reset") /\ heap' = <<>>
In(k) == heap[k + 1]
Push(m) == heap' = Append(heap, m)
Keep == UNCHANGED heap
Mod(m) == Norm(m)
Make == IsEvent("Make") /\ Ev.m = Ev.given /\ Push(Ev.m)
Times == IsEvent("Times") /\ Mod(Ev.m) = MMul(In(Ev.a), In(Ev.b)) /\ (\A k \in 1..3 : Ev.m[2][k] >= 0 /\ Ev.m[2][k] <= N) /\ Push(Ev.m)
Invert == IsEvent("Inverse") /\ Mod(Ev.m) = MInv(In(Ev.a)) /\ (\A k \in 1..3 : Ev.m[2][k] >= 0 /\ Ev.m[2][k] <= N) /\ Push(Ev.m)
(* everything that can be asked of two motions and a position, vector or pseudovector *)
Ask == IsEvent("Ask") /\ Keep /\ LET x == In(Ev.a)  y == In(Ev.b) IN
    /\ Ev.eq = Equal(x, y) /\ Ev.ne = ~Equal(x, y) /\ Ev.eqm = (x[1] = y[1])
    /\ Ev.self
    /\ Ev.point = Move(x, Ev.v)
    /\ Ev.vector = MV(x[1], Ev.v)
    /\ Ev.axial = Scale3(Det(x[1]), MV(x[1], Ev.v))
    /\ Ev.idr = (x[1] = I3) /\ Ev.idt = (x[2] = Z3)
    /\ LET o == OrderOf(x, 10) IN o = 10 \/ Ev.order = o
(* the value of a reply in units of 1/24000 agrees with a fraction to its last unit *)
Near(v, f) == Abs(v * f[2] - f[1] * 24000) * 2 <= f[2] + 2 \/ \E k \in -3..3 : Abs((v + 24000 * k) * f[2] - f[1] * 24000) * 2 <= f[2] + 2
Write == IsEvent("Write") /\ Keep /\ LET p == Parsed(Ev.text) IN p.ok /\ TwentyFourths(p) /\ Equal(MotionOf(p), In(Ev.a))
    /\ Equal(Ev.back, In(Ev.a)) /\ Ev.same
(* a text from outside is read *)
ReadText == IsEvent("Read") /\ LET p == Parsed(Ev.text) IN
    /\ Assert(p.ok /\ TwentyFourths(p), "script text")
    /\ ~Ev.error
    /\ Equal(Ev.m, MotionOf(p))
    /\ Push(Ev.m)
ReadMany == IsEvent("ReadMany") /\ Keep /\ LET ps == Pieces(Ev.text) IN
    /\ Assert(\A k \in 1..Len(ps) : Parsed(ps[k]).ok, "script text")
    /\ ~Ev.error
    /\ Len(Ev.ms) = Len(ps) /\ \A k \in 1..Len(ps) : Equal(Ev.ms[k], MotionOf(Parsed(ps[k])))
    /\ Len(Ev.rs) = Len(ps) /\ \A k \in 1..Len(ps) : Ev.rs[k] = Parsed(ps[k]).W
(* translations that are not simple fractions: the text is a fraction or a decimal, and what is read back is the same *)
Decimal == IsEvent("Decimal") /\ Keep /\ Ev.back = 0 /\ Ev.same /\ Ev.matrix
Ratio == IsEvent("Ratio") /\ Keep /\ LET p == Parsed(Ev.text) IN
    /\ p.ok
    /\ p.W = Ev.W
    /\ \A k \in 1..3 : Ev.w[k][1] * p.w[k][2] = Ev.w[k][2] * p.w[k][1]
    /\ \A k \in 1..3 : Near(Ev.back[k], Ev.w[k])
    /\ Ev.same
TInit == heap = <<>> /\ TraceBaseInit
TSpec == TInit /\ [][TReset \/ Make \/ Times \/ Invert \/ Ask \/ Write \/ ReadText \/ ReadMany \/ Decimal \/ Ratio]_vars
=============================================================================
