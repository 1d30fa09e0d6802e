--------------------------- MODULE ToleranceTrace ---------------------------
EXTENDS Tolerance, TLC, TraceBase
Answers(eq, A, B) == [i \in 1..8 |-> Cmp(Ops[i], eq, A, B)]
ListAnswers(eqs, a, b) == [i \in 1..8 |-> CmpList(Ops[i], eqs, a, b)]
AllAre(s, x) == \A i \in 1..Len(s) : s[i] = x
Verdict(eq) == /\ AllAre(Ev.equal, eq) /\ \A i \in 1..Len(Ev.cmp) : Ev.cmp[i] = Answers(eq, Ev.a, Ev.b)
PairRule == /\ IsEvent("Pair") /\ Verdict(Equal(Ev.a, Ev.b, Ev.m, Ev.k))
WholeRule == IsEvent("Int") /\ Verdict(Ev.a = Ev.b)
DefFloat == IsEvent("DefFloat") /\ Verdict(DefaultFloat(Ev.a, Ev.b, Ev.f))
DefRel == IsEvent("DefRel") /\ Verdict(DefaultDoubleRel(Ev.a - Ev.b, Ev.f))
DefAbs == IsEvent("DefAbs") /\ Verdict(DefaultDoubleAbs(Ev.a - Ev.b))
ListRule == /\ IsEvent("List")
            /\ LET eqs == [i \in 1..Len(Ev.a) |-> IF Ev.int THEN Ev.a[i] = Ev.b[i] ELSE Equal(Ev.a[i], Ev.b[i], Ev.m, Ev.k)] IN
               /\ AllAre(Ev.equal, \A i \in 1..Len(Ev.a) : eqs[i])
               /\ \A i \in 1..Len(Ev.cmp) : Ev.cmp[i] = ListAnswers(eqs, Ev.a, Ev.b)
Lengths == IsEvent("Lengths") /\ Ev.equal = (Ev.a = Ev.b)
Binary == /\ IsEvent("Binary")
          /\ LET p(op) == [i \in 1..Len(Ev.a) |-> CASE op = "plus" -> Ev.a[i] + Ev.b[i] [] op = "minus" -> Ev.a[i] - Ev.b[i]
                                                    [] op = "times" -> Ev.a[i] * Ev.b[i]]
             IN /\ \A i \in 1..Len(Ev.plus) : Ev.plus[i] = p("plus") /\ Ev.minus[i] = p("minus") /\ Ev.times[i] = p("times")
                \* the products divided again
                /\ \A i \in 1..Len(Ev.rdiv) : Ev.rdiv[i] = Ev.a /\ Ev.ldiv[i] = Ev.a
Names == /\ IsEvent("Names") /\ Ev.cmp = <<"<", ">", "<=", ">=", "==", "!<=", "!>=", "!=">> /\ Ev.ops = <<"+", "-", "*", "/", "\\">>
TReset == IsEvent("Reset")
TSpec == TraceBaseInit /\ [][TReset \/ PairRule \/ WholeRule \/ DefFloat \/ DefRel \/ DefAbs \/ ListRule \/ Lengths \/ Binary \/ Names]_l
=============================================================================
