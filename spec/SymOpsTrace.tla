---------------------------- MODULE SymOpsTrace ----------------------------
EXTENDS SymOps, TraceBase
vars == <<pt, sp, l>>
ok == ~Ev.error
Pt(s) == pt' = s /\ sp' = sp /\ Ev.pt = s
Sp(s) == sp' = s /\ pt' = pt /\ Ev.sp = s
Keep == UNCHANGED <<pt, sp>> /\ Ev.pt = pt /\ Ev.sp = sp
TReset == IsEvent("Reset") /\ pt' = <<>> /\ sp' = <<>>
(* ---- lists of point operations *)
PMake == IsEvent("PMake") /\ ok /\ Reordered(Ev.ms, Ev.pt) /\ Sorted(Ev.pt, 1) /\ Pt(Ev.pt)
PAdd == IsEvent("PAdd") /\ ok /\ Pt(pt \o Ev.ms) /\ Ev.size = Len(pt) + Len(Ev.ms)
PSet == IsEvent("PSet") /\ ok /\ IF Ev.i < Len(pt) THEN Ev.ret /\ Pt([pt EXCEPT ![Ev.i + 1] = Ev.m]) ELSE ~Ev.ret /\ Keep
PErase == IsEvent("PErase") /\ IF Ev.i < Len(pt) THEN ok /\ Pt(Without(pt, Ev.i + 1)) ELSE Ev.error /\ Keep
PPop == IsEvent("PPop") /\ IF Ev.i < Len(pt) THEN ok /\ Ev.m = pt[Ev.i + 1] /\ Pt(Without(pt, Ev.i + 1)) ELSE Ev.error /\ Keep
PResize == IsEvent("PResize") /\ ok /\ Pt(Resized(pt, Ev.n, Z9))
PSort == IsEvent("PSort") /\ ok /\ Reordered(pt, Ev.pt) /\ Sorted(Ev.pt, Ev.mode) /\ Pt(Ev.pt)
PPermute == IsEvent("PPermute") /\ IF IsPermIdx(Ev.p, Len(pt)) THEN ok /\ Pt([k \in 1..Len(pt) |-> pt[Ev.p[k] + 1]]) ELSE Ev.error /\ Keep
PAsk == IsEvent("PAsk") /\ ok /\ Keep /\
    LET n == Len(pt)  has(i) == i < n IN
    /\ Ev.size = n
    /\ Ev.isos = [k \in 1..n |-> Iso(pt[k])] /\ Ev.isos1 = Ev.isos
    /\ Ev.orders = [k \in 1..n |-> Fold(pt[k])] /\ Ev.orders1 = Ev.orders
    /\ Len(Ev.axes) = n /\ \A k \in 1..n : AxisOK(pt[k], Ev.axes[k])
    /\ Ev.axes1 = Ev.axes
    /\ \A j, k \in 1..n : Parallel(Ev.axes[j], Ev.axes[k]) /\ Ev.axes[j] # Z3 /\ Ev.axes[k] # Z3 => Ev.axes[j] = Ev.axes[k]
    /\ Ev.inverse = [k \in 1..n |-> LET S == {j \in 1..n : Mul(pt[j], pt[k]) = I3} IN IF S = {} THEN -1 ELSE (CHOOSE j \in S : \A i \in S : j <= i) - 1]
    /\ Ev.inversem = [k \in 1..n |-> IF Ev.inverse[k] = -1 THEN Z9 ELSE pt[Ev.inverse[k] + 1]]
    /\ Ev.find = First(n, LAMBDA k : pt[k] = Ev.m)
    /\ Ev.ident = First(n, LAMBDA k : pt[k] = I3)
    /\ Ev.has = (Ev.m \in Set(pt))
    /\ Ev.inversion = (M3 \in Set(pt))
    /\ Ev.get = (IF has(Ev.i) THEN pt[Ev.i + 1] ELSE Z9)
    /\ Ev.gets = has(Ev.i)
    /\ Ev.proper = (IF has(Ev.i) THEN Proper(pt[Ev.i + 1]) ELSE Z9)
    /\ Ev.oerr = ~has(Ev.i)
    /\ Ev.mvops = SelectSeq(pt, LAMBDA A : MV(A, Ev.v) = Ev.w) /\ Ev.mv = (Ev.mvops # <<>>)
    /\ Ev.vmops = SelectSeq(pt, LAMBDA A : VM(Ev.v, A) = Ev.w) /\ Ev.vm = (Ev.vmops # <<>>)
Take(res) == IF Ev.take THEN Pt(res) ELSE Keep
PGenerate == IsEvent("PGenerate") /\ ok /\ Distinct(Ev.res) /\ Set(Ev.res) = ClosureM(Set(pt)) /\ Take(Ev.res)
PGenerators == IsEvent("PGenerators") /\ ok /\ Set(Ev.res) \subseteq Set(pt) /\ GeneratesM(Ev.res, ClosureM(Set(pt))) /\ Take(Ev.res)
PAddInv == IsEvent("PAddInv") /\ ok /\ Take(Ev.res) /\
    IF M3 \in Set(pt) THEN Ev.res = pt ELSE Distinct(Ev.res) /\ Set(Ev.res) = ClosureM(Set(pt) \cup {M3})
PHigher == IsEvent("PHigher") /\ ok /\ Reordered(Ev.res, SelectSeq(pt, LAMBDA A : Fold(A) > Ev.n)) /\ Sorted(Ev.res, 1) /\ Keep
(* one proper operation of highest order for each axis *)
PNfolds == IsEvent("PNfolds") /\ ok /\ Keep /\ Sorted(Ev.res, 1) /\
    LET Best(k) == \A j \in 1..Len(pt) : Ev.axes[j] = Ev.axes[k] => Fold(pt[j]) <= Fold(pt[k])
        Lines == {Ev.axes[k] : k \in {j \in 1..Len(pt) : Best(j) /\ Fold(pt[j]) > Ev.n}}
    IN /\ Len(Ev.res) = Cardinality(Lines)
       /\ \A v \in Lines : \E i \in 1..Len(Ev.res) : \E k \in 1..Len(pt) : Ev.axes[k] = v /\ Best(k) /\ Ev.res[i] = Proper(pt[k])
       /\ Distinct(Ev.res)
(* ---- lists of motions *)
SMake == IsEvent("SMake") /\ ok /\ Sp(Ev.ms)
SAdd == IsEvent("SAdd") /\ ok /\ Sp(sp \o Ev.ms) /\ Ev.size = Len(sp) + Len(Ev.ms)
SErase == IsEvent("SErase") /\ IF Ev.i < Len(sp) THEN ok /\ Sp(Without(sp, Ev.i + 1)) ELSE Ev.error /\ Keep
SPop == IsEvent("SPop") /\ IF Ev.i < Len(sp) THEN ok /\ Ev.m = sp[Ev.i + 1] /\ Sp(Without(sp, Ev.i + 1)) ELSE Ev.error /\ Keep
SAsk == IsEvent("SAsk") /\ ok /\ Keep /\
    LET n == Len(sp)  S == NormSet(sp) IN
    /\ Ev.size = n
    /\ \A k \in 1..n : LET o == OrderOf(sp[k], 10) IN o = 10 \/ (Ev.orders[k] = o /\ Ev.orders1[k] = o)
    /\ Ev.oerr = (Ev.i >= n)
    /\ Ev.get = (IF Ev.i < n THEN sp[Ev.i + 1] ELSE <<Z9, Z3>>) /\ Ev.getr = Ev.get[1] /\ Ev.gett = Ev.get[2]
    /\ Ev.has = (Norm(Ev.m) \in S)
    /\ Ev.inversion = (<<M3, Z3>> \in S)
    /\ Ev.matrix = First(n, LAMBDA k : sp[k][1] = Ev.m[1])
    /\ Ev.centring = CentringOf(S)
    /\ Ev.allr = [k \in 1..n |-> sp[k][1]] /\ Ev.allt = [k \in 1..n |-> sp[k][2]]
STake(res) == IF Ev.take THEN Sp(res) ELSE Keep
SGenerate == IsEvent("SGenerate") /\ ok /\ Len(Ev.res) = Cardinality(NormSet(Ev.res)) /\ NormSet(Ev.res) = Closure(Set(sp)) /\ STake(Ev.res)
SGenerators == IsEvent("SGenerators") /\ ok /\ Set(Ev.res) \subseteq Set(sp) /\ Generates(Ev.res, Closure(Set(sp))) /\ STake(Ev.res)
SAddInv == IsEvent("SAddInv") /\ ok /\ STake(Ev.res) /\
    IF <<M3, Z3>> \in NormSet(sp) THEN Ev.res = sp
    ELSE Len(Ev.res) = Cardinality(NormSet(Ev.res)) /\ NormSet(Ev.res) = Closure(Set(sp) \cup {<<M3, Z3>>})
(* equality as sets, of lists in which no motion is repeated *)
SEqual == IsEvent("SEqual") /\ ok /\ Keep /\
    (Cardinality(NormSet(sp)) = Len(sp) /\ Cardinality(NormSet(Ev.ms)) = Len(Ev.ms) => Ev.equal = (NormSet(sp) = NormSet(Ev.ms)) /\ Ev.differ = ~Ev.equal)
TInit == MInit /\ TraceBaseInit
TSpec == TInit /\ [][TReset \/ PMake \/ PAdd \/ PSet \/ PErase \/ PPop \/ PResize \/ PSort \/ PPermute \/ PAsk \/ PGenerate \/ PGenerators \/ PAddInv \/ PHigher
    \/ PNfolds \/ SMake \/ SAdd \/ SErase \/ SPop \/ SAsk \/ SGenerate \/ SGenerators \/ SAddInv \/ SEqual]_vars
=============================================================================
