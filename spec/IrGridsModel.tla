--------------------------- MODULE IrGridsModel ---------------------------
(* Tensor algebra: the transformation rules of every kind of field agree with each other, for every operation of the       *)
(* lattices of highest symmetry, and repeating operations is their product.                                                *)
EXTENDS IrGrids
CONSTANTS M
Range3 == (0 - M)..M
Vec == {<<a, b, c>> : a, b, c \in Range3}
Cubic == ClosureM({<<0, -1, 0, 1, 0, 0, 0, 0, 1>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0>>, M3})
Hexag == ClosureM({<<1, -1, 0, 1, 0, 0, 0, 0, 1>>, <<0, 1, 0, 1, 0, 0, 0, 0, -1>>, M3})
VARIABLES W, v, n
vars == <<W, v, n>>
Init == W \in Cubic \cup Hexag /\ v = <<1, 0, 0>> /\ n = <<0, 0, 1>>
(* fields change independently of the operation *)
Turn == \E x \in Vec : v' = x /\ UNCHANGED <<W, n>>
Shift == \E x \in Vec : n' = x /\ UNCHANGED <<W, v>>
Next == Turn \/ Shift
Spec == Init /\ [][Next]_vars
Contraction == Plain(Polar(W, v), Covector(W, n)) = Plain(v, n)
ProperAgree == (Det(W) = 1) => Axial(W, v) = Polar(W, v)
AxialOfCovectors == Axial(W, Cross(n, v)) = Cross(Covector(W, n), Covector(W, v))
Tensors == /\ MixedReal(W, Outer(v, n)) = Outer(Polar(W, v), Covector(W, n))
           /\ MixedRecip(W, Outer(n, v)) = Outer(Covector(W, n), Polar(W, v))
Undone == Polar(InvM(W), Polar(W, v)) = v /\ Covector(InvM(W), Covector(W, n)) = n /\ Axial(InvM(W), Axial(W, v)) = v
Repeated == /\ Covector(Mul(W, W), n) = Covector(W, Covector(W, n)) /\ Axial(Mul(W, W), v) = Axial(W, Axial(W, v))
            /\ Rot(InvM(W), n) = Covector(W, n)
Phases == \A k \in 0..23 : LET z == Turned(<<1, 0>>, k) IN LET a == z[1] \div 10  b == z[2] \div 10 IN Abs(a*a + b*b - 100000000) <= 40000
=============================================================================
