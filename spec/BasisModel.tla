---------------------------- MODULE BasisModel ----------------------------
(* Crystals grown orbit by orbit under a small space group, displaced and put back. *)
EXTENDS Basis, SequencesExt
CONSTANTS Orbits, Group
VARIABLES atoms, d
vars == <<atoms, d>>
C4Z == <<0, -1, 0, 1, 0, 0, 0, 0, 1>>
C2Z == <<-1, 0, 0, 0, -1, 0, 0, 0, 1>>
MX == <<-1, 0, 0, 0, 1, 0, 0, 0, 1>>
C3Z == <<0, -1, 0, 1, -1, 0, 0, 0, 1>>
Gens == CASE Group = 1 -> {<<C4Z, <<0, 0, 6>>>>}                          \* a fourfold screw
          [] Group = 2 -> {<<C2Z, <<0, 0, 12>>>>, <<M3, Z3>>}             \* 2_1/m
          [] Group = 3 -> {<<MX, <<0, 12, 0>>>>, <<I3, <<12, 12, 12>>>>}    \* a glide in a centred cell
          [] Group = 4 -> {<<C3Z, Z3>>, <<M3, Z3>>}                       \* -3
          [] OTHER -> {<<C4Z, Z3>>, <<MX, <<12, 12, 0>>>>}                 \* fourfold axes and glides
Ops == SetToSeq(Closure(Gens))
Seeds == {<<0, 0, 0>>, <<120, 0, 0>>, <<0, 0, 60>>, <<80, 160, 120>>, <<31, 0, 17>>}
RECURSIVE OrbitFrom(_, _, _, _)
OrbitFrom(t, p, i, s) == IF i > Len(Ops) THEN s ELSE LET x == At240(Ops[i], p)  y == <<x[1] % Q, x[2] % Q, x[3] % Q>> IN
    OrbitFrom(t, p, i + 1, IF Candidates(s, t, y) # {} THEN s ELSE Append(s, [t |-> t, p |-> y]))
Init == atoms = <<>> /\ d = <<>>
Zeros(a) == [k \in 1..Len(a) |-> Z3]
AddOrbit == /\ \A k \in 1..Len(d) : d[k] = Z3
            /\ Cardinality({atoms[k].t : k \in 1..Len(atoms)}) < Orbits
            /\ \E p \in Seeds : LET t == Cardinality({atoms[k].t : k \in 1..Len(atoms)}) IN atoms' = OrbitFrom(t, p, 1, atoms) /\ d' = Zeros(atoms')
Displace == /\ atoms # <<>> /\ \A k \in 1..Len(d) : d[k] = Z3
            /\ \E k \in 1..Len(atoms) : \E x \in {<<24, 0, 0>>, <<0, 24, 48>>} : d' = [d EXCEPT ![k] = x] /\ UNCHANGED atoms
Next == AddOrbit \/ Displace
Spec == Init /\ [][Next]_vars
Compatible == Respects(atoms, Ops) /\ Distinct(atoms)
Onto == \A i \in 1..Len(Ops) : IsOnto(MapOf(atoms, Ops[i]))
Composes == \A i, j \in 1..Len(Ops) : LET c == MMul(Ops[i], Ops[j]) IN \A k \in 1..Len(atoms) :
    LET b == Goes(atoms, Ops[j], k)  a == Goes(atoms, Ops[i], b[1])  ab == Goes(atoms, c, k)
        lost == Scale3(10, Sub3(Add3(MV(Ops[i][1], Ops[j][2]), Ops[i][2]), c[2])) IN
    ab[1] = a[1] /\ Zero3(lost) /\ Add3(ab[2], lost) = Add3(a[2], MV(Ops[i][1], b[2]))
(* an operation undone takes every atom back, and the table of displacements says so *)
Backwards == \A i \in 1..Len(Ops) : LET mo == Ops[i]  V == MInv(mo)
                                        ls == [k \in 1..Len(atoms) |-> Goes(atoms, mo, k)[1] - 1]
                                        vs == [k \in 1..Len(atoms) |-> Sub3(At240(V, atoms[ls[k] + 1].p), atoms[k].p)] IN
    atoms # <<>> => Means(atoms, mo, ls, vs) /\ \A k \in 1..Len(atoms) : Goes(atoms, V, ls[k] + 1)[1] = k
(* putting back never disturbs what is settled, and what the symmetry of its place fixes is put back exactly *)
PutBack == LET go == TLCEval(Journeys(atoms, Ops))  f == After(go, Ops, d) IN \A k \in 1..Len(atoms) :
    /\ Settled(go, Ops, d, k) => f[k] = <<d[k], 1>>
    /\ (~Settled(go, Ops, d, k) /\ SumV(Stabilizer(go, k), [i \in Stabilizer(go, k) |-> MV(Ops[i][1], <<1, 0, 0>>)]) = Z3
                                  /\ SumV(Stabilizer(go, k), [i \in Stabilizer(go, k) |-> MV(Ops[i][1], <<0, 1, 0>>)]) = Z3
                                  /\ SumV(Stabilizer(go, k), [i \in Stabilizer(go, k) |-> MV(Ops[i][1], <<0, 0, 1>>)]) = Z3) => f[k][1] = Z3
=============================================================================
