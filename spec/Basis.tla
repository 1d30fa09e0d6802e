------------------------------- MODULE Basis -------------------------------
(* Atoms of a crystal, in 240ths of the cell, and what the operations of its space group (24ths) do to them. *)
EXTENDS Seitz, TLC
Q == 240
At240(mo, p) == Add3(MV(mo[1], p), Scale3(10, mo[2]))
Zero3(d) == d[1] % Q = 0 /\ d[2] % Q = 0 /\ d[3] % Q = 0
SamePlace(a, b) == Zero3(Sub3(a, b))
Candidates(atoms, t, p) == {k \in 1..Len(atoms) : atoms[k].t = t /\ SamePlace(atoms[k].p, p)}
(* what is said of the atom of this type at this place: the first one, or none *)
Found(atoms, t, p, r) == LET c == Candidates(atoms, t, p) IN
    IF c = {} THEN r = <<FALSE, Len(atoms)>> ELSE r = <<TRUE, (CHOOSE k \in c : \A j \in c : k <= j) - 1>>
Respects(atoms, ops) == \A i \in 1..Len(ops) : \A k \in 1..Len(atoms) : Candidates(atoms, atoms[k].t, At240(ops[i], atoms[k].p)) # {}
Distinct(atoms) == \A i, j \in 1..Len(atoms) : (i # j) => ~(atoms[i].t = atoms[j].t /\ SamePlace(atoms[i].p, atoms[j].p))
(* where atom k goes: the atom and the lattice vector *)
Goes(atoms, mo, k) == LET x == At240(mo, atoms[k].p)  l == CHOOSE l \in Candidates(atoms, atoms[k].t, x) : TRUE IN <<l, Sub3(x, atoms[l].p)>>
MapOf(atoms, mo) == [k \in 1..Len(atoms) |-> Goes(atoms, mo, k)[1]]
IsOnto(f) == {f[k] : k \in 1..Len(f)} = 1..Len(f)
(* the shortest way round to a place *)
Short(x) == ((x + 120) % Q) - 120
ShortV(d) == <<Short(d[1]), Short(d[2]), Short(d[3])>>
Dist2(d) == d[1] * d[1] + d[2] * d[2] + d[3] * d[3]
SameButHalf(d, e) == \A i \in 1..3 : d[i] = e[i] \/ (e[i] = -120 /\ d[i] = 120)
Closest(atoms, t, p, found, k, d) == LET off(j) == ShortV(Sub3(p, atoms[j].p))  own == {j \in 1..Len(atoms) : atoms[j].t = t} IN
    /\ found = (Candidates(atoms, t, p) # {})
    /\ own # {} => (k + 1 \in own /\ SameButHalf(d, off(k + 1)) /\ \A j \in own : Dist2(off(k + 1)) <= Dist2(off(j)))
(* moving displaced atoms back: d[k] are small displacements, in 10^-9 *)
Journeys(atoms, ops) == [k \in 1..Len(atoms) |-> [i \in 1..Len(ops) |-> Goes(atoms, ops[i], k)]]
(* go: where every operation takes every atom *)
Settled(go, ops, d, k) == \A i \in 1..Len(ops) : d[go[k][i][1]] = MV(ops[i][1], d[k])
Stabilizer(go, k) == {i \in 1..Len(go[k]) : go[k][i][1] = k}
RECURSIVE SumV(_, _)
SumV(s, f) == IF s = {} THEN Z3 ELSE LET i == CHOOSE x \in s : TRUE IN Add3(f[i], SumV(s \ {i}, f))
(* <<sum, number>>: the mean displacement of the images of an atom on itself *)
Mean(go, ops, d, k) == LET s == Stabilizer(go, k) IN <<SumV(s, [i \in s |-> MV(ops[i][1], d[k])]), Cardinality(s)>>
After(go, ops, d) == [k \in 1..Len(go) |-> IF Settled(go, ops, d, k) THEN <<d[k], 1>> ELSE Mean(go, ops, d, k)]
AllSettled(go, ops, f) == \A k \in 1..Len(go) : \A i \in 1..Len(ops) : LET l == go[k][i][1] IN
    Scale3(f[k][2], f[l][1]) = Scale3(f[l][2], MV(ops[i][1], f[k][1]))
AboutV(x, f, tol) == \A i \in 1..3 : Abs(x[i] * f[2] - f[1][i]) <= tol * f[2]
(* the table for displacements: for each operation of the point group some operation of the space group with that rotation *)
(* is meant, and l and T say where it takes each atom, T up to a lattice vector common to all atoms                       *)
Means(atoms, mo, ls, vs) == LET V == InvM(mo[1])  g == [k \in 1..Len(atoms) |-> Goes(atoms, mo, k)]
                                off(k) == Add3(vs[k], MV(V, g[k][2])) IN
    /\ \A k \in 1..Len(atoms) : ls[k] + 1 = g[k][1]
    /\ \A k \in 1..Len(atoms) : Zero3(off(k)) /\ off(k) = off(1)
=============================================================================
