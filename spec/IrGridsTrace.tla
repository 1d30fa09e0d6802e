--------------------------- MODULE IrGridsTrace ---------------------------
EXTENDS IrGrids, TraceBase
INSTANCE SpaceGroupTable
VARIABLES z, f
vars == <<z, f, l>>
None == [none |-> TRUE]
TInit == TraceBaseInit /\ z = None /\ f = None
TReset == IsEvent("Reset") /\ z' = None /\ f' = None
Ran(s) == {s[k] : k \in 1..Len(s)}
(* the operations of the lattice take its atoms to its atoms *)
Image(m, p) == Add3(MV(m.W, p), m.w)
Same24(a, b) == Red(a) = Red(b)
Crystal(atoms, motions) == \A m \in Ran(motions) : \A a \in Ran(atoms) : \E b \in Ran(atoms) : a.t = b.t /\ Same24(Image(m, a.p), b.p)
Zone ==
    /\ IsEvent("Zone") /\ f' = None
    /\ IF ~Ev.found THEN Ev.search = 1 /\ z' = None
       ELSE LET letter == Table[Ev.i].centring IN
            /\ z' = [L |-> IF Ev.prim = 1 THEN letter ELSE "P", ops |-> Ran(Ev.ops), atoms |-> Ev.atoms, motions |-> Ran(Ev.motions)]
            /\ Crystal(Ev.atoms, Ev.motions)
            /\ I3 \in z'.ops /\ \A A, B \in z'.ops : Mul(A, B) \in z'.ops
            /\ Ev.atoms # <<>> => z'.ops \subseteq {m.W : m \in z'.motions}
Grid == IsEvent("Grid") /\ ~Ev.threw /\ Ev.n > 0 /\ UNCHANGED z /\ f' = None
Fill == IsEvent("Fill") /\ ~Ev.threw /\ UNCHANGED z /\ f' = [a |-> Ev.a, b |-> Ev.b, ca |-> Ev.type = 2, cb |-> Ev.type > 0]
(* which kinds of field can be rotated: units 3 and 4 are of the real and reciprocal lattice, 1 is angstrom *)
OnePerAtom(d) == d.v \in {0, Len(z.atoms)} /\ d.m \in {0, Len(z.atoms) * Len(z.atoms)}
Supported(d, complex) ==
    /\ d.rl = 2 => OnePerAtom(d)
    /\ CASE d.lu = 3 -> d.rl # 2 \/ complex
         [] d.lu = 4 -> d.rl = 0
         [] d.lu = 1 -> d.rl = 2 /\ complex
         [] OTHER -> FALSE
Comp(d, b, k, n, m) == Affine(d.c[b][k], n, m)
Vec3(d, b, o, n, m) == <<Comp(d, b, o, n, m), Comp(d, b, o + 1, n, m), Comp(d, b, o + 2, n, m)>>
Mat9(d, b, o, n, m) == [k \in 1..9 |-> Comp(d, b, o + k - 1, n, m)]
Slice(s, o, k) == [j \in 1..k |-> s[o + j - 1]]
(* the real components of one branch *)
TurnVec(d, W, v) == IF d.lu = 4 THEN Covector(W, v) ELSE IF d.rl = 1 THEN Axial(W, v) ELSE Polar(W, v)
TurnMat(d, W, M) == IF d.lu = 4 THEN MixedRecip(W, M) ELSE MixedReal(W, M)
RealBranch(d, b, out, W, n, m) ==
    /\ \A k \in 1..d.s : out[k] = Comp(d, b, k, n, m)
    /\ \A k \in 1..d.v : LET o == d.s + 3*k - 2 IN Slice(out, o, 3) = TurnVec(d, W, Vec3(d, b, o, n, m))
    /\ \A k \in 1..d.m : LET o == d.s + 3*d.v + 9*k - 8 IN Slice(out, o, 9) = TurnMat(d, W, Mat9(d, b, o, n, m))
(* complex components are constants; linear rules apply to their parts *)
Re(d, b, o, j) == d.c[b][o][j]
Part(d, b, o, k, j) == [i \in 1..k |-> d.c[b][o + i - 1][j]]
Fine(x) == 100000 * x
Pairs(out, o, k, j) == [i \in 1..k |-> out[o + i - 1][j]]
Within3(a, b, tol) == \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol
ScaledBy(s, a) == [i \in 1..Len(a) |-> s * a[i]]
CplxPlain(d, b, out, W) ==
    /\ \A k \in 1..d.s : \A j \in 1..2 : Abs(out[k][j] - Fine(d.c[b][k][j])) <= 5
    /\ \A k \in 1..d.v : LET o == d.s + 3*k - 2 IN \A j \in 1..2 : Within3(Pairs(out, o, 3, j), ScaledBy(100000, TurnVec(d, W, Part(d, b, o, 3, j))), 5)
    /\ \A k \in 1..d.m : LET o == d.s + 3*d.v + 9*k - 8 IN \A j \in 1..2 : Within3(Pairs(out, o, 9, j), ScaledBy(100000, TurnMat(d, W, Part(d, b, o, 9, j))), 5)
(* Displacements of the atoms: {W|w} takes atom k of cell 0 to atom v of cell T, so that the displacement W e_k of atom v has *)
(* the phase exp(-2 pi i p.T), with p the wavevector Q - tau.  The phase of the whole displacement has no meaning: T may be  *)
(* given less a common lattice vector.                                                                                     *)
NA == Len(z.atoms)
(* <<v, T>> for each atom *)
To(mo, k) == LET x == Image(mo, z.atoms[k].p)  v == CHOOSE v \in 1..NA : z.atoms[v].t = z.atoms[k].t /\ Same24(x, z.atoms[v].p) IN
    <<v, [i \in 1..3 |-> (x[i] - z.atoms[v].p[i]) \div 24]>>
Steps(m) == 24 \div m
PhaseOf(p, t, m) == (0 - Plain(p, t)) * Steps(m)                        \* in 24ths of a turn, for p/m
TurnedParts(re, im, k) == [i \in 1..Len(re) |-> Turned(<<re[i], im[i]>>, k)]
CloseAll(out, o, want, tol) == \A i \in 1..Len(want) : Close(out[o + i - 1], want[i], tol)
GammaBranch(d, b, out, mo, p, m, common) ==
    LET to == [k \in 1..NA |-> To(mo, k)]  ph == [k \in 1..NA |-> PhaseOf(p, to[k][2], m) + common * Steps(m)] IN
    /\ \A k \in 1..d.s : \A j \in 1..2 : Abs(out[k][j] - Fine(d.c[b][k][j])) <= 5
    /\ (d.v > 0 => \A k \in 1..NA : LET o == d.s + 3*k - 2  t == d.s + 3*to[k][1] - 2 IN
          CloseAll(out, t, TurnedParts(Polar(mo.W, Part(d, b, o, 3, 1)), Polar(mo.W, Part(d, b, o, 3, 2)), ph[k]), 200))
    /\ (d.m > 0 => \A k, h \in 1..NA : LET base == d.s + 3*d.v  o == base + 9*((k - 1)*NA + h - 1) + 1  t == base + 9*((to[k][1] - 1)*NA + to[h][1] - 1) + 1 IN
          CloseAll(out, t, TurnedParts(MixedReal(mo.W, Part(d, b, o, 9, 1)), MixedReal(mo.W, Part(d, b, o, 9, 2)), ph[k] - ph[h]), 400))
Rotated(d, complex, out, R, n, m) == LET W == InvM(R) IN
    /\ Len(out) = d.b
    /\ IF d.rl = 2 /\ d.v + d.m > 0 THEN \E mo \in {x \in z.motions : x.W = W} : \E j \in 0..(m - 1) : \A b \in 1..d.b : GammaBranch(d, b, out[b], mo, Rot(R, n), m, j)
       ELSE \A b \in 1..d.b : IF complex THEN CplxPlain(d, b, out[b], W) ELSE RealBranch(d, b, out[b], W, n, m)
Answer(k, R) == /\ R \in z.ops
                /\ LET t == Sub3(Ev.Q[k], Rot(R, Ev.q[k])) IN \A i \in 1..3 : (t[i] % Ev.m) = 0 /\ Allowed(z.L, <<t[1] \div Ev.m, t[2] \div Ev.m, t[3] \div Ev.m>>)
                /\ Rotated(f.a, f.ca, Ev.x[k], R, Ev.q[k], Ev.m) /\ Rotated(f.b, f.cb, Ev.y[k], R, Ev.q[k], Ev.m)
Pts == 1..Len(Ev.Q)
At == /\ IsEvent("At") /\ UNCHANGED <<z, f>>
      /\ IF Supported(f.a, f.ca) /\ Supported(f.b, f.cb)
         THEN /\ ~Ev.threw /\ Len(Ev.x) = Len(Ev.Q) /\ Len(Ev.y) = Len(Ev.Q)
              /\ TRUE = (\A k \in Pts : Answer(k, Ev.R[k]) \/ \E R \in z.ops : Answer(k, R))
         ELSE Ev.threw
Asis(d, complex, out, k) == LET e == [d EXCEPT !.lu = 3, !.rl = 0] IN
    \A b \in 1..d.b : IF complex THEN CplxPlain(e, b, out[b], I3) ELSE RealBranch(e, b, out[b], I3, Ev.q[k], Ev.m)
(* without reducing: the value at Q - tau *)
Flat == /\ IsEvent("Flat") /\ UNCHANGED <<z, f>> /\ ~Ev.threw /\ Len(Ev.x) = Len(Ev.Q) /\ Len(Ev.y) = Len(Ev.Q)
        /\ TRUE = (\A k \in Pts : Ev.Q[k] = Add3(Ev.q[k], Scale3(Ev.m, Ev.tau[k])) /\ Allowed(z.L, Ev.tau[k]) /\ Asis(f.a, f.ca, Ev.x[k], k) /\ Asis(f.b, f.cb, Ev.y[k], k))
TNext == TReset \/ Zone \/ Grid \/ Fill \/ At \/ Flat
TSpec == TInit /\ [][TNext]_vars
=============================================================================
