--------------------------- MODULE ExactMathTrace --------------------------
(* Every event is a call of the implementation; "out" lists its answers under several element types.   *)
EXTENDS ExactMath, TLC, TraceBase
All(x) == \A k \in 1..Len(Ev.out) : Ev.out[k] = x
Mat == /\ IsEvent("Matrix")
       /\ LET n == Ev.n  A == Ev.a  d == Det(A, n) IN
          /\ \A k \in 1..Len(Ev.det) : Ev.det[k] = d
          /\ \A k \in 1..Len(Ev.adj) : Ev.adj[k] = Adj(A, n)
          /\ \A k \in 1..Len(Ev.invertible) : Ev.invertible[k] = (d # 0)
          \* the inverse times the determinant is the adjugate; integer inverses of unimodular matrices are exact
          /\ d # 0 => \A k \in 1..Len(Ev.invd) : Ev.invd[k] = Adj(A, n)
          /\ Abs(d) = 1 => \A k \in 1..Len(Ev.invi) : Ev.invi[k] = Scale(Adj(A, n), d)
          /\ \A k \in 1..Len(Ev.trace) : Ev.trace[k] = Trace3(A, n)
          /\ \A k \in 1..Len(Ev.transpose) : Ev.transpose[k] = Transpose(A, n, n)
          /\ \A k \in 1..Len(Ev.metric) : Ev.metric[k] = Mul(Transpose(A, n, n), A, n, n, n)
Product == /\ IsEvent("Product") /\ All(Mul(Ev.a, Ev.b, Ev.n, Ev.k, Ev.m))
Complex == /\ IsEvent("Complex")    \* (a + ib) times (c + id) for each of the mixed overloads
           /\ LET RR == Mul(Ev.a, Ev.c, Ev.n, Ev.k, Ev.m)  II == Mul(Ev.b, Ev.d, Ev.n, Ev.k, Ev.m)
                  RI == Mul(Ev.a, Ev.d, Ev.n, Ev.k, Ev.m)  IR == Mul(Ev.b, Ev.c, Ev.n, Ev.k, Ev.m) IN
              /\ Ev.cc = <<[x \in 1..Len(RR) |-> RR[x] - II[x]], [x \in 1..Len(RR) |-> RI[x] + IR[x]]>>
              /\ Ev.rc = <<RR, RI>> /\ Ev.cr = <<RR, IR>>
Similar == /\ IsEvent("Similar")    \* M with B M = A B, refused iff B is singular
           /\ Ev.ok = (Det(Ev.b, Ev.n) # 0)
           /\ Ev.ok => Scale(Mul(Ev.a, Ev.b, Ev.n, Ev.n, Ev.n), Det(Ev.b, Ev.n)) = Mul(Ev.b, Ev.out, Ev.n, Ev.n, Ev.n)
Sums == /\ IsEvent("Sums") /\ Ev.add = [x \in 1..Len(Ev.a) |-> Ev.a[x] + Ev.b[x]] /\ Ev.sub = [x \in 1..Len(Ev.a) |-> Ev.a[x] - Ev.b[x]]
        /\ Ev.copy = Ev.a /\ Ev.equal = (Ev.a = Ev.b) /\ Ev.self
TransposeNM == IsEvent("TransposeNM") /\ Ev.out = Transpose(Ev.a, Ev.n, Ev.m)
Vectors == /\ IsEvent("Vectors")
           /\ \A k \in 1..Len(Ev.dot) : Ev.dot[k] = Dot(Ev.a, Ev.b)
           /\ \A k \in 1..Len(Ev.norm2) : Ev.norm2[k] = Dot(Ev.a, Ev.a)
           /\ \A k \in 1..Len(Ev.dist2) : Ev.dist2[k] = LET d == [i \in 1..Len(Ev.a) |-> Ev.a[i] - Ev.b[i]] IN Dot(d, d)
           /\ Len(Ev.a) = 3 => \A k \in 1..Len(Ev.cross) : Ev.cross[k] = Cross(Ev.a, Ev.b)
           \* |a||b| cos(angle) = a.b, sent as the sign and the square
           /\ (Dot(Ev.a, Ev.a) # 0 /\ Dot(Ev.b, Ev.b) # 0) =>
                \A k \in 1..Len(Ev.cos2) : Ev.cos2[k] = Abs(Dot(Ev.a, Ev.b)) * Dot(Ev.a, Ev.b)
(* <a, b> with the first argument conjugated *)
Hermitian == /\ IsEvent("Hermitian")
             /\ LET re == Dot(Ev.a, Ev.c) + Dot(Ev.b, Ev.d)  im == Dot(Ev.a, Ev.d) - Dot(Ev.b, Ev.c) IN
                /\ Ev.cc = <<re, im>> /\ Ev.cc2 = re * re + im * im
                /\ Ev.rc = <<Dot(Ev.a, Ev.c), Dot(Ev.a, Ev.d)>> /\ Ev.cr = <<Dot(Ev.a, Ev.c), -Dot(Ev.b, Ev.c)>>
                /\ Ev.dist2 = LET x == [i \in 1..Len(Ev.a) |-> Ev.a[i] - Ev.c[i]]  y == [i \in 1..Len(Ev.a) |-> Ev.b[i] - Ev.d[i]]
                              IN Dot(x, x) + Dot(y, y)
                /\ Ev.phase_ok
Number == /\ IsEvent("Number")
          /\ \A k \in 1..Len(Ev.round) : Ev.round[k] = Round(Ev.p, Ev.q)
          /\ Ev.castmat = [x \in 1..9 |-> Round(Ev.p, Ev.q)]
          \* the fraction in [0,1) sent in units of 1/q
          /\ Ev.mod1 = Ev.p % Ev.q
          /\ Ev.isint = (Ev.p % Ev.q = 0)
Gcd == IsEvent("Gcd") /\ \A k \in 1..Len(Ev.out) : IsGcd(Ev.out[k], Ev.a, Ev.b)
Binom == /\ IsEvent("Binom")
         /\ Ev.error = (Ev.k > Ev.n)
         /\ Ev.k <= Ev.n /\ Ev.n <= 12 => Ev.small = Choose(Ev.n, Ev.k)
         \* Pascal's rule and symmetry for the large ones, compared in the implementation's own 64 bit words
         /\ Ev.k <= Ev.n /\ Ev.n > 12 => Ev.pascal /\ Ev.symmetric /\ Ev.absorb
Angle == /\ IsEvent("Angle")
         /\ Ev.cos2 = Cos60x2(Ev.k) /\ Ev.cosd90 = Cos90(Ev.k) /\ Ev.sind90 = Cos90(Ev.k - 1)
         /\ Ev.sin30x2 = Cos60x2(Ev.k - 1) /\ Ev.pythagoras /\ Ev.pair
Convert == IsEvent("Convert") /\ Ev.u2s = (IF Ev.v > Ev.smax THEN -1 ELSE Ev.v) /\ Ev.s2u = (IF Ev.s < 0 THEN -1 ELSE Ev.s)
TReset == IsEvent("Reset")
TSpec == TraceBaseInit /\ [][TReset \/ Mat \/ Product \/ Complex \/ Similar \/ Sums \/ TransposeNM \/ Vectors \/ Hermitian
                              \/ Number \/ Gcd \/ Binom \/ Angle \/ Convert]_l
=============================================================================
