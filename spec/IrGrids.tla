------------------------------ MODULE IrGrids ------------------------------
(* Data on a grid over an irreducible zone represent a field on all of reciprocal space: at Q = R^T q + tau, with R an     *)
(* operation of the group and tau a reciprocal lattice point, the value is the one at q transformed by the operation       *)
(* with the rotation W = inverse(R) (of real lattice coordinates x -> W x, so that covectors n go to R^T n).               *)
EXTENDS Zones
Covector(W, n) == VM(n, InvM(W))                    \* components with respect to the reciprocal basis
Polar(W, v) == MV(W, v)                             \* with respect to the real basis
Axial(W, v) == Scale3(Det(W), MV(W, v))
MixedReal(W, M) == Mul(Mul(W, M), InvM(W))          \* maps real vectors to real vectors
MixedRecip(W, M) == LET A == Transpose(InvM(W)) IN Mul(Mul(A, M), Transpose(W))      \* maps covectors to covectors
Outer(a, b) == <<a[1]*b[1], a[1]*b[2], a[1]*b[3], a[2]*b[1], a[2]*b[2], a[2]*b[3], a[3]*b[1], a[3]*b[2], a[3]*b[3]>>
(* a field component is an affine function a.q + b of q = n/m, in units 1/m *)
Affine(c, n, m) == c[1]*n[1] + c[2]*n[2] + c[3]*n[3] + c[4]*m
(* cosines and sines of k/24 turns, times 100000 *)
Cos24 == <<100000, 96593, 86603, 70711, 50000, 25882, 0, -25882, -50000, -70711, -86603, -96593, -100000, -96593, -86603, -70711, -50000, -25882, 0, 25882, 50000, 70711, 86603, 96593>>
CosOf(k) == Cos24[(k % 24) + 1]
SinOf(k) == Cos24[((k + 18) % 24) + 1]
Turned(z, k) == <<z[1] * CosOf(k) - z[2] * SinOf(k), z[1] * SinOf(k) + z[2] * CosOf(k)>>       \* 100000 z exp(2 pi i k/24)
Close(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
=============================================================================
