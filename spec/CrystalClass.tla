---------------------------- MODULE CrystalClass ----------------------------
(* The 32 crystal classes, known by how many operations of each of the ten kinds a group of point operations has.        *)
EXTENDS Seitz
Kinds == <<-6, -4, -3, -2, -1, 1, 2, 3, 4, 6>>
Counts(G) == [k \in 1..10 |-> Cardinality({A \in G : Iso(A) = Kinds[k]})]
C(sym, sch, holo, laue, counts) == [symbol |-> sym, schoenflies |-> sch, holohedry |-> holo, laue |-> laue, counts |-> counts]
Classes == <<
  C("1", "C1", "triclinic", "1", <<0, 0, 0, 0, 0, 1, 0, 0, 0, 0>>),
  C("-1", "Ci", "triclinic", "1", <<0, 0, 0, 0, 1, 1, 0, 0, 0, 0>>),
  C("2", "C2", "monoclinic", "2m", <<0, 0, 0, 0, 0, 1, 1, 0, 0, 0>>),
  C("m", "Cs", "monoclinic", "2m", <<0, 0, 0, 1, 0, 1, 0, 0, 0, 0>>),
  C("2/m", "C2h", "monoclinic", "2m", <<0, 0, 0, 1, 1, 1, 1, 0, 0, 0>>),
  C("222", "D2", "orthogonal", "mmm", <<0, 0, 0, 0, 0, 1, 3, 0, 0, 0>>),
  C("mm2", "C2v", "orthogonal", "mmm", <<0, 0, 0, 2, 0, 1, 1, 0, 0, 0>>),
  C("mmm", "D2h", "orthogonal", "mmm", <<0, 0, 0, 3, 1, 1, 3, 0, 0, 0>>),
  C("4", "C4", "tetragonal", "4m", <<0, 0, 0, 0, 0, 1, 1, 0, 2, 0>>),
  C("-4", "S4", "tetragonal", "4m", <<0, 2, 0, 0, 0, 1, 1, 0, 0, 0>>),
  C("4/m", "C4h", "tetragonal", "4m", <<0, 2, 0, 1, 1, 1, 1, 0, 2, 0>>),
  C("422", "D4", "tetragonal", "4mmm", <<0, 0, 0, 0, 0, 1, 5, 0, 2, 0>>),
  C("4mm", "C4v", "tetragonal", "4mmm", <<0, 0, 0, 4, 0, 1, 1, 0, 2, 0>>),
  C("-42m", "D2d", "tetragonal", "4mmm", <<0, 2, 0, 2, 0, 1, 3, 0, 0, 0>>),
  C("4/mmm", "D4h", "tetragonal", "4mmm", <<0, 2, 0, 5, 1, 1, 5, 0, 2, 0>>),
  C("3", "C3", "trigonal", "3", <<0, 0, 0, 0, 0, 1, 0, 2, 0, 0>>),
  C("-3", "C3i", "trigonal", "3", <<0, 0, 2, 0, 1, 1, 0, 2, 0, 0>>),
  C("32", "D3", "trigonal", "3m", <<0, 0, 0, 0, 0, 1, 3, 2, 0, 0>>),
  C("3m", "C3v", "trigonal", "3m", <<0, 0, 0, 3, 0, 1, 0, 2, 0, 0>>),
  C("-3m", "D3d", "trigonal", "3m", <<0, 0, 2, 3, 1, 1, 3, 2, 0, 0>>),
  C("6", "C6", "hexagonal", "6m", <<0, 0, 0, 0, 0, 1, 1, 2, 0, 2>>),
  C("-6", "C3h", "hexagonal", "6m", <<2, 0, 0, 1, 0, 1, 0, 2, 0, 0>>),
  C("6/m", "C6h", "hexagonal", "6m", <<2, 0, 2, 1, 1, 1, 1, 2, 0, 2>>),
  C("622", "D6", "hexagonal", "6mmm", <<0, 0, 0, 0, 0, 1, 7, 2, 0, 2>>),
  C("6mm", "C6v", "hexagonal", "6mmm", <<0, 0, 0, 6, 0, 1, 1, 2, 0, 2>>),
  C("-6m2", "D3h", "hexagonal", "6mmm", <<2, 0, 0, 4, 0, 1, 3, 2, 0, 0>>),
  C("6/mmm", "D6h", "hexagonal", "6mmm", <<2, 0, 2, 7, 1, 1, 7, 2, 0, 2>>),
  C("23", "T", "cubic", "m3", <<0, 0, 0, 0, 0, 1, 3, 8, 0, 0>>),
  C("m-3", "Th", "cubic", "m3", <<0, 0, 8, 3, 1, 1, 3, 8, 0, 0>>),
  C("432", "O", "cubic", "m3m", <<0, 0, 0, 0, 0, 1, 9, 8, 6, 0>>),
  C("-43m", "Td", "cubic", "m3m", <<0, 6, 0, 6, 0, 1, 3, 8, 0, 0>>),
  C("m-3m", "Oh", "cubic", "m3m", <<0, 6, 8, 9, 1, 1, 9, 8, 6, 0>>) >>
ClassNo(G) == LET c == Counts(G)  S == {k \in 1..32 : Classes[k].counts = c} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
(* the classes by ranges of the numbers of the space groups in International Tables *)
UpTo == <<1, 2, 5, 9, 15, 24, 46, 74, 80, 82, 88, 98, 110, 122, 142, 146, 148, 155, 161, 167, 173, 174, 176, 182, 186, 190, 194, 199, 206, 214, 220, 230>>
ClassOfNumber(n) == CHOOSE k \in 1..32 : n <= UpTo[k] /\ (k = 1 \/ n > UpTo[k - 1])
(* ---- a change of basis M (columns: the new basis vectors) that brings G to the standard setting of its class          *)
Scaled(M, W) == Mul(Mul(Adj(M), W), M)            \* Det(M) times the operation in the new basis
Integral(M, W) == LET S == Scaled(M, W) IN \A k \in 1..9 : (S[k] % Det(M)) = 0
InBasis(M, W) == LET S == Scaled(M, W) IN [k \in 1..9 |-> S[k] \div Det(M)]
SignedPerm(A) == \A i \in 0..2 : Cardinality({j \in 1..3 : A[3 * i + j] # 0}) = 1 /\ Cardinality({j \in 0..2 : A[3 * j + i + 1] # 0}) = 1
Diagonal(A) == A[2] = 0 /\ A[3] = 0 /\ A[4] = 0 /\ A[6] = 0 /\ A[7] = 0 /\ A[8] = 0
Four == {<<0, -1, 0, 1, 0, 0, 0, 0, 1>>, <<0, 1, 0, -1, 0, 0, 0, 0, 1>>}
Three == {<<0, -1, 0, 1, -1, 0, 0, 0, 1>>, <<-1, 1, 0, -1, 0, 0, 0, 0, 1>>}
Standard(M, G) == LET P == {InBasis(M, Proper(W)) : W \in G}  c == Classes[ClassNo(G)]  OfKind(k) == {A \in P : Iso(A) = k} IN
    CASE c.laue = "1" -> TRUE
      [] c.laue = "2m" -> OfKind(2) = {<<-1, 0, 0, 0, 1, 0, 0, 0, -1>>}
      [] c.laue = "mmm" -> \A A \in P : Diagonal(A)
      [] c.laue \in {"4m", "4mmm"} -> OfKind(4) = Four /\ \A A \in P : SignedPerm(A)
      [] c.laue \in {"3", "3m", "6m", "6mmm"} -> OfKind(3) = Three
      [] c.laue \in {"m3", "m3m"} -> \A A \in P : SignedPerm(A)
      [] OTHER -> FALSE
Transforms(M, G) == Det(M) > 0 /\ (\A W \in G : Integral(M, W)) /\ Standard(M, G)
=============================================================================
