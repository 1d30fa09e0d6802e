-------------------------- MODULE SpaceGroupTable --------------------------
(* The 530 tabulated settings of the space groups (generated by tools/mktable.py from data/spacegroups.tsv). *)
SG(n, sch, hall, chars, name, first, full, short, choice, L, pg) == [number |-> n, schoenflies |-> sch, hall |-> hall, chars |-> chars, international |-> name, first |-> first, full |-> full, short |-> short, choice |-> choice, centring |-> L, class |-> pg]
Table == <<
  SG(1, "C1^1", "P 1", <<"P", " ", "1">>, "P 1", "P", "P 1", "P1", "", "P", 1),
  SG(2, "Ci^1", "-P 1", <<"-", "P", " ", "1">>, "P -1", "P", "P -1", "P-1", "", "P", 2),
  SG(3, "C2^1", "P 2y", <<"P", " ", "2", "y">>, "P 2 = P 1 2 1", "P", "P 1 2 1", "P2", "b", "P", 3),
  SG(3, "C2^1", "P 2", <<"P", " ", "2">>, "P 2 = P 1 1 2", "P", "P 1 1 2", "P2", "c", "P", 3),
  SG(3, "C2^1", "P 2x", <<"P", " ", "2", "x">>, "P 2 = P 2 1 1", "P", "P 2 1 1", "P2", "a", "P", 3),
  SG(4, "C2^2", "P 2yb", <<"P", " ", "2", "y", "b">>, "P 2_1 = P 1 2_1 1", "P", "P 1 2_1 1", "P2_1", "b", "P", 3),
  SG(4, "C2^2", "P 2c", <<"P", " ", "2", "c">>, "P 2_1 = P 1 1 2_1", "P", "P 1 1 2_1", "P2_1", "c", "P", 3),
  SG(4, "C2^2", "P 2xa", <<"P", " ", "2", "x", "a">>, "P 2_1 = P 2_1 1 1", "P", "P 2_1 1 1", "P2_1", "a", "P", 3),
  SG(5, "C2^3", "C 2y", <<"C", " ", "2", "y">>, "C 2 = C 1 2 1", "C", "C 1 2 1", "C2", "b1", "C", 3),
  SG(5, "C2^3", "A 2y", <<"A", " ", "2", "y">>, "C 2 = A 1 2 1", "A", "A 1 2 1", "C2", "b2", "A", 3),
  SG(5, "C2^3", "I 2y", <<"I", " ", "2", "y">>, "C 2 = I 1 2 1", "I", "I 1 2 1", "C2", "b3", "I", 3),
  SG(5, "C2^3", "A 2", <<"A", " ", "2">>, "C 2 = A 1 1 2", "A", "A 1 1 2", "C2", "c1", "A", 3),
  SG(5, "C2^3", "B 2", <<"B", " ", "2">>, "C 2 = B 1 1 2 = B 2", "B", "B 1 1 2", "C2", "c2", "B", 3),
  SG(5, "C2^3", "I 2", <<"I", " ", "2">>, "C 2 = I 1 1 2", "I", "I 1 1 2", "C2", "c3", "I", 3),
  SG(5, "C2^3", "B 2x", <<"B", " ", "2", "x">>, "C 2 = B 2 1 1", "B", "B 2 1 1", "C2", "a1", "B", 3),
  SG(5, "C2^3", "C 2x", <<"C", " ", "2", "x">>, "C 2 = C 2 1 1", "C", "C 2 1 1", "C2", "a2", "C", 3),
  SG(5, "C2^3", "I 2x", <<"I", " ", "2", "x">>, "C 2 = I 2 1 1", "I", "I 2 1 1", "C2", "a3", "I", 3),
  SG(6, "Cs^1", "P -2y", <<"P", " ", "-", "2", "y">>, "P m = P 1 m 1", "P", "P 1 m 1", "Pm", "b", "P", 4),
  SG(6, "Cs^1", "P -2", <<"P", " ", "-", "2">>, "P m = P 1 1 m", "P", "P 1 1 m", "Pm", "c", "P", 4),
  SG(6, "Cs^1", "P -2x", <<"P", " ", "-", "2", "x">>, "P m = P m 1 1", "P", "P m 1 1", "Pm", "a", "P", 4),
  SG(7, "Cs^2", "P -2yc", <<"P", " ", "-", "2", "y", "c">>, "P c = P 1 c 1", "P", "P 1 c 1", "Pc", "b1", "P", 4),
  SG(7, "Cs^2", "P -2yac", <<"P", " ", "-", "2", "y", "a", "c">>, "P c = P 1 n 1", "P", "P 1 n 1", "Pc", "b2", "P", 4),
  SG(7, "Cs^2", "P -2ya", <<"P", " ", "-", "2", "y", "a">>, "P c = P 1 a 1", "P", "P 1 a 1", "Pc", "b3", "P", 4),
  SG(7, "Cs^2", "P -2a", <<"P", " ", "-", "2", "a">>, "P c = P 1 1 a", "P", "P 1 1 a", "Pc", "c1", "P", 4),
  SG(7, "Cs^2", "P -2ab", <<"P", " ", "-", "2", "a", "b">>, "P c = P 1 1 n", "P", "P 1 1 n", "Pc", "c2", "P", 4),
  SG(7, "Cs^2", "P -2b", <<"P", " ", "-", "2", "b">>, "P c = P 1 1 b = P b", "P", "P 1 1 b", "Pc", "c3", "P", 4),
  SG(7, "Cs^2", "P -2xb", <<"P", " ", "-", "2", "x", "b">>, "P c = P b 1 1", "P", "P b 1 1", "Pc", "a1", "P", 4),
  SG(7, "Cs^2", "P -2xbc", <<"P", " ", "-", "2", "x", "b", "c">>, "P c = P n 1 1", "P", "P n 1 1", "Pc", "a2", "P", 4),
  SG(7, "Cs^2", "P -2xc", <<"P", " ", "-", "2", "x", "c">>, "P c = P c 1 1", "P", "P c 1 1", "Pc", "a3", "P", 4),
  SG(8, "Cs^3", "C -2y", <<"C", " ", "-", "2", "y">>, "C m = C 1 m 1", "C", "C 1 m 1", "Cm", "b1", "C", 4),
  SG(8, "Cs^3", "A -2y", <<"A", " ", "-", "2", "y">>, "C m = A 1 m 1", "A", "A 1 m 1", "Cm", "b2", "A", 4),
  SG(8, "Cs^3", "I -2y", <<"I", " ", "-", "2", "y">>, "C m = I 1 m 1", "I", "I 1 m 1", "Cm", "b3", "I", 4),
  SG(8, "Cs^3", "A -2", <<"A", " ", "-", "2">>, "C m = A 1 1 m", "A", "A 1 1 m", "Cm", "c1", "A", 4),
  SG(8, "Cs^3", "B -2", <<"B", " ", "-", "2">>, "C m = B 1 1 m = B m", "B", "B 1 1 m", "Cm", "c2", "B", 4),
  SG(8, "Cs^3", "I -2", <<"I", " ", "-", "2">>, "C m = I 1 1 m", "I", "I 1 1 m", "Cm", "c3", "I", 4),
  SG(8, "Cs^3", "B -2x", <<"B", " ", "-", "2", "x">>, "C m = B m 1 1", "B", "B m 1 1", "Cm", "a1", "B", 4),
  SG(8, "Cs^3", "C -2x", <<"C", " ", "-", "2", "x">>, "C m = C m 1 1", "C", "C m 1 1", "Cm", "a2", "C", 4),
  SG(8, "Cs^3", "I -2x", <<"I", " ", "-", "2", "x">>, "C m = I m 1 1", "I", "I m 1 1", "Cm", "a3", "I", 4),
  SG(9, "Cs^4", "C -2yc", <<"C", " ", "-", "2", "y", "c">>, "C c = C 1 c 1", "C", "C 1 c 1", "Cc", "b1", "C", 4),
  SG(9, "Cs^4", "A -2yac", <<"A", " ", "-", "2", "y", "a", "c">>, "C c = A 1 n 1", "A", "A 1 n 1", "Cc", "b2", "A", 4),
  SG(9, "Cs^4", "I -2ya", <<"I", " ", "-", "2", "y", "a">>, "C c = I 1 a 1", "I", "I 1 a 1", "Cc", "b3", "I", 4),
  SG(9, "Cs^4", "A -2ya", <<"A", " ", "-", "2", "y", "a">>, "C c = A 1 a 1", "A", "A 1 a 1", "Cc", "-b1", "A", 4),
  SG(9, "Cs^4", "C -2ybc", <<"C", " ", "-", "2", "y", "b", "c">>, "C c = C 1 n 1", "C", "C 1 n 1", "Cc", "-b2", "C", 4),
  SG(9, "Cs^4", "I -2yc", <<"I", " ", "-", "2", "y", "c">>, "C c = I 1 c 1", "I", "I 1 c 1", "Cc", "-b3", "I", 4),
  SG(9, "Cs^4", "A -2a", <<"A", " ", "-", "2", "a">>, "C c = A 1 1 a", "A", "A 1 1 a", "Cc", "c1", "A", 4),
  SG(9, "Cs^4", "B -2bc", <<"B", " ", "-", "2", "b", "c">>, "C c = B 1 1 n", "B", "B 1 1 n", "Cc", "c2", "B", 4),
  SG(9, "Cs^4", "I -2b", <<"I", " ", "-", "2", "b">>, "C c = I 1 1 b", "I", "I 1 1 b", "Cc", "c3", "I", 4),
  SG(9, "Cs^4", "B -2b", <<"B", " ", "-", "2", "b">>, "C c = B 1 1 b = B b", "B", "B 1 1 b", "Cc", "-c1", "B", 4),
  SG(9, "Cs^4", "A -2ac", <<"A", " ", "-", "2", "a", "c">>, "C c = A 1 1 n", "A", "A 1 1 n", "Cc", "-c2", "A", 4),
  SG(9, "Cs^4", "I -2a", <<"I", " ", "-", "2", "a">>, "C c = I 1 1 a", "I", "I 1 1 a", "Cc", "-c3", "I", 4),
  SG(9, "Cs^4", "B -2xb", <<"B", " ", "-", "2", "x", "b">>, "C c = B b 1 1", "B", "B b 1 1", "Cc", "a1", "B", 4),
  SG(9, "Cs^4", "C -2xbc", <<"C", " ", "-", "2", "x", "b", "c">>, "C c = C n 1 1", "C", "C n 1 1", "Cc", "a2", "C", 4),
  SG(9, "Cs^4", "I -2xc", <<"I", " ", "-", "2", "x", "c">>, "C c = I c 1 1", "I", "I c 1 1", "Cc", "a3", "I", 4),
  SG(9, "Cs^4", "C -2xc", <<"C", " ", "-", "2", "x", "c">>, "C c = C c 1 1", "C", "C c 1 1", "Cc", "-a1", "C", 4),
  SG(9, "Cs^4", "B -2xbc", <<"B", " ", "-", "2", "x", "b", "c">>, "C c = B n 1 1", "B", "B n 1 1", "Cc", "-a2", "B", 4),
  SG(9, "Cs^4", "I -2xb", <<"I", " ", "-", "2", "x", "b">>, "C c = I b 1 1", "I", "I b 1 1", "Cc", "-a3", "I", 4),
  SG(10, "C2h^1", "-P 2y", <<"-", "P", " ", "2", "y">>, "P 2/m = P 1 2/m 1", "P", "P 1 2/m 1", "P2/m", "b", "P", 5),
  SG(10, "C2h^1", "-P 2", <<"-", "P", " ", "2">>, "P 2/m = P 1 1 2/m", "P", "P 1 1 2/m", "P2/m", "c", "P", 5),
  SG(10, "C2h^1", "-P 2x", <<"-", "P", " ", "2", "x">>, "P 2/m = P 2/m 1 1", "P", "P 2/m 1 1", "P2/m", "a", "P", 5),
  SG(11, "C2h^2", "-P 2yb", <<"-", "P", " ", "2", "y", "b">>, "P 2_1/m = P 1 2_1/m 1", "P", "P 1 2_1/m 1", "P2_1/m", "b", "P", 5),
  SG(11, "C2h^2", "-P 2c", <<"-", "P", " ", "2", "c">>, "P 2_1/m = P 1 1 2_1/m", "P", "P 1 1 2_1/m", "P2_1/m", "c", "P", 5),
  SG(11, "C2h^2", "-P 2xa", <<"-", "P", " ", "2", "x", "a">>, "P 2_1/m = P 2_1/m 1 1", "P", "P 2_1/m 1 1", "P2_1/m", "a", "P", 5),
  SG(12, "C2h^3", "-C 2y", <<"-", "C", " ", "2", "y">>, "C 2/m = C 1 2/m 1", "C", "C 1 2/m 1", "C2/m", "b1", "C", 5),
  SG(12, "C2h^3", "-A 2y", <<"-", "A", " ", "2", "y">>, "C 2/m = A 1 2/m 1", "A", "A 1 2/m 1", "C2/m", "b2", "A", 5),
  SG(12, "C2h^3", "-I 2y", <<"-", "I", " ", "2", "y">>, "C 2/m = I 1 2/m 1", "I", "I 1 2/m 1", "C2/m", "b3", "I", 5),
  SG(12, "C2h^3", "-A 2", <<"-", "A", " ", "2">>, "C 2/m = A 1 1 2/m", "A", "A 1 1 2/m", "C2/m", "c1", "A", 5),
  SG(12, "C2h^3", "-B 2", <<"-", "B", " ", "2">>, "C 2/m = B 1 1 2/m = B 2/m", "B", "B 1 1 2/m", "C2/m", "c2", "B", 5),
  SG(12, "C2h^3", "-I 2", <<"-", "I", " ", "2">>, "C 2/m = I 1 1 2/m", "I", "I 1 1 2/m", "C2/m", "c3", "I", 5),
  SG(12, "C2h^3", "-B 2x", <<"-", "B", " ", "2", "x">>, "C 2/m = B 2/m 1 1", "B", "B 2/m 1 1", "C2/m", "a1", "B", 5),
  SG(12, "C2h^3", "-C 2x", <<"-", "C", " ", "2", "x">>, "C 2/m = C 2/m 1 1", "C", "C 2/m 1 1", "C2/m", "a2", "C", 5),
  SG(12, "C2h^3", "-I 2x", <<"-", "I", " ", "2", "x">>, "C 2/m = I 2/m 1 1", "I", "I 2/m 1 1", "C2/m", "a3", "I", 5),
  SG(13, "C2h^4", "-P 2yc", <<"-", "P", " ", "2", "y", "c">>, "P 2/c = P 1 2/c 1", "P", "P 1 2/c 1", "P2/c", "b1", "P", 5),
  SG(13, "C2h^4", "-P 2yac", <<"-", "P", " ", "2", "y", "a", "c">>, "P 2/c = P 1 2/n 1", "P", "P 1 2/n 1", "P2/c", "b2", "P", 5),
  SG(13, "C2h^4", "-P 2ya", <<"-", "P", " ", "2", "y", "a">>, "P 2/c = P 1 2/a 1", "P", "P 1 2/a 1", "P2/c", "b3", "P", 5),
  SG(13, "C2h^4", "-P 2a", <<"-", "P", " ", "2", "a">>, "P 2/c = P 1 1 2/a", "P", "P 1 1 2/a", "P2/c", "c1", "P", 5),
  SG(13, "C2h^4", "-P 2ab", <<"-", "P", " ", "2", "a", "b">>, "P 2/c = P 1 1 2/n", "P", "P 1 1 2/n", "P2/c", "c2", "P", 5),
  SG(13, "C2h^4", "-P 2b", <<"-", "P", " ", "2", "b">>, "P 2/c = P 1 1 2/b = P 2/b", "P", "P 1 1 2/b", "P2/c", "c3", "P", 5),
  SG(13, "C2h^4", "-P 2xb", <<"-", "P", " ", "2", "x", "b">>, "P 2/c = P 2/b 1 1", "P", "P 2/b 1 1", "P2/c", "a1", "P", 5),
  SG(13, "C2h^4", "-P 2xbc", <<"-", "P", " ", "2", "x", "b", "c">>, "P 2/c = P 2/n 1 1", "P", "P 2/n 1 1", "P2/c", "a2", "P", 5),
  SG(13, "C2h^4", "-P 2xc", <<"-", "P", " ", "2", "x", "c">>, "P 2/c = P 2/c 1 1", "P", "P 2/c 1 1", "P2/c", "a3", "P", 5),
  SG(14, "C2h^5", "-P 2ybc", <<"-", "P", " ", "2", "y", "b", "c">>, "P 2_1/c = P 1 2_1/c 1", "P", "P 1 2_1/c 1", "P2_1/c", "b1", "P", 5),
  SG(14, "C2h^5", "-P 2yn", <<"-", "P", " ", "2", "y", "n">>, "P 2_1/c = P 1 2_1/n 1", "P", "P 1 2_1/n 1", "P2_1/c", "b2", "P", 5),
  SG(14, "C2h^5", "-P 2yab", <<"-", "P", " ", "2", "y", "a", "b">>, "P 2_1/c = P 1 2_1/a 1", "P", "P 1 2_1/a 1", "P2_1/c", "b3", "P", 5),
  SG(14, "C2h^5", "-P 2ac", <<"-", "P", " ", "2", "a", "c">>, "P 2_1/c = P 1 1 2_1/a", "P", "P 1 1 2_1/a", "P2_1/c", "c1", "P", 5),
  SG(14, "C2h^5", "-P 2n", <<"-", "P", " ", "2", "n">>, "P 2_1/c = P 1 1 2_1/n", "P", "P 1 1 2_1/n", "P2_1/c", "c2", "P", 5),
  SG(14, "C2h^5", "-P 2bc", <<"-", "P", " ", "2", "b", "c">>, "P 2_1/c = P 1 1 2_1/b = P 2_1/b", "P", "P 1 1 2_1/b", "P2_1/c", "c3", "P", 5),
  SG(14, "C2h^5", "-P 2xab", <<"-", "P", " ", "2", "x", "a", "b">>, "P 2_1/c = P 2_1/b 1 1", "P", "P 2_1/b 1 1", "P2_1/c", "a1", "P", 5),
  SG(14, "C2h^5", "-P 2xn", <<"-", "P", " ", "2", "x", "n">>, "P 2_1/c = P 2_1/n 1 1", "P", "P 2_1/n 1 1", "P2_1/c", "a2", "P", 5),
  SG(14, "C2h^5", "-P 2xac", <<"-", "P", " ", "2", "x", "a", "c">>, "P 2_1/c = P 2_1/c 1 1", "P", "P 2_1/c 1 1", "P2_1/c", "a3", "P", 5),
  SG(15, "C2h^6", "-C 2yc", <<"-", "C", " ", "2", "y", "c">>, "C 2/c = C 1 2/c 1", "C", "C 1 2/c 1", "C2/c", "b1", "C", 5),
  SG(15, "C2h^6", "-A 2yac", <<"-", "A", " ", "2", "y", "a", "c">>, "C 2/c = A 1 2/n 1", "A", "A 1 2/n 1", "C2/c", "b2", "A", 5),
  SG(15, "C2h^6", "-I 2ya", <<"-", "I", " ", "2", "y", "a">>, "C 2/c = I 1 2/a 1", "I", "I 1 2/a 1", "C2/c", "b3", "I", 5),
  SG(15, "C2h^6", "-A 2ya", <<"-", "A", " ", "2", "y", "a">>, "C 2/c = A 1 2/a 1", "A", "A 1 2/a 1", "C2/c", "-b1", "A", 5),
  SG(15, "C2h^6", "-C 2ybc", <<"-", "C", " ", "2", "y", "b", "c">>, "C 2/c = C 1 2/n 1", "C", "C 1 2/n 1", "C2/c", "-b2", "C", 5),
  SG(15, "C2h^6", "-I 2yc", <<"-", "I", " ", "2", "y", "c">>, "C 2/c = I 1 2/c 1", "I", "I 1 2/c 1", "C2/c", "-b3", "I", 5),
  SG(15, "C2h^6", "-A 2a", <<"-", "A", " ", "2", "a">>, "C 2/c = A 1 1 2/a", "A", "A 1 1 2/a", "C2/c", "c1", "A", 5),
  SG(15, "C2h^6", "-B 2bc", <<"-", "B", " ", "2", "b", "c">>, "C 2/c = B 1 1 2/n", "B", "B 1 1 2/n", "C2/c", "c2", "B", 5),
  SG(15, "C2h^6", "-I 2b", <<"-", "I", " ", "2", "b">>, "C 2/c = I 1 1 2/b", "I", "I 1 1 2/b", "C2/c", "c3", "I", 5),
  SG(15, "C2h^6", "-B 2b", <<"-", "B", " ", "2", "b">>, "C 2/c = B 1 1 2/b = B 2/b", "B", "B 1 1 2/b", "C2/c", "-c1", "B", 5),
  SG(15, "C2h^6", "-A 2ac", <<"-", "A", " ", "2", "a", "c">>, "C 2/c = A 1 1 2/n", "A", "A 1 1 2/n", "C2/c", "-c2", "A", 5),
  SG(15, "C2h^6", "-I 2a", <<"-", "I", " ", "2", "a">>, "C 2/c = I 1 1 2/a", "I", "I 1 1 2/a", "C2/c", "-c3", "I", 5),
  SG(15, "C2h^6", "-B 2xb", <<"-", "B", " ", "2", "x", "b">>, "C 2/c = B 2/b 1 1", "B", "B 2/b 1 1", "C2/c", "a1", "B", 5),
  SG(15, "C2h^6", "-C 2xbc", <<"-", "C", " ", "2", "x", "b", "c">>, "C 2/c = C 2/n 1 1", "C", "C 2/n 1 1", "C2/c", "a2", "C", 5),
  SG(15, "C2h^6", "-I 2xc", <<"-", "I", " ", "2", "x", "c">>, "C 2/c = I 2/c 1 1", "I", "I 2/c 1 1", "C2/c", "a3", "I", 5),
  SG(15, "C2h^6", "-C 2xc", <<"-", "C", " ", "2", "x", "c">>, "C 2/c = C 2/c 1 1", "C", "C 2/c 1 1", "C2/c", "-a1", "C", 5),
  SG(15, "C2h^6", "-B 2xbc", <<"-", "B", " ", "2", "x", "b", "c">>, "C 2/c = B 2/n 1 1", "B", "B 2/n 1 1", "C2/c", "-a2", "B", 5),
  SG(15, "C2h^6", "-I 2xb", <<"-", "I", " ", "2", "x", "b">>, "C 2/c = I 2/b 1 1", "I", "I 2/b 1 1", "C2/c", "-a3", "I", 5),
  SG(16, "D2^1", "P 2 2", <<"P", " ", "2", " ", "2">>, "P 2 2 2", "P", "P 2 2 2", "P222", "", "P", 6),
  SG(17, "D2^2", "P 2c 2", <<"P", " ", "2", "c", " ", "2">>, "P 2 2 2_1", "P", "P 2 2 2_1", "P222_1", "", "P", 6),
  SG(17, "D2^2", "P 2a 2a", <<"P", " ", "2", "a", " ", "2", "a">>, "P 2_1 2 2", "P", "P 2_1 2 2", "P2_122", "cab", "P", 6),
  SG(17, "D2^2", "P 2 2b", <<"P", " ", "2", " ", "2", "b">>, "P 2 2_1 2", "P", "P 2 2_1 2", "P22_12", "bca", "P", 6),
  SG(18, "D2^3", "P 2 2ab", <<"P", " ", "2", " ", "2", "a", "b">>, "P 2_1 2_1 2", "P", "P 2_1 2_1 2", "P2_12_12", "", "P", 6),
  SG(18, "D2^3", "P 2bc 2", <<"P", " ", "2", "b", "c", " ", "2">>, "P 2 2_1 2_1", "P", "P 2 2_1 2_1", "P22_12_1", "cab", "P", 6),
  SG(18, "D2^3", "P 2ac 2ac", <<"P", " ", "2", "a", "c", " ", "2", "a", "c">>, "P 2_1 2 2_1", "P", "P 2_1 2 2_1", "P2_122_1", "bca", "P", 6),
  SG(19, "D2^4", "P 2ac 2ab", <<"P", " ", "2", "a", "c", " ", "2", "a", "b">>, "P 2_1 2_1 2_1", "P", "P 2_1 2_1 2_1", "P2_12_12_1", "", "P", 6),
  SG(20, "D2^5", "C 2c 2", <<"C", " ", "2", "c", " ", "2">>, "C 2 2 2_1", "C", "C 2 2 2_1", "C222_1", "", "C", 6),
  SG(20, "D2^5", "A 2a 2a", <<"A", " ", "2", "a", " ", "2", "a">>, "A 2_1 2 2", "A", "A 2_1 2 2", "A2_122", "cab", "A", 6),
  SG(20, "D2^5", "B 2 2b", <<"B", " ", "2", " ", "2", "b">>, "B 2 2_1 2", "B", "B 2 2_1 2", "B22_12", "bca", "B", 6),
  SG(21, "D2^6", "C 2 2", <<"C", " ", "2", " ", "2">>, "C 2 2 2", "C", "C 2 2 2", "C222", "", "C", 6),
  SG(21, "D2^6", "A 2 2", <<"A", " ", "2", " ", "2">>, "A 2 2 2", "A", "A 2 2 2", "A222", "cab", "A", 6),
  SG(21, "D2^6", "B 2 2", <<"B", " ", "2", " ", "2">>, "B 2 2 2", "B", "B 2 2 2", "B222", "bca", "B", 6),
  SG(22, "D2^7", "F 2 2", <<"F", " ", "2", " ", "2">>, "F 2 2 2", "F", "F 2 2 2", "F222", "", "F", 6),
  SG(23, "D2^8", "I 2 2", <<"I", " ", "2", " ", "2">>, "I 2 2 2", "I", "I 2 2 2", "I222", "", "I", 6),
  SG(24, "D2^9", "I 2b 2c", <<"I", " ", "2", "b", " ", "2", "c">>, "I 2_1 2_1 2_1", "I", "I 2_1 2_1 2_1", "I2_12_12_1", "", "I", 6),
  SG(25, "C2v^1", "P 2 -2", <<"P", " ", "2", " ", "-", "2">>, "P m m 2", "P", "P m m 2", "Pmm2", "", "P", 7),
  SG(25, "C2v^1", "P -2 2", <<"P", " ", "-", "2", " ", "2">>, "P 2 m m", "P", "P 2 m m", "P2mm", "cab", "P", 7),
  SG(25, "C2v^1", "P -2 -2", <<"P", " ", "-", "2", " ", "-", "2">>, "P m 2 m", "P", "P m 2 m", "Pm2m", "bca", "P", 7),
  SG(26, "C2v^2", "P 2c -2", <<"P", " ", "2", "c", " ", "-", "2">>, "P m c 2_1", "P", "P m c 2_1", "Pmc2_1", "", "P", 7),
  SG(26, "C2v^2", "P 2c -2c", <<"P", " ", "2", "c", " ", "-", "2", "c">>, "P c m 2_1", "P", "P c m 2_1", "Pcm2_1", "ba-c", "P", 7),
  SG(26, "C2v^2", "P -2a 2a", <<"P", " ", "-", "2", "a", " ", "2", "a">>, "P 2_1 m a", "P", "P 2_1 m a", "P2_1ma", "cab", "P", 7),
  SG(26, "C2v^2", "P -2 2a", <<"P", " ", "-", "2", " ", "2", "a">>, "P 2_1 a m", "P", "P 2_1 a m", "P2_1am", "-cba", "P", 7),
  SG(26, "C2v^2", "P -2 -2b", <<"P", " ", "-", "2", " ", "-", "2", "b">>, "P b 2_1 m", "P", "P b 2_1 m", "Pb2_1m", "bca", "P", 7),
  SG(26, "C2v^2", "P -2b -2", <<"P", " ", "-", "2", "b", " ", "-", "2">>, "P m 2_1 b", "P", "P m 2_1 b", "Pm2_1b", "a-cb", "P", 7),
  SG(27, "C2v^3", "P 2 -2c", <<"P", " ", "2", " ", "-", "2", "c">>, "P c c 2", "P", "P c c 2", "Pcc2", "", "P", 7),
  SG(27, "C2v^3", "P -2a 2", <<"P", " ", "-", "2", "a", " ", "2">>, "P 2 a a", "P", "P 2 a a", "P2aa", "cab", "P", 7),
  SG(27, "C2v^3", "P -2b -2b", <<"P", " ", "-", "2", "b", " ", "-", "2", "b">>, "P b 2 b", "P", "P b 2 b", "Pb2b", "bca", "P", 7),
  SG(28, "C2v^4", "P 2 -2a", <<"P", " ", "2", " ", "-", "2", "a">>, "P m a 2", "P", "P m a 2", "Pma2", "", "P", 7),
  SG(28, "C2v^4", "P 2 -2b", <<"P", " ", "2", " ", "-", "2", "b">>, "P b m 2", "P", "P b m 2", "Pbm2", "ba-c", "P", 7),
  SG(28, "C2v^4", "P -2b 2", <<"P", " ", "-", "2", "b", " ", "2">>, "P 2 m b", "P", "P 2 m b", "P2mb", "cab", "P", 7),
  SG(28, "C2v^4", "P -2c 2", <<"P", " ", "-", "2", "c", " ", "2">>, "P 2 c m", "P", "P 2 c m", "P2cm", "-cba", "P", 7),
  SG(28, "C2v^4", "P -2c -2c", <<"P", " ", "-", "2", "c", " ", "-", "2", "c">>, "P c 2 m", "P", "P c 2 m", "Pc2m", "bca", "P", 7),
  SG(28, "C2v^4", "P -2a -2a", <<"P", " ", "-", "2", "a", " ", "-", "2", "a">>, "P m 2 a", "P", "P m 2 a", "Pm2a", "a-cb", "P", 7),
  SG(29, "C2v^5", "P 2c -2ac", <<"P", " ", "2", "c", " ", "-", "2", "a", "c">>, "P c a 2_1", "P", "P c a 2_1", "Pca2_1", "", "P", 7),
  SG(29, "C2v^5", "P 2c -2b", <<"P", " ", "2", "c", " ", "-", "2", "b">>, "P b c 2_1", "P", "P b c 2_1", "Pbc2_1", "ba-c", "P", 7),
  SG(29, "C2v^5", "P -2b 2a", <<"P", " ", "-", "2", "b", " ", "2", "a">>, "P 2_1 a b", "P", "P 2_1 a b", "P2_1ab", "cab", "P", 7),
  SG(29, "C2v^5", "P -2ac 2a", <<"P", " ", "-", "2", "a", "c", " ", "2", "a">>, "P 2_1 c a", "P", "P 2_1 c a", "P2_1ca", "-cba", "P", 7),
  SG(29, "C2v^5", "P -2bc -2c", <<"P", " ", "-", "2", "b", "c", " ", "-", "2", "c">>, "P c 2_1 b", "P", "P c 2_1 b", "Pc2_1b", "bca", "P", 7),
  SG(29, "C2v^5", "P -2a -2ab", <<"P", " ", "-", "2", "a", " ", "-", "2", "a", "b">>, "P b 2_1 a", "P", "P b 2_1 a", "Pb2_1a", "a-cb", "P", 7),
  SG(30, "C2v^6", "P 2 -2bc", <<"P", " ", "2", " ", "-", "2", "b", "c">>, "P n c 2", "P", "P n c 2", "Pnc2", "", "P", 7),
  SG(30, "C2v^6", "P 2 -2ac", <<"P", " ", "2", " ", "-", "2", "a", "c">>, "P c n 2", "P", "P c n 2", "Pcn2", "ba-c", "P", 7),
  SG(30, "C2v^6", "P -2ac 2", <<"P", " ", "-", "2", "a", "c", " ", "2">>, "P 2 n a", "P", "P 2 n a", "P2na", "cab", "P", 7),
  SG(30, "C2v^6", "P -2ab 2", <<"P", " ", "-", "2", "a", "b", " ", "2">>, "P 2 a n", "P", "P 2 a n", "P2an", "-cba", "P", 7),
  SG(30, "C2v^6", "P -2ab -2ab", <<"P", " ", "-", "2", "a", "b", " ", "-", "2", "a", "b">>, "P b 2 n", "P", "P b 2 n", "Pb2n", "bca", "P", 7),
  SG(30, "C2v^6", "P -2bc -2bc", <<"P", " ", "-", "2", "b", "c", " ", "-", "2", "b", "c">>, "P n 2 b", "P", "P n 2 b", "Pn2b", "a-cb", "P", 7),
  SG(31, "C2v^7", "P 2ac -2", <<"P", " ", "2", "a", "c", " ", "-", "2">>, "P m n 2_1", "P", "P m n 2_1", "Pmn2_1", "", "P", 7),
  SG(31, "C2v^7", "P 2bc -2bc", <<"P", " ", "2", "b", "c", " ", "-", "2", "b", "c">>, "P n m 2_1", "P", "P n m 2_1", "Pnm2_1", "ba-c", "P", 7),
  SG(31, "C2v^7", "P -2ab 2ab", <<"P", " ", "-", "2", "a", "b", " ", "2", "a", "b">>, "P 2_1 m n", "P", "P 2_1 m n", "P2_1mn", "cab", "P", 7),
  SG(31, "C2v^7", "P -2 2ac", <<"P", " ", "-", "2", " ", "2", "a", "c">>, "P 2_1 n m", "P", "P 2_1 n m", "P2_1nm", "-cba", "P", 7),
  SG(31, "C2v^7", "P -2 -2bc", <<"P", " ", "-", "2", " ", "-", "2", "b", "c">>, "P n 2_1 m", "P", "P n 2_1 m", "Pn2_1m", "bca", "P", 7),
  SG(31, "C2v^7", "P -2ab -2", <<"P", " ", "-", "2", "a", "b", " ", "-", "2">>, "P m 2_1 n", "P", "P m 2_1 n", "Pm2_1n", "a-cb", "P", 7),
  SG(32, "C2v^8", "P 2 -2ab", <<"P", " ", "2", " ", "-", "2", "a", "b">>, "P b a 2", "P", "P b a 2", "Pba2", "", "P", 7),
  SG(32, "C2v^8", "P -2bc 2", <<"P", " ", "-", "2", "b", "c", " ", "2">>, "P 2 c b", "P", "P 2 c b", "P2cb", "cab", "P", 7),
  SG(32, "C2v^8", "P -2ac -2ac", <<"P", " ", "-", "2", "a", "c", " ", "-", "2", "a", "c">>, "P c 2 a", "P", "P c 2 a", "Pc2a", "bca", "P", 7),
  SG(33, "C2v^9", "P 2c -2n", <<"P", " ", "2", "c", " ", "-", "2", "n">>, "P n a 2_1", "P", "P n a 2_1", "Pna2_1", "", "P", 7),
  SG(33, "C2v^9", "P 2c -2ab", <<"P", " ", "2", "c", " ", "-", "2", "a", "b">>, "P b n 2_1", "P", "P b n 2_1", "Pbn2_1", "ba-c", "P", 7),
  SG(33, "C2v^9", "P -2bc 2a", <<"P", " ", "-", "2", "b", "c", " ", "2", "a">>, "P 2_1 n b", "P", "P 2_1 n b", "P2_1nb", "cab", "P", 7),
  SG(33, "C2v^9", "P -2n 2a", <<"P", " ", "-", "2", "n", " ", "2", "a">>, "P 2_1 c n", "P", "P 2_1 c n", "P2_1cn", "-cba", "P", 7),
  SG(33, "C2v^9", "P -2n -2ac", <<"P", " ", "-", "2", "n", " ", "-", "2", "a", "c">>, "P c 2_1 n", "P", "P c 2_1 n", "Pc2_1n", "bca", "P", 7),
  SG(33, "C2v^9", "P -2ac -2n", <<"P", " ", "-", "2", "a", "c", " ", "-", "2", "n">>, "P n 2_1 a", "P", "P n 2_1 a", "Pn2_1a", "a-cb", "P", 7),
  SG(34, "C2v^10", "P 2 -2n", <<"P", " ", "2", " ", "-", "2", "n">>, "P n n 2", "P", "P n n 2", "Pnn2", "", "P", 7),
  SG(34, "C2v^10", "P -2n 2", <<"P", " ", "-", "2", "n", " ", "2">>, "P 2 n n", "P", "P 2 n n", "P2nn", "cab", "P", 7),
  SG(34, "C2v^10", "P -2n -2n", <<"P", " ", "-", "2", "n", " ", "-", "2", "n">>, "P n 2 n", "P", "P n 2 n", "Pn2n", "bca", "P", 7),
  SG(35, "C2v^11", "C 2 -2", <<"C", " ", "2", " ", "-", "2">>, "C m m 2", "C", "C m m 2", "Cmm2", "", "C", 7),
  SG(35, "C2v^11", "A -2 2", <<"A", " ", "-", "2", " ", "2">>, "A 2 m m", "A", "A 2 m m", "A2mm", "cab", "A", 7),
  SG(35, "C2v^11", "B -2 -2", <<"B", " ", "-", "2", " ", "-", "2">>, "B m 2 m", "B", "B m 2 m", "Bm2m", "bca", "B", 7),
  SG(36, "C2v^12", "C 2c -2", <<"C", " ", "2", "c", " ", "-", "2">>, "C m c 2_1", "C", "C m c 2_1", "Cmc2_1", "", "C", 7),
  SG(36, "C2v^12", "C 2c -2c", <<"C", " ", "2", "c", " ", "-", "2", "c">>, "C c m 2_1", "C", "C c m 2_1", "Ccm2_1", "ba-c", "C", 7),
  SG(36, "C2v^12", "A -2a 2a", <<"A", " ", "-", "2", "a", " ", "2", "a">>, "A 2_1 m a", "A", "A 2_1 m a", "A2_1ma", "cab", "A", 7),
  SG(36, "C2v^12", "A -2 2a", <<"A", " ", "-", "2", " ", "2", "a">>, "A 2_1 a m", "A", "A 2_1 a m", "A2_1am", "-cba", "A", 7),
  SG(36, "C2v^12", "B -2 -2b", <<"B", " ", "-", "2", " ", "-", "2", "b">>, "B b 2_1 m", "B", "B b 2_1 m", "Bb2_1m", "bca", "B", 7),
  SG(36, "C2v^12", "B -2b -2", <<"B", " ", "-", "2", "b", " ", "-", "2">>, "B m 2_1 b", "B", "B m 2_1 b", "Bm2_1b", "a-cb", "B", 7),
  SG(37, "C2v^13", "C 2 -2c", <<"C", " ", "2", " ", "-", "2", "c">>, "C c c 2", "C", "C c c 2", "Ccc2", "", "C", 7),
  SG(37, "C2v^13", "A -2a 2", <<"A", " ", "-", "2", "a", " ", "2">>, "A 2 a a", "A", "A 2 a a", "A2aa", "cab", "A", 7),
  SG(37, "C2v^13", "B -2b -2b", <<"B", " ", "-", "2", "b", " ", "-", "2", "b">>, "B b 2 b", "B", "B b 2 b", "Bb2b", "bca", "B", 7),
  SG(38, "C2v^14", "A 2 -2", <<"A", " ", "2", " ", "-", "2">>, "A m m 2", "A", "A m m 2", "Amm2", "", "A", 7),
  SG(38, "C2v^14", "B 2 -2", <<"B", " ", "2", " ", "-", "2">>, "B m m 2", "B", "B m m 2", "Bmm2", "ba-c", "B", 7),
  SG(38, "C2v^14", "B -2 2", <<"B", " ", "-", "2", " ", "2">>, "B 2 m m", "B", "B 2 m m", "B2mm", "cab", "B", 7),
  SG(38, "C2v^14", "C -2 2", <<"C", " ", "-", "2", " ", "2">>, "C 2 m m", "C", "C 2 m m", "C2mm", "-cba", "C", 7),
  SG(38, "C2v^14", "C -2 -2", <<"C", " ", "-", "2", " ", "-", "2">>, "C m 2 m", "C", "C m 2 m", "Cm2m", "bca", "C", 7),
  SG(38, "C2v^14", "A -2 -2", <<"A", " ", "-", "2", " ", "-", "2">>, "A m 2 m", "A", "A m 2 m", "Am2m", "a-cb", "A", 7),
  SG(39, "C2v^15", "A 2 -2c", <<"A", " ", "2", " ", "-", "2", "c">>, "A e m 2", "A", "A e m 2", "Aem2", "", "A", 7),
  SG(39, "C2v^15", "B 2 -2c", <<"B", " ", "2", " ", "-", "2", "c">>, "B m e 2", "B", "B m e 2", "Bme2", "ba-c", "B", 7),
  SG(39, "C2v^15", "B -2c 2", <<"B", " ", "-", "2", "c", " ", "2">>, "B 2 e m", "B", "B 2 e m", "B2em", "cab", "B", 7),
  SG(39, "C2v^15", "C -2b 2", <<"C", " ", "-", "2", "b", " ", "2">>, "C 2 m e", "C", "C 2 m e", "C2me", "-cba", "C", 7),
  SG(39, "C2v^15", "C -2b -2b", <<"C", " ", "-", "2", "b", " ", "-", "2", "b">>, "C m 2 e", "C", "C m 2 e", "Cm2e", "bca", "C", 7),
  SG(39, "C2v^15", "A -2c -2c", <<"A", " ", "-", "2", "c", " ", "-", "2", "c">>, "A e 2 m", "A", "A e 2 m", "Ae2m", "a-cb", "A", 7),
  SG(40, "C2v^16", "A 2 -2a", <<"A", " ", "2", " ", "-", "2", "a">>, "A m a 2", "A", "A m a 2", "Ama2", "", "A", 7),
  SG(40, "C2v^16", "B 2 -2b", <<"B", " ", "2", " ", "-", "2", "b">>, "B b m 2", "B", "B b m 2", "Bbm2", "ba-c", "B", 7),
  SG(40, "C2v^16", "B -2b 2", <<"B", " ", "-", "2", "b", " ", "2">>, "B 2 m b", "B", "B 2 m b", "B2mb", "cab", "B", 7),
  SG(40, "C2v^16", "C -2c 2", <<"C", " ", "-", "2", "c", " ", "2">>, "C 2 c m", "C", "C 2 c m", "C2cm", "-cba", "C", 7),
  SG(40, "C2v^16", "C -2c -2c", <<"C", " ", "-", "2", "c", " ", "-", "2", "c">>, "C c 2 m", "C", "C c 2 m", "Cc2m", "bca", "C", 7),
  SG(40, "C2v^16", "A -2a -2a", <<"A", " ", "-", "2", "a", " ", "-", "2", "a">>, "A m 2 a", "A", "A m 2 a", "Am2a", "a-cb", "A", 7),
  SG(41, "C2v^17", "A 2 -2ac", <<"A", " ", "2", " ", "-", "2", "a", "c">>, "A e a 2", "A", "A e a 2", "Aea2", "", "A", 7),
  SG(41, "C2v^17", "B 2 -2bc", <<"B", " ", "2", " ", "-", "2", "b", "c">>, "B b e 2", "B", "B b e 2", "Bbe2", "ba-c", "B", 7),
  SG(41, "C2v^17", "B -2bc 2", <<"B", " ", "-", "2", "b", "c", " ", "2">>, "B 2 e b", "B", "B 2 e b", "B2eb", "cab", "B", 7),
  SG(41, "C2v^17", "C -2bc 2", <<"C", " ", "-", "2", "b", "c", " ", "2">>, "C 2 c e", "C", "C 2 c e", "C2ce", "-cba", "C", 7),
  SG(41, "C2v^17", "C -2bc -2bc", <<"C", " ", "-", "2", "b", "c", " ", "-", "2", "b", "c">>, "C c 2 e", "C", "C c 2 e", "Cc2e", "bca", "C", 7),
  SG(41, "C2v^17", "A -2ac -2ac", <<"A", " ", "-", "2", "a", "c", " ", "-", "2", "a", "c">>, "A e 2 a", "A", "A e 2 a", "Ae2a", "a-cb", "A", 7),
  SG(42, "C2v^18", "F 2 -2", <<"F", " ", "2", " ", "-", "2">>, "F m m 2", "F", "F m m 2", "Fmm2", "", "F", 7),
  SG(42, "C2v^18", "F -2 2", <<"F", " ", "-", "2", " ", "2">>, "F 2 m m", "F", "F 2 m m", "F2mm", "cab", "F", 7),
  SG(42, "C2v^18", "F -2 -2", <<"F", " ", "-", "2", " ", "-", "2">>, "F m 2 m", "F", "F m 2 m", "Fm2m", "bca", "F", 7),
  SG(43, "C2v^19", "F 2 -2d", <<"F", " ", "2", " ", "-", "2", "d">>, "F d d 2", "F", "F d d 2", "Fdd2", "", "F", 7),
  SG(43, "C2v^19", "F -2d 2", <<"F", " ", "-", "2", "d", " ", "2">>, "F 2 d d", "F", "F 2 d d", "F2dd", "cab", "F", 7),
  SG(43, "C2v^19", "F -2d -2d", <<"F", " ", "-", "2", "d", " ", "-", "2", "d">>, "F d 2 d", "F", "F d 2 d", "Fd2d", "bca", "F", 7),
  SG(44, "C2v^20", "I 2 -2", <<"I", " ", "2", " ", "-", "2">>, "I m m 2", "I", "I m m 2", "Imm2", "", "I", 7),
  SG(44, "C2v^20", "I -2 2", <<"I", " ", "-", "2", " ", "2">>, "I 2 m m", "I", "I 2 m m", "I2mm", "cab", "I", 7),
  SG(44, "C2v^20", "I -2 -2", <<"I", " ", "-", "2", " ", "-", "2">>, "I m 2 m", "I", "I m 2 m", "Im2m", "bca", "I", 7),
  SG(45, "C2v^21", "I 2 -2c", <<"I", " ", "2", " ", "-", "2", "c">>, "I b a 2", "I", "I b a 2", "Iba2", "", "I", 7),
  SG(45, "C2v^21", "I -2a 2", <<"I", " ", "-", "2", "a", " ", "2">>, "I 2 c b", "I", "I 2 c b", "I2cb", "cab", "I", 7),
  SG(45, "C2v^21", "I -2b -2b", <<"I", " ", "-", "2", "b", " ", "-", "2", "b">>, "I c 2 a", "I", "I c 2 a", "Ic2a", "bca", "I", 7),
  SG(46, "C2v^22", "I 2 -2a", <<"I", " ", "2", " ", "-", "2", "a">>, "I m a 2", "I", "I m a 2", "Ima2", "", "I", 7),
  SG(46, "C2v^22", "I 2 -2b", <<"I", " ", "2", " ", "-", "2", "b">>, "I b m 2", "I", "I b m 2", "Ibm2", "ba-c", "I", 7),
  SG(46, "C2v^22", "I -2b 2", <<"I", " ", "-", "2", "b", " ", "2">>, "I 2 m b", "I", "I 2 m b", "I2mb", "cab", "I", 7),
  SG(46, "C2v^22", "I -2c 2", <<"I", " ", "-", "2", "c", " ", "2">>, "I 2 c m", "I", "I 2 c m", "I2cm", "-cba", "I", 7),
  SG(46, "C2v^22", "I -2c -2c", <<"I", " ", "-", "2", "c", " ", "-", "2", "c">>, "I c 2 m", "I", "I c 2 m", "Ic2m", "bca", "I", 7),
  SG(46, "C2v^22", "I -2a -2a", <<"I", " ", "-", "2", "a", " ", "-", "2", "a">>, "I m 2 a", "I", "I m 2 a", "Im2a", "a-cb", "I", 7),
  SG(47, "D2h^1", "-P 2 2", <<"-", "P", " ", "2", " ", "2">>, "P m m m", "P", "P 2/m 2/m 2/m", "Pmmm", "", "P", 8),
  SG(48, "D2h^2", "P 2 2 -1n", <<"P", " ", "2", " ", "2", " ", "-", "1", "n">>, "P n n n", "P", "P 2/n 2/n 2/n", "Pnnn", "1", "P", 8),
  SG(48, "D2h^2", "-P 2ab 2bc", <<"-", "P", " ", "2", "a", "b", " ", "2", "b", "c">>, "P n n n", "P", "P 2/n 2/n 2/n", "Pnnn", "2", "P", 8),
  SG(49, "D2h^3", "-P 2 2c", <<"-", "P", " ", "2", " ", "2", "c">>, "P c c m", "P", "P 2/c 2/c 2/m", "Pccm", "", "P", 8),
  SG(49, "D2h^3", "-P 2a 2", <<"-", "P", " ", "2", "a", " ", "2">>, "P m a a", "P", "P 2/m 2/a 2/a", "Pmaa", "cab", "P", 8),
  SG(49, "D2h^3", "-P 2b 2b", <<"-", "P", " ", "2", "b", " ", "2", "b">>, "P b m b", "P", "P 2/b 2/m 2/b", "Pbmb", "bca", "P", 8),
  SG(50, "D2h^4", "P 2 2 -1ab", <<"P", " ", "2", " ", "2", " ", "-", "1", "a", "b">>, "P b a n", "P", "P 2/b 2/a 2/n", "Pban", "1", "P", 8),
  SG(50, "D2h^4", "-P 2ab 2b", <<"-", "P", " ", "2", "a", "b", " ", "2", "b">>, "P b a n", "P", "P 2/b 2/a 2/n", "Pban", "2", "P", 8),
  SG(50, "D2h^4", "P 2 2 -1bc", <<"P", " ", "2", " ", "2", " ", "-", "1", "b", "c">>, "P n c b", "P", "P 2/n 2/c 2/b", "Pncb", "1cab", "P", 8),
  SG(50, "D2h^4", "-P 2b 2bc", <<"-", "P", " ", "2", "b", " ", "2", "b", "c">>, "P n c b", "P", "P 2/n 2/c 2/b", "Pncb", "2cab", "P", 8),
  SG(50, "D2h^4", "P 2 2 -1ac", <<"P", " ", "2", " ", "2", " ", "-", "1", "a", "c">>, "P c n a", "P", "P 2/c 2/n 2/a", "Pcna", "1bca", "P", 8),
  SG(50, "D2h^4", "-P 2a 2c", <<"-", "P", " ", "2", "a", " ", "2", "c">>, "P c n a", "P", "P 2/c 2/n 2/a", "Pcna", "2bca", "P", 8),
  SG(51, "D2h^5", "-P 2a 2a", <<"-", "P", " ", "2", "a", " ", "2", "a">>, "P m m a", "P", "P 2_1/m 2/m 2/a", "Pmma", "", "P", 8),
  SG(51, "D2h^5", "-P 2b 2", <<"-", "P", " ", "2", "b", " ", "2">>, "P m m b", "P", "P 2/m 2_1/m 2/b", "Pmmb", "ba-c", "P", 8),
  SG(51, "D2h^5", "-P 2 2b", <<"-", "P", " ", "2", " ", "2", "b">>, "P b m m", "P", "P 2/b 2_1/m 2/m", "Pbmm", "cab", "P", 8),
  SG(51, "D2h^5", "-P 2c 2c", <<"-", "P", " ", "2", "c", " ", "2", "c">>, "P c m m", "P", "P 2/c 2/m 2_1/m", "Pcmm", "-cba", "P", 8),
  SG(51, "D2h^5", "-P 2c 2", <<"-", "P", " ", "2", "c", " ", "2">>, "P m c m", "P", "P 2/m 2/c 2_1/m", "Pmcm", "bca", "P", 8),
  SG(51, "D2h^5", "-P 2 2a", <<"-", "P", " ", "2", " ", "2", "a">>, "P m a m", "P", "P 2_1/m 2/a 2/m", "Pmam", "a-cb", "P", 8),
  SG(52, "D2h^6", "-P 2a 2bc", <<"-", "P", " ", "2", "a", " ", "2", "b", "c">>, "P n n a", "P", "P 2/n 2_1/n 2/a", "Pnna", "", "P", 8),
  SG(52, "D2h^6", "-P 2b 2n", <<"-", "P", " ", "2", "b", " ", "2", "n">>, "P n n b", "P", "P 2_1/n 2/n 2/b", "Pnnb", "ba-c", "P", 8),
  SG(52, "D2h^6", "-P 2n 2b", <<"-", "P", " ", "2", "n", " ", "2", "b">>, "P b n n", "P", "P 2/b 2/n 2_1/n", "Pbnn", "cab", "P", 8),
  SG(52, "D2h^6", "-P 2ab 2c", <<"-", "P", " ", "2", "a", "b", " ", "2", "c">>, "P c n n", "P", "P 2/c 2_1/n 2/n", "Pcnn", "-cba", "P", 8),
  SG(52, "D2h^6", "-P 2ab 2n", <<"-", "P", " ", "2", "a", "b", " ", "2", "n">>, "P n c n", "P", "P 2_1/n 2/c 2/n", "Pncn", "bca", "P", 8),
  SG(52, "D2h^6", "-P 2n 2bc", <<"-", "P", " ", "2", "n", " ", "2", "b", "c">>, "P n a n", "P", "P 2/n 2/a 2_1/n", "Pnan", "a-cb", "P", 8),
  SG(53, "D2h^7", "-P 2ac 2", <<"-", "P", " ", "2", "a", "c", " ", "2">>, "P m n a", "P", "P 2/m 2/n 2_1/a", "Pmna", "", "P", 8),
  SG(53, "D2h^7", "-P 2bc 2bc", <<"-", "P", " ", "2", "b", "c", " ", "2", "b", "c">>, "P n m b", "P", "P 2/n 2/m 2_1/b", "Pnmb", "ba-c", "P", 8),
  SG(53, "D2h^7", "-P 2ab 2ab", <<"-", "P", " ", "2", "a", "b", " ", "2", "a", "b">>, "P b m n", "P", "P 2_1/b 2/m 2/n", "Pbmn", "cab", "P", 8),
  SG(53, "D2h^7", "-P 2 2ac", <<"-", "P", " ", "2", " ", "2", "a", "c">>, "P c n m", "P", "P 2_1/c 2/n 2/m", "Pcnm", "-cba", "P", 8),
  SG(53, "D2h^7", "-P 2 2bc", <<"-", "P", " ", "2", " ", "2", "b", "c">>, "P n c m", "P", "P 2/n 2_1/c 2/m", "Pncm", "bca", "P", 8),
  SG(53, "D2h^7", "-P 2ab 2", <<"-", "P", " ", "2", "a", "b", " ", "2">>, "P m a n", "P", "P 2/m 2_1/a 2/n", "Pman", "a-cb", "P", 8),
  SG(54, "D2h^8", "-P 2a 2ac", <<"-", "P", " ", "2", "a", " ", "2", "a", "c">>, "P c c a", "P", "P 2_1/c 2/c 2/a", "Pcca", "", "P", 8),
  SG(54, "D2h^8", "-P 2b 2c", <<"-", "P", " ", "2", "b", " ", "2", "c">>, "P c c b", "P", "P 2/c 2_1/c 2/b", "Pccb", "ba-c", "P", 8),
  SG(54, "D2h^8", "-P 2a 2b", <<"-", "P", " ", "2", "a", " ", "2", "b">>, "P b a a", "P", "P 2/b 2_1/a 2/a", "Pbaa", "cab", "P", 8),
  SG(54, "D2h^8", "-P 2ac 2c", <<"-", "P", " ", "2", "a", "c", " ", "2", "c">>, "P c a a", "P", "P 2/c 2/a 2_1/a", "Pcaa", "-cba", "P", 8),
  SG(54, "D2h^8", "-P 2bc 2b", <<"-", "P", " ", "2", "b", "c", " ", "2", "b">>, "P b c b", "P", "P 2/b 2/c 2_1/b", "Pbcb", "bca", "P", 8),
  SG(54, "D2h^8", "-P 2b 2ab", <<"-", "P", " ", "2", "b", " ", "2", "a", "b">>, "P b a b", "P", "P 2_1/b 2/a 2/b", "Pbab", "a-cb", "P", 8),
  SG(55, "D2h^9", "-P 2 2ab", <<"-", "P", " ", "2", " ", "2", "a", "b">>, "P b a m", "P", "P 2_1/b 2_1/a 2/m", "Pbam", "", "P", 8),
  SG(55, "D2h^9", "-P 2bc 2", <<"-", "P", " ", "2", "b", "c", " ", "2">>, "P m c b", "P", "P 2/m 2_1/c 2_1/b", "Pmcb", "cab", "P", 8),
  SG(55, "D2h^9", "-P 2ac 2ac", <<"-", "P", " ", "2", "a", "c", " ", "2", "a", "c">>, "P c m a", "P", "P 2_1/c 2/m 2_1/a", "Pcma", "bca", "P", 8),
  SG(56, "D2h^10", "-P 2ab 2ac", <<"-", "P", " ", "2", "a", "b", " ", "2", "a", "c">>, "P c c n", "P", "P 2_1/c 2_1/c 2/n", "Pccn", "", "P", 8),
  SG(56, "D2h^10", "-P 2ac 2bc", <<"-", "P", " ", "2", "a", "c", " ", "2", "b", "c">>, "P n a a", "P", "P 2/n 2_1/a 2_1/a", "Pnaa", "cab", "P", 8),
  SG(56, "D2h^10", "-P 2bc 2ab", <<"-", "P", " ", "2", "b", "c", " ", "2", "a", "b">>, "P b n b", "P", "P 2_1/b 2/n 2_1/b", "Pbnb", "bca", "P", 8),
  SG(57, "D2h^11", "-P 2c 2b", <<"-", "P", " ", "2", "c", " ", "2", "b">>, "P b c m", "P", "P 2/b 2_1/c 2_1/m", "Pbcm", "", "P", 8),
  SG(57, "D2h^11", "-P 2c 2ac", <<"-", "P", " ", "2", "c", " ", "2", "a", "c">>, "P c a m", "P", "P 2_1/c 2/a 2_1/m", "Pcam", "ba-c", "P", 8),
  SG(57, "D2h^11", "-P 2ac 2a", <<"-", "P", " ", "2", "a", "c", " ", "2", "a">>, "P m c a", "P", "P 2_1/m 2/c 2_1/a", "Pmca", "cab", "P", 8),
  SG(57, "D2h^11", "-P 2b 2a", <<"-", "P", " ", "2", "b", " ", "2", "a">>, "P m a b", "P", "P 2_1/m 2_1/a 2/b", "Pmab", "-cba", "P", 8),
  SG(57, "D2h^11", "-P 2a 2ab", <<"-", "P", " ", "2", "a", " ", "2", "a", "b">>, "P b m a", "P", "P 2_1/b 2_1/m 2/a", "Pbma", "bca", "P", 8),
  SG(57, "D2h^11", "-P 2bc 2c", <<"-", "P", " ", "2", "b", "c", " ", "2", "c">>, "P c m b", "P", "P 2/c 2_1/m 2_1/b", "Pcmb", "a-cb", "P", 8),
  SG(58, "D2h^12", "-P 2 2n", <<"-", "P", " ", "2", " ", "2", "n">>, "P n n m", "P", "P 2_1/n 2_1/n 2/m", "Pnnm", "", "P", 8),
  SG(58, "D2h^12", "-P 2n 2", <<"-", "P", " ", "2", "n", " ", "2">>, "P m n n", "P", "P 2/m 2_1/n 2_1/n", "Pmnn", "cab", "P", 8),
  SG(58, "D2h^12", "-P 2n 2n", <<"-", "P", " ", "2", "n", " ", "2", "n">>, "P n m n", "P", "P 2_1/n 2/m 2_1/n", "Pnmn", "bca", "P", 8),
  SG(59, "D2h^13", "P 2 2ab -1ab", <<"P", " ", "2", " ", "2", "a", "b", " ", "-", "1", "a", "b">>, "P m m n", "P", "P 2_1/m 2_1/m 2/n", "Pmmn", "1", "P", 8),
  SG(59, "D2h^13", "-P 2ab 2a", <<"-", "P", " ", "2", "a", "b", " ", "2", "a">>, "P m m n", "P", "P 2_1/m 2_1/m 2/n", "Pmmn", "2", "P", 8),
  SG(59, "D2h^13", "P 2bc 2 -1bc", <<"P", " ", "2", "b", "c", " ", "2", " ", "-", "1", "b", "c">>, "P n m m", "P", "P 2/n 2_1/m 2_1/m", "Pnmm", "1cab", "P", 8),
  SG(59, "D2h^13", "-P 2c 2bc", <<"-", "P", " ", "2", "c", " ", "2", "b", "c">>, "P n m m", "P", "P 2/n 2_1/m 2_1/m", "Pnmm", "2cab", "P", 8),
  SG(59, "D2h^13", "P 2ac 2ac -1ac", <<"P", " ", "2", "a", "c", " ", "2", "a", "c", " ", "-", "1", "a", "c">>, "P m n m", "P", "P 2_1/m 2/n 2_1/m", "Pmnm", "1bca", "P", 8),
  SG(59, "D2h^13", "-P 2c 2a", <<"-", "P", " ", "2", "c", " ", "2", "a">>, "P m n m", "P", "P 2_1/m 2/n 2_1/m", "Pmnm", "2bca", "P", 8),
  SG(60, "D2h^14", "-P 2n 2ab", <<"-", "P", " ", "2", "n", " ", "2", "a", "b">>, "P b c n", "P", "P 2_1/b 2/c 2_1/n", "Pbcn", "", "P", 8),
  SG(60, "D2h^14", "-P 2n 2c", <<"-", "P", " ", "2", "n", " ", "2", "c">>, "P c a n", "P", "P 2/c 2_1/a 2_1/n", "Pcan", "ba-c", "P", 8),
  SG(60, "D2h^14", "-P 2a 2n", <<"-", "P", " ", "2", "a", " ", "2", "n">>, "P n c a", "P", "P 2_1/n 2_1/c 2/a", "Pnca", "cab", "P", 8),
  SG(60, "D2h^14", "-P 2bc 2n", <<"-", "P", " ", "2", "b", "c", " ", "2", "n">>, "P n a b", "P", "P 2_1/n 2/a 2_1/b", "Pnab", "-cba", "P", 8),
  SG(60, "D2h^14", "-P 2ac 2b", <<"-", "P", " ", "2", "a", "c", " ", "2", "b">>, "P b n a", "P", "P 2/b 2_1/n 2_1/a", "Pbna", "bca", "P", 8),
  SG(60, "D2h^14", "-P 2b 2ac", <<"-", "P", " ", "2", "b", " ", "2", "a", "c">>, "P c n b", "P", "P 2_1/c 2_1/n 2/b", "Pcnb", "a-cb", "P", 8),
  SG(61, "D2h^15", "-P 2ac 2ab", <<"-", "P", " ", "2", "a", "c", " ", "2", "a", "b">>, "P b c a", "P", "P 2_1/b 2_1/c 2_1/a", "Pbca", "", "P", 8),
  SG(61, "D2h^15", "-P 2bc 2ac", <<"-", "P", " ", "2", "b", "c", " ", "2", "a", "c">>, "P c a b", "P", "P 2_1/c 2_1/a 2_1/b", "Pcab", "ba-c", "P", 8),
  SG(62, "D2h^16", "-P 2ac 2n", <<"-", "P", " ", "2", "a", "c", " ", "2", "n">>, "P n m a", "P", "P 2_1/n 2_1/m 2_1/a", "Pnma", "", "P", 8),
  SG(62, "D2h^16", "-P 2bc 2a", <<"-", "P", " ", "2", "b", "c", " ", "2", "a">>, "P m n b", "P", "P 2_1/m 2_1/n 2_1/b", "Pmnb", "ba-c", "P", 8),
  SG(62, "D2h^16", "-P 2c 2ab", <<"-", "P", " ", "2", "c", " ", "2", "a", "b">>, "P b n m", "P", "P 2_1/b 2_1/n 2_1/m", "Pbnm", "cab", "P", 8),
  SG(62, "D2h^16", "-P 2n 2ac", <<"-", "P", " ", "2", "n", " ", "2", "a", "c">>, "P c m n", "P", "P 2_1/c 2_1/m 2_1/n", "Pcmn", "-cba", "P", 8),
  SG(62, "D2h^16", "-P 2n 2a", <<"-", "P", " ", "2", "n", " ", "2", "a">>, "P m c n", "P", "P 2_1/m 2_1/c 2_1/n", "Pmcn", "bca", "P", 8),
  SG(62, "D2h^16", "-P 2c 2n", <<"-", "P", " ", "2", "c", " ", "2", "n">>, "P n a m", "P", "P 2_1/n 2_1/a 2_1/m", "Pnam", "a-cb", "P", 8),
  SG(63, "D2h^17", "-C 2c 2", <<"-", "C", " ", "2", "c", " ", "2">>, "C m c m", "C", "C 2/m 2/c 2_1/m", "Cmcm", "", "C", 8),
  SG(63, "D2h^17", "-C 2c 2c", <<"-", "C", " ", "2", "c", " ", "2", "c">>, "C c m m", "C", "C 2/c 2/m 2_1/m", "Ccmm", "ba-c", "C", 8),
  SG(63, "D2h^17", "-A 2a 2a", <<"-", "A", " ", "2", "a", " ", "2", "a">>, "A m m a", "A", "A 2_1/m 2/m 2/a", "Amma", "cab", "A", 8),
  SG(63, "D2h^17", "-A 2 2a", <<"-", "A", " ", "2", " ", "2", "a">>, "A m a m", "A", "A 2_1/m 2/a 2/m", "Amam", "-cba", "A", 8),
  SG(63, "D2h^17", "-B 2 2b", <<"-", "B", " ", "2", " ", "2", "b">>, "B b m m", "B", "B 2/b 2_1/m 2/m", "Bbmm", "bca", "B", 8),
  SG(63, "D2h^17", "-B 2b 2", <<"-", "B", " ", "2", "b", " ", "2">>, "B m m b", "B", "B 2/m 2_1/m 2/b", "Bmmb", "a-cb", "B", 8),
  SG(64, "D2h^18", "-C 2bc 2", <<"-", "C", " ", "2", "b", "c", " ", "2">>, "C m c e", "C", "C 2/m 2/c 2_1/e", "Cmce", "", "C", 8),
  SG(64, "D2h^18", "-C 2bc 2bc", <<"-", "C", " ", "2", "b", "c", " ", "2", "b", "c">>, "C c m e", "C", "C 2/c 2/m 2_1/e", "Ccme", "ba-c", "C", 8),
  SG(64, "D2h^18", "-A 2ac 2ac", <<"-", "A", " ", "2", "a", "c", " ", "2", "a", "c">>, "A e m a", "A", "A 2_1/e 2/m 2/a", "Aema", "cab", "A", 8),
  SG(64, "D2h^18", "-A 2 2ac", <<"-", "A", " ", "2", " ", "2", "a", "c">>, "A e a m", "A", "A 2_1/e 2/a 2/m", "Aeam", "-cba", "A", 8),
  SG(64, "D2h^18", "-B 2 2bc", <<"-", "B", " ", "2", " ", "2", "b", "c">>, "B b e m", "B", "B 2/b 2_1/e 2/m", "Bbem", "bca", "B", 8),
  SG(64, "D2h^18", "-B 2bc 2", <<"-", "B", " ", "2", "b", "c", " ", "2">>, "B m e b", "B", "B 2/m 2_1/e 2/b", "Bmeb", "a-cb", "B", 8),
  SG(65, "D2h^19", "-C 2 2", <<"-", "C", " ", "2", " ", "2">>, "C m m m", "C", "C 2/m 2/m 2/m", "Cmmm", "", "C", 8),
  SG(65, "D2h^19", "-A 2 2", <<"-", "A", " ", "2", " ", "2">>, "A m m m", "A", "A 2/m 2/m 2/m", "Ammm", "cab", "A", 8),
  SG(65, "D2h^19", "-B 2 2", <<"-", "B", " ", "2", " ", "2">>, "B m m m", "B", "B 2/m 2/m 2/m", "Bmmm", "bca", "B", 8),
  SG(66, "D2h^20", "-C 2 2c", <<"-", "C", " ", "2", " ", "2", "c">>, "C c c m", "C", "C 2/c 2/c 2/m", "Cccm", "", "C", 8),
  SG(66, "D2h^20", "-A 2a 2", <<"-", "A", " ", "2", "a", " ", "2">>, "A m a a", "A", "A 2/m 2/a 2/a", "Amaa", "cab", "A", 8),
  SG(66, "D2h^20", "-B 2b 2b", <<"-", "B", " ", "2", "b", " ", "2", "b">>, "B b m b", "B", "B 2/b 2/m 2/b", "Bbmb", "bca", "B", 8),
  SG(67, "D2h^21", "-C 2b 2", <<"-", "C", " ", "2", "b", " ", "2">>, "C m m e", "C", "C 2/m 2/m 2/e", "Cmme", "", "C", 8),
  SG(67, "D2h^21", "-C 2b 2b", <<"-", "C", " ", "2", "b", " ", "2", "b">>, "C m m e", "C", "C 2/m 2/m 2/e", "Cmme", "ba-c", "C", 8),
  SG(67, "D2h^21", "-A 2c 2c", <<"-", "A", " ", "2", "c", " ", "2", "c">>, "A e m m", "A", "A 2/e 2/m 2/m", "Aemm", "cab", "A", 8),
  SG(67, "D2h^21", "-A 2 2c", <<"-", "A", " ", "2", " ", "2", "c">>, "A e m m", "A", "A 2/e 2/m 2/m", "Aemm", "-cba", "A", 8),
  SG(67, "D2h^21", "-B 2 2c", <<"-", "B", " ", "2", " ", "2", "c">>, "B m e m", "B", "B 2/m 2/e 2/m", "Bmem", "bca", "B", 8),
  SG(67, "D2h^21", "-B 2c 2", <<"-", "B", " ", "2", "c", " ", "2">>, "B m e m", "B", "B 2/m 2/e 2/m", "Bmem", "a-cb", "B", 8),
  SG(68, "D2h^22", "C 2 2 -1bc", <<"C", " ", "2", " ", "2", " ", "-", "1", "b", "c">>, "C c c e", "C", "C 2/c 2/c 2/e", "Ccce", "1", "C", 8),
  SG(68, "D2h^22", "-C 2b 2bc", <<"-", "C", " ", "2", "b", " ", "2", "b", "c">>, "C c c e", "C", "C 2/c 2/c 2/e", "Ccce", "2", "C", 8),
  SG(68, "D2h^22", "C 2 2 -1bc", <<"C", " ", "2", " ", "2", " ", "-", "1", "b", "c">>, "C c c e", "C", "C 2/c 2/c 2/e", "Ccce", "1ba-c", "C", 8),
  SG(68, "D2h^22", "-C 2b 2c", <<"-", "C", " ", "2", "b", " ", "2", "c">>, "C c c e", "C", "C 2/c 2/c 2/e", "Ccce", "2ba-c", "C", 8),
  SG(68, "D2h^22", "A 2 2 -1ac", <<"A", " ", "2", " ", "2", " ", "-", "1", "a", "c">>, "A e a a", "A", "A 2/e 2/a 2/a", "Aeaa", "1cab", "A", 8),
  SG(68, "D2h^22", "-A 2a 2c", <<"-", "A", " ", "2", "a", " ", "2", "c">>, "A e a a", "A", "A 2/e 2/a 2/a", "Aeaa", "2cab", "A", 8),
  SG(68, "D2h^22", "A 2 2 -1ac", <<"A", " ", "2", " ", "2", " ", "-", "1", "a", "c">>, "A e a a", "A", "A 2/e 2/a 2/a", "Aeaa", "1-cba", "A", 8),
  SG(68, "D2h^22", "-A 2ac 2c", <<"-", "A", " ", "2", "a", "c", " ", "2", "c">>, "A e a a", "A", "A 2/e 2/a 2/a", "Aeaa", "2-cba", "A", 8),
  SG(68, "D2h^22", "B 2 2 -1bc", <<"B", " ", "2", " ", "2", " ", "-", "1", "b", "c">>, "B b e b", "B", "B 2/b 2/e 2/b", "Bbeb", "1bca", "B", 8),
  SG(68, "D2h^22", "-B 2bc 2b", <<"-", "B", " ", "2", "b", "c", " ", "2", "b">>, "B b c b", "B", "B 2/b 2/e 2/b", "Bbcb", "2bca", "B", 8),
  SG(68, "D2h^22", "B 2 2 -1bc", <<"B", " ", "2", " ", "2", " ", "-", "1", "b", "c">>, "B b e b", "B", "B 2/b 2/e 2/b", "Bbeb", "1a-cb", "B", 8),
  SG(68, "D2h^22", "-B 2b 2bc", <<"-", "B", " ", "2", "b", " ", "2", "b", "c">>, "B b e b", "B", "B 2/b 2/e 2/b", "Bbeb", "2a-cb", "B", 8),
  SG(69, "D2h^23", "-F 2 2", <<"-", "F", " ", "2", " ", "2">>, "F m m m", "F", "F 2/m 2/m 2/m", "Fmmm", "", "F", 8),
  SG(70, "D2h^24", "F 2 2 -1d", <<"F", " ", "2", " ", "2", " ", "-", "1", "d">>, "F d d d", "F", "F 2/d 2/d 2/d", "Fddd", "1", "F", 8),
  SG(70, "D2h^24", "-F 2uv 2vw", <<"-", "F", " ", "2", "u", "v", " ", "2", "v", "w">>, "F d d d", "F", "F 2/d 2/d 2/d", "Fddd", "2", "F", 8),
  SG(71, "D2h^25", "-I 2 2", <<"-", "I", " ", "2", " ", "2">>, "I m m m", "I", "I 2/m 2/m 2/m", "Immm", "", "I", 8),
  SG(72, "D2h^26", "-I 2 2c", <<"-", "I", " ", "2", " ", "2", "c">>, "I b a m", "I", "I 2/b 2/a 2/m", "Ibam", "", "I", 8),
  SG(72, "D2h^26", "-I 2a 2", <<"-", "I", " ", "2", "a", " ", "2">>, "I m c b", "I", "I 2/m 2/c 2/b", "Imcb", "cab", "I", 8),
  SG(72, "D2h^26", "-I 2b 2b", <<"-", "I", " ", "2", "b", " ", "2", "b">>, "I c m a", "I", "I 2/c 2/m 2/a", "Icma", "bca", "I", 8),
  SG(73, "D2h^27", "-I 2b 2c", <<"-", "I", " ", "2", "b", " ", "2", "c">>, "I b c a", "I", "I 2/b 2/c 2/a", "Ibca", "", "I", 8),
  SG(73, "D2h^27", "-I 2a 2b", <<"-", "I", " ", "2", "a", " ", "2", "b">>, "I c a b", "I", "I 2/c 2/a 2/b", "Icab", "ba-c", "I", 8),
  SG(74, "D2h^28", "-I 2b 2", <<"-", "I", " ", "2", "b", " ", "2">>, "I m m a", "I", "I 2/m 2/m 2/a", "Imma", "", "I", 8),
  SG(74, "D2h^28", "-I 2a 2a", <<"-", "I", " ", "2", "a", " ", "2", "a">>, "I m m b", "I", "I 2/m 2/m 2/b", "Immb", "ba-c", "I", 8),
  SG(74, "D2h^28", "-I 2c 2c", <<"-", "I", " ", "2", "c", " ", "2", "c">>, "I b m m", "I", "I 2/b 2/m 2/m", "Ibmm", "cab", "I", 8),
  SG(74, "D2h^28", "-I 2 2b", <<"-", "I", " ", "2", " ", "2", "b">>, "I c m m", "I", "I 2/c 2/m 2/m", "Icmm", "-cba", "I", 8),
  SG(74, "D2h^28", "-I 2 2a", <<"-", "I", " ", "2", " ", "2", "a">>, "I m c m", "I", "I 2/m 2/c 2/m", "Imcm", "bca", "I", 8),
  SG(74, "D2h^28", "-I 2c 2", <<"-", "I", " ", "2", "c", " ", "2">>, "I m a m", "I", "I 2/m 2/a 2/m", "Imam", "a-cb", "I", 8),
  SG(75, "C4^1", "P 4", <<"P", " ", "4">>, "P 4", "P", "P 4", "P4", "", "P", 9),
  SG(76, "C4^2", "P 4w", <<"P", " ", "4", "w">>, "P 4_1", "P", "P 4_1", "P4_1", "", "P", 9),
  SG(77, "C4^3", "P 4c", <<"P", " ", "4", "c">>, "P 4_2", "P", "P 4_2", "P4_2", "", "P", 9),
  SG(78, "C4^4", "P 4cw", <<"P", " ", "4", "c", "w">>, "P 4_3", "P", "P 4_3", "P4_3", "", "P", 9),
  SG(79, "C4^5", "I 4", <<"I", " ", "4">>, "I 4", "I", "I 4", "I4", "", "I", 9),
  SG(80, "C4^6", "I 4bw", <<"I", " ", "4", "b", "w">>, "I 4_1", "I", "I 4_1", "I4_1", "", "I", 9),
  SG(81, "S4^1", "P -4", <<"P", " ", "-", "4">>, "P -4", "P", "P -4", "P-4", "", "P", 10),
  SG(82, "S4^2", "I -4", <<"I", " ", "-", "4">>, "I -4", "I", "I -4", "I-4", "", "I", 10),
  SG(83, "C4h^1", "-P 4", <<"-", "P", " ", "4">>, "P 4/m", "P", "P 4/m", "P4/m", "", "P", 11),
  SG(84, "C4h^2", "-P 4c", <<"-", "P", " ", "4", "c">>, "P 4_2/m", "P", "P 4_2/m", "P4_2/m", "", "P", 11),
  SG(85, "C4h^3", "P 4ab -1ab", <<"P", " ", "4", "a", "b", " ", "-", "1", "a", "b">>, "P 4/n", "P", "P 4/n", "P4/n", "1", "P", 11),
  SG(85, "C4h^3", "-P 4a", <<"-", "P", " ", "4", "a">>, "P 4/n", "P", "P 4/n", "P4/n", "2", "P", 11),
  SG(86, "C4h^4", "P 4n -1n", <<"P", " ", "4", "n", " ", "-", "1", "n">>, "P 4_2/n", "P", "P 4_2/n", "P4_2/n", "1", "P", 11),
  SG(86, "C4h^4", "-P 4bc", <<"-", "P", " ", "4", "b", "c">>, "P 4_2/n", "P", "P 4_2/n", "P4_2/n", "2", "P", 11),
  SG(87, "C4h^5", "-I 4", <<"-", "I", " ", "4">>, "I 4/m", "I", "I 4/m", "I4/m", "", "I", 11),
  SG(88, "C4h^6", "I 4bw -1bw", <<"I", " ", "4", "b", "w", " ", "-", "1", "b", "w">>, "I 4_1/a", "I", "I 4_1/a", "I4_1/a", "1", "I", 11),
  SG(88, "C4h^6", "-I 4ad", <<"-", "I", " ", "4", "a", "d">>, "I 4_1/a", "I", "I 4_1/a", "I4_1/a", "2", "I", 11),
  SG(89, "D4^1", "P 4 2", <<"P", " ", "4", " ", "2">>, "P 4 2 2", "P", "P 4 2 2", "P422", "", "P", 12),
  SG(90, "D4^2", "P 4ab 2ab", <<"P", " ", "4", "a", "b", " ", "2", "a", "b">>, "P 4 2_1 2", "P", "P 4 2_1 2", "P42_12", "", "P", 12),
  SG(91, "D4^3", "P 4w 2c", <<"P", " ", "4", "w", " ", "2", "c">>, "P 4_1 2 2", "P", "P 4_1 2 2", "P4_122", "", "P", 12),
  SG(92, "D4^4", "P 4abw 2nw", <<"P", " ", "4", "a", "b", "w", " ", "2", "n", "w">>, "P 4_1 2_1 2", "P", "P 4_1 2_1 2", "P4_12_12", "", "P", 12),
  SG(93, "D4^5", "P 4c 2", <<"P", " ", "4", "c", " ", "2">>, "P 4_2 2 2", "P", "P 4_2 2 2", "P4_222", "", "P", 12),
  SG(94, "D4^6", "P 4n 2n", <<"P", " ", "4", "n", " ", "2", "n">>, "P 4_2 2_1 2", "P", "P 4_2 2_1 2", "P4_22_12", "", "P", 12),
  SG(95, "D4^7", "P 4cw 2c", <<"P", " ", "4", "c", "w", " ", "2", "c">>, "P 4_3 2 2", "P", "P 4_3 2 2", "P4_322", "", "P", 12),
  SG(96, "D4^8", "P 4nw 2abw", <<"P", " ", "4", "n", "w", " ", "2", "a", "b", "w">>, "P 4_3 2_1 2", "P", "P 4_3 2_1 2", "P4_32_12", "", "P", 12),
  SG(97, "D4^9", "I 4 2", <<"I", " ", "4", " ", "2">>, "I 4 2 2", "I", "I 4 2 2", "I422", "", "I", 12),
  SG(98, "D4^10", "I 4bw 2bw", <<"I", " ", "4", "b", "w", " ", "2", "b", "w">>, "I 4_1 2 2", "I", "I 4_1 2 2", "I4_122", "", "I", 12),
  SG(99, "C4v^1", "P 4 -2", <<"P", " ", "4", " ", "-", "2">>, "P 4 m m", "P", "P 4 m m", "P4mm", "", "P", 13),
  SG(100, "C4v^2", "P 4 -2ab", <<"P", " ", "4", " ", "-", "2", "a", "b">>, "P 4 b m", "P", "P 4 b m", "P4bm", "", "P", 13),
  SG(101, "C4v^3", "P 4c -2c", <<"P", " ", "4", "c", " ", "-", "2", "c">>, "P 4_2 c m", "P", "P 4_2 c m", "P4_2cm", "", "P", 13),
  SG(102, "C4v^4", "P 4n -2n", <<"P", " ", "4", "n", " ", "-", "2", "n">>, "P 4_2 n m", "P", "P 4_2 n m", "P4_2nm", "", "P", 13),
  SG(103, "C4v^5", "P 4 -2c", <<"P", " ", "4", " ", "-", "2", "c">>, "P 4 c c", "P", "P 4 c c", "P4cc", "", "P", 13),
  SG(104, "C4v^6", "P 4 -2n", <<"P", " ", "4", " ", "-", "2", "n">>, "P 4 n c", "P", "P 4 n c", "P4nc", "", "P", 13),
  SG(105, "C4v^7", "P 4c -2", <<"P", " ", "4", "c", " ", "-", "2">>, "P 4_2 m c", "P", "P 4_2 m c", "P4_2mc", "", "P", 13),
  SG(106, "C4v^8", "P 4c -2ab", <<"P", " ", "4", "c", " ", "-", "2", "a", "b">>, "P 4_2 b c", "P", "P 4_2 b c", "P4_2bc", "", "P", 13),
  SG(107, "C4v^9", "I 4 -2", <<"I", " ", "4", " ", "-", "2">>, "I 4 m m", "I", "I 4 m m", "I4mm", "", "I", 13),
  SG(108, "C4v^10", "I 4 -2c", <<"I", " ", "4", " ", "-", "2", "c">>, "I 4 c m", "I", "I 4 c m", "I4cm", "", "I", 13),
  SG(109, "C4v^11", "I 4bw -2", <<"I", " ", "4", "b", "w", " ", "-", "2">>, "I 4_1 m d", "I", "I 4_1 m d", "I4_1md", "", "I", 13),
  SG(110, "C4v^12", "I 4bw -2c", <<"I", " ", "4", "b", "w", " ", "-", "2", "c">>, "I 4_1 c d", "I", "I 4_1 c d", "I4_1cd", "", "I", 13),
  SG(111, "D2d^1", "P -4 2", <<"P", " ", "-", "4", " ", "2">>, "P -4 2 m", "P", "P -4 2 m", "P-42m", "", "P", 14),
  SG(112, "D2d^2", "P -4 2c", <<"P", " ", "-", "4", " ", "2", "c">>, "P -4 2 c", "P", "P -4 2 c", "P-42c", "", "P", 14),
  SG(113, "D2d^3", "P -4 2ab", <<"P", " ", "-", "4", " ", "2", "a", "b">>, "P -4 2_1 m", "P", "P -4 2_1 m", "P-42_1m", "", "P", 14),
  SG(114, "D2d^4", "P -4 2n", <<"P", " ", "-", "4", " ", "2", "n">>, "P -4 2_1 c", "P", "P -4 2_1 c", "P-42_1c", "", "P", 14),
  SG(115, "D2d^5", "P -4 -2", <<"P", " ", "-", "4", " ", "-", "2">>, "P -4 m 2", "P", "P -4 m 2", "P-4m2", "", "P", 14),
  SG(116, "D2d^6", "P -4 -2c", <<"P", " ", "-", "4", " ", "-", "2", "c">>, "P -4 c 2", "P", "P -4 c 2", "P-4c2", "", "P", 14),
  SG(117, "D2d^7", "P -4 -2ab", <<"P", " ", "-", "4", " ", "-", "2", "a", "b">>, "P -4 b 2", "P", "P -4 b 2", "P-4b2", "", "P", 14),
  SG(118, "D2d^8", "P -4 -2n", <<"P", " ", "-", "4", " ", "-", "2", "n">>, "P -4 n 2", "P", "P -4 n 2", "P-4n2", "", "P", 14),
  SG(119, "D2d^9", "I -4 -2", <<"I", " ", "-", "4", " ", "-", "2">>, "I -4 m 2", "I", "I -4 m 2", "I-4m2", "", "I", 14),
  SG(120, "D2d^10", "I -4 -2c", <<"I", " ", "-", "4", " ", "-", "2", "c">>, "I -4 c 2", "I", "I -4 c 2", "I-4c2", "", "I", 14),
  SG(121, "D2d^11", "I -4 2", <<"I", " ", "-", "4", " ", "2">>, "I -4 2 m", "I", "I -4 2 m", "I-42m", "", "I", 14),
  SG(122, "D2d^12", "I -4 2bw", <<"I", " ", "-", "4", " ", "2", "b", "w">>, "I -4 2 d", "I", "I -4 2 d", "I-42d", "", "I", 14),
  SG(123, "D4h^1", "-P 4 2", <<"-", "P", " ", "4", " ", "2">>, "P 4/m m m", "P", "P 4/m 2/m 2/m", "P4/mmm", "", "P", 15),
  SG(124, "D4h^2", "-P 4 2c", <<"-", "P", " ", "4", " ", "2", "c">>, "P 4/m c c", "P", "P 4/m 2/c 2/c", "P4/mcc", "", "P", 15),
  SG(125, "D4h^3", "P 4 2 -1ab", <<"P", " ", "4", " ", "2", " ", "-", "1", "a", "b">>, "P 4/n b m", "P", "P 4/n 2/b 2/m", "P4/nbm", "1", "P", 15),
  SG(125, "D4h^3", "-P 4a 2b", <<"-", "P", " ", "4", "a", " ", "2", "b">>, "P 4/n b m", "P", "P 4/n 2/b 2/m", "P4/nbm", "2", "P", 15),
  SG(126, "D4h^4", "P 4 2 -1n", <<"P", " ", "4", " ", "2", " ", "-", "1", "n">>, "P 4/n n c", "P", "P 4/n 2/n 2/c", "P4/nnc", "1", "P", 15),
  SG(126, "D4h^4", "-P 4a 2bc", <<"-", "P", " ", "4", "a", " ", "2", "b", "c">>, "P 4/n n c", "P", "P 4/n 2/n 2/c", "P4/nnc", "2", "P", 15),
  SG(127, "D4h^5", "-P 4 2ab", <<"-", "P", " ", "4", " ", "2", "a", "b">>, "P 4/m b m", "P", "P 4/m 2_1/b m", "P4/mbm", "", "P", 15),
  SG(128, "D4h^6", "-P 4 2n", <<"-", "P", " ", "4", " ", "2", "n">>, "P 4/m n c", "P", "P 4/m 2_1/n c", "P4/mnc", "", "P", 15),
  SG(129, "D4h^7", "P 4ab 2ab -1ab", <<"P", " ", "4", "a", "b", " ", "2", "a", "b", " ", "-", "1", "a", "b">>, "P 4/n m m", "P", "P 4/n 2_1/m m", "P4/nmm", "1", "P", 15),
  SG(129, "D4h^7", "-P 4a 2a", <<"-", "P", " ", "4", "a", " ", "2", "a">>, "P 4/n m m", "P", "P 4/n 2_1/m m", "P4/nmm", "2", "P", 15),
  SG(130, "D4h^8", "P 4ab 2n -1ab", <<"P", " ", "4", "a", "b", " ", "2", "n", " ", "-", "1", "a", "b">>, "P 4/n c c", "P", "P 4/n 2_1/c c", "P4/ncc", "1", "P", 15),
  SG(130, "D4h^8", "-P 4a 2ac", <<"-", "P", " ", "4", "a", " ", "2", "a", "c">>, "P 4/n c c", "P", "P 4/n 2_1/c c", "P4/ncc", "2", "P", 15),
  SG(131, "D4h^9", "-P 4c 2", <<"-", "P", " ", "4", "c", " ", "2">>, "P 4_2/m m c", "P", "P 4_2/m 2/m 2/c", "P4_2/mmc", "", "P", 15),
  SG(132, "D4h^10", "-P 4c 2c", <<"-", "P", " ", "4", "c", " ", "2", "c">>, "P 4_2/m c m", "P", "P 4_2/m 2/c 2/m", "P4_2/mcm", "", "P", 15),
  SG(133, "D4h^11", "P 4n 2c -1n", <<"P", " ", "4", "n", " ", "2", "c", " ", "-", "1", "n">>, "P 4_2/n b c", "P", "P 4_2/n 2/b 2/c", "P4_2/nbc", "1", "P", 15),
  SG(133, "D4h^11", "-P 4ac 2b", <<"-", "P", " ", "4", "a", "c", " ", "2", "b">>, "P 4_2/n b c", "P", "P 4_2/n 2/b 2/c", "P4_2/nbc", "2", "P", 15),
  SG(134, "D4h^12", "P 4n 2 -1n", <<"P", " ", "4", "n", " ", "2", " ", "-", "1", "n">>, "P 4_2/n n m", "P", "P 4_2/n 2/n 2/m", "P4_2/nnm", "1", "P", 15),
  SG(134, "D4h^12", "-P 4ac 2bc", <<"-", "P", " ", "4", "a", "c", " ", "2", "b", "c">>, "P 4_2/n n m", "P", "P 4_2/n 2/n 2/m", "P4_2/nnm", "2", "P", 15),
  SG(135, "D4h^13", "-P 4c 2ab", <<"-", "P", " ", "4", "c", " ", "2", "a", "b">>, "P 4_2/m b c", "P", "P 4_2/m 2_1/b 2/c", "P4_2/mbc", "", "P", 15),
  SG(136, "D4h^14", "-P 4n 2n", <<"-", "P", " ", "4", "n", " ", "2", "n">>, "P 4_2/m n m", "P", "P 4_2/m 2_1/n 2/m", "P4_2/mnm", "", "P", 15),
  SG(137, "D4h^15", "P 4n 2n -1n", <<"P", " ", "4", "n", " ", "2", "n", " ", "-", "1", "n">>, "P 4_2/n m c", "P", "P 4_2/n 2_1/m 2/c", "P4_2/nmc", "1", "P", 15),
  SG(137, "D4h^15", "-P 4ac 2a", <<"-", "P", " ", "4", "a", "c", " ", "2", "a">>, "P 4_2/n m c", "P", "P 4_2/n 2_1/m 2/c", "P4_2/nmc", "2", "P", 15),
  SG(138, "D4h^16", "P 4n 2ab -1n", <<"P", " ", "4", "n", " ", "2", "a", "b", " ", "-", "1", "n">>, "P 4_2/n c m", "P", "P 4_2/n 2_1/c 2/m", "P4_2/ncm", "1", "P", 15),
  SG(138, "D4h^16", "-P 4ac 2ac", <<"-", "P", " ", "4", "a", "c", " ", "2", "a", "c">>, "P 4_2/n c m", "P", "P 4_2/n 2_1/c 2/m", "P4_2/ncm", "2", "P", 15),
  SG(139, "D4h^17", "-I 4 2", <<"-", "I", " ", "4", " ", "2">>, "I 4/m m m", "I", "I 4/m 2/m 2/m", "I4/mmm", "", "I", 15),
  SG(140, "D4h^18", "-I 4 2c", <<"-", "I", " ", "4", " ", "2", "c">>, "I 4/m c m", "I", "I 4/m 2/c 2/m", "I4/mcm", "", "I", 15),
  SG(141, "D4h^19", "I 4bw 2bw -1bw", <<"I", " ", "4", "b", "w", " ", "2", "b", "w", " ", "-", "1", "b", "w">>, "I 4_1/a m d", "I", "I 4_1/a 2/m 2/d", "I4_1/amd", "1", "I", 15),
  SG(141, "D4h^19", "-I 4bd 2", <<"-", "I", " ", "4", "b", "d", " ", "2">>, "I 4_1/a m d", "I", "I 4_1/a 2/m 2/d", "I4_1/amd", "2", "I", 15),
  SG(142, "D4h^20", "I 4bw 2aw -1bw", <<"I", " ", "4", "b", "w", " ", "2", "a", "w", " ", "-", "1", "b", "w">>, "I 4_1/a c d", "I", "I 4_1/a 2/c 2/d", "I4_1/acd", "1", "I", 15),
  SG(142, "D4h^20", "-I 4bd 2c", <<"-", "I", " ", "4", "b", "d", " ", "2", "c">>, "I 4_1/a c d", "I", "I 4_1/a 2/c 2/d", "I4_1/acd", "2", "I", 15),
  SG(143, "C3^1", "P 3", <<"P", " ", "3">>, "P 3", "P", "P 3", "P3", "", "P", 16),
  SG(144, "C3^2", "P 31", <<"P", " ", "3", "1">>, "P 3_1", "P", "P 3_1", "P3_1", "", "P", 16),
  SG(145, "C3^3", "P 32", <<"P", " ", "3", "2">>, "P 3_2", "P", "P 3_2", "P3_2", "", "P", 16),
  SG(146, "C3^4", "R 3", <<"R", " ", "3">>, "R 3", "R", "R 3", "R3", "H", "R", 16),
  SG(146, "C3^4", "P 3*", <<"P", " ", "3", "*">>, "R 3", "R", "R 3", "R3", "R", "P", 16),
  SG(147, "C3i^1", "-P 3", <<"-", "P", " ", "3">>, "P -3", "P", "P -3", "P-3", "", "P", 17),
  SG(148, "C3i^2", "-R 3", <<"-", "R", " ", "3">>, "R -3", "R", "R -3", "R-3", "H", "R", 17),
  SG(148, "C3i^2", "-P 3*", <<"-", "P", " ", "3", "*">>, "R -3", "R", "R -3", "R-3", "R", "P", 17),
  SG(149, "D3^1", "P 3 2", <<"P", " ", "3", " ", "2">>, "P 3 1 2", "P", "P 3 1 2", "P312", "", "P", 18),
  SG(150, "D3^2", "P 3 2\"", <<"P", " ", "3", " ", "2", "\"">>, "P 3 2 1", "P", "P 3 2 1", "P321", "", "P", 18),
  SG(151, "D3^3", "P 31 2c (0 0 1)", <<"P", " ", "3", "1", " ", "2", "c", " ", "(", "0", " ", "0", " ", "1", ")">>, "P 3_1 1 2", "P", "P 3_1 1 2", "P3_112", "", "P", 18),
  SG(152, "D3^4", "P 31 2\"", <<"P", " ", "3", "1", " ", "2", "\"">>, "P 3_1 2 1", "P", "P 3_1 2 1", "P3_121", "", "P", 18),
  SG(153, "D3^5", "P 32 2c (0 0 -1)", <<"P", " ", "3", "2", " ", "2", "c", " ", "(", "0", " ", "0", " ", "-", "1", ")">>, "P 3_2 1 2", "P", "P 3_2 1 2", "P3_212", "", "P", 18),
  SG(154, "D3^6", "P 32 2\"", <<"P", " ", "3", "2", " ", "2", "\"">>, "P 3_2 2 1", "P", "P 3_2 2 1", "P3_221", "", "P", 18),
  SG(155, "D3^7", "R 3 2\"", <<"R", " ", "3", " ", "2", "\"">>, "R 3 2", "R", "R 3 2", "R32", "H", "R", 18),
  SG(155, "D3^7", "P 3* 2", <<"P", " ", "3", "*", " ", "2">>, "R 3 2", "R", "R 3 2", "R32", "R", "P", 18),
  SG(156, "C3v^1", "P 3 -2\"", <<"P", " ", "3", " ", "-", "2", "\"">>, "P 3 m 1", "P", "P 3 m 1", "P3m1", "", "P", 19),
  SG(157, "C3v^2", "P 3 -2", <<"P", " ", "3", " ", "-", "2">>, "P 3 1 m", "P", "P 3 1 m", "P31m", "", "P", 19),
  SG(158, "C3v^3", "P 3 -2\"c", <<"P", " ", "3", " ", "-", "2", "\"", "c">>, "P 3 c 1", "P", "P 3 c 1", "P3c1", "", "P", 19),
  SG(159, "C3v^4", "P 3 -2c", <<"P", " ", "3", " ", "-", "2", "c">>, "P 3 1 c", "P", "P 3 1 c", "P31c", "", "P", 19),
  SG(160, "C3v^5", "R 3 -2\"", <<"R", " ", "3", " ", "-", "2", "\"">>, "R 3 m", "R", "R 3 m", "R3m", "H", "R", 19),
  SG(160, "C3v^5", "P 3* -2", <<"P", " ", "3", "*", " ", "-", "2">>, "R 3 m", "R", "R 3 m", "R3m", "R", "P", 19),
  SG(161, "C3v^6", "R 3 -2\"c", <<"R", " ", "3", " ", "-", "2", "\"", "c">>, "R 3 c", "R", "R 3 c", "R3c", "H", "R", 19),
  SG(161, "C3v^6", "P 3* -2n", <<"P", " ", "3", "*", " ", "-", "2", "n">>, "R 3 c", "R", "R 3 c", "R3c", "R", "P", 19),
  SG(162, "D3d^1", "-P 3 2", <<"-", "P", " ", "3", " ", "2">>, "P -3 1 m", "P", "P -3 1 2/m", "P-31m", "", "P", 20),
  SG(163, "D3d^2", "-P 3 2c", <<"-", "P", " ", "3", " ", "2", "c">>, "P -3 1 c", "P", "P -3 1 2/c", "P-31c", "", "P", 20),
  SG(164, "D3d^3", "-P 3 2\"", <<"-", "P", " ", "3", " ", "2", "\"">>, "P -3 m 1", "P", "P -3 2/m 1", "P-3m1", "", "P", 20),
  SG(165, "D3d^4", "-P 3 2\"c", <<"-", "P", " ", "3", " ", "2", "\"", "c">>, "P -3 c 1", "P", "P -3 2/c 1", "P-3c1", "", "P", 20),
  SG(166, "D3d^5", "-R 3 2\"", <<"-", "R", " ", "3", " ", "2", "\"">>, "R -3 m", "R", "R -3 2/m", "R-3m", "H", "R", 20),
  SG(166, "D3d^5", "-P 3* 2", <<"-", "P", " ", "3", "*", " ", "2">>, "R -3 m", "R", "R -3 2/m", "R-3m", "R", "P", 20),
  SG(167, "D3d^6", "-R 3 2\"c", <<"-", "R", " ", "3", " ", "2", "\"", "c">>, "R -3 c", "R", "R -3 2/c", "R-3c", "H", "R", 20),
  SG(167, "D3d^6", "-P 3* 2n", <<"-", "P", " ", "3", "*", " ", "2", "n">>, "R -3 c", "R", "R -3 2/c", "R-3c", "R", "P", 20),
  SG(168, "C6^1", "P 6", <<"P", " ", "6">>, "P 6", "P", "P 6", "P6", "", "P", 21),
  SG(169, "C6^2", "P 61", <<"P", " ", "6", "1">>, "P 6_1", "P", "P 6_1", "P6_1", "", "P", 21),
  SG(170, "C6^3", "P 65", <<"P", " ", "6", "5">>, "P 6_5", "P", "P 6_5", "P6_5", "", "P", 21),
  SG(171, "C6^4", "P 62", <<"P", " ", "6", "2">>, "P 6_2", "P", "P 6_2", "P6_2", "", "P", 21),
  SG(172, "C6^5", "P 64", <<"P", " ", "6", "4">>, "P 6_4", "P", "P 6_4", "P6_4", "", "P", 21),
  SG(173, "C6^6", "P 6c", <<"P", " ", "6", "c">>, "P 6_3", "P", "P 6_3", "P6_3", "", "P", 21),
  SG(174, "C3h^1", "P -6", <<"P", " ", "-", "6">>, "P -6", "P", "P -6", "P-6", "", "P", 22),
  SG(175, "C6h^1", "-P 6", <<"-", "P", " ", "6">>, "P 6/m", "P", "P 6/m", "P6/m", "", "P", 23),
  SG(176, "C6h^2", "-P 6c", <<"-", "P", " ", "6", "c">>, "P 6_3/m", "P", "P 6_3/m", "P6_3/m", "", "P", 23),
  SG(177, "D6^1", "P 6 2", <<"P", " ", "6", " ", "2">>, "P 6 2 2", "P", "P 6 2 2", "P622", "", "P", 24),
  SG(178, "D6^2", "P 61 2 (0 0 -1)", <<"P", " ", "6", "1", " ", "2", " ", "(", "0", " ", "0", " ", "-", "1", ")">>, "P 6_1 2 2", "P", "P 6_1 2 2", "P6_122", "", "P", 24),
  SG(179, "D6^3", "P 65 2 (0 0 1)", <<"P", " ", "6", "5", " ", "2", " ", "(", "0", " ", "0", " ", "1", ")">>, "P 6_5 2 2", "P", "P 6_5 2 2", "P6_522", "", "P", 24),
  SG(180, "D6^4", "P 62 2c (0 0 1)", <<"P", " ", "6", "2", " ", "2", "c", " ", "(", "0", " ", "0", " ", "1", ")">>, "P 6_2 2 2", "P", "P 6_2 2 2", "P6_222", "", "P", 24),
  SG(181, "D6^5", "P 64 2c (0 0 -1)", <<"P", " ", "6", "4", " ", "2", "c", " ", "(", "0", " ", "0", " ", "-", "1", ")">>, "P 6_4 2 2", "P", "P 6_4 2 2", "P6_422", "", "P", 24),
  SG(182, "D6^6", "P 6c 2c", <<"P", " ", "6", "c", " ", "2", "c">>, "P 6_3 2 2", "P", "P 6_3 2 2", "P6_322", "", "P", 24),
  SG(183, "C6v^1", "P 6 -2", <<"P", " ", "6", " ", "-", "2">>, "P 6 m m", "P", "P 6 m m", "P6mm", "", "P", 25),
  SG(184, "C6v^2", "P 6 -2c", <<"P", " ", "6", " ", "-", "2", "c">>, "P 6 c c", "P", "P 6 c c", "P6cc", "", "P", 25),
  SG(185, "C6v^3", "P 6c -2", <<"P", " ", "6", "c", " ", "-", "2">>, "P 6_3 c m", "P", "P 6_3 c m", "P6_3cm", "", "P", 25),
  SG(186, "C6v^4", "P 6c -2c", <<"P", " ", "6", "c", " ", "-", "2", "c">>, "P 6_3 m c", "P", "P 6_3 m c", "P6_3mc", "", "P", 25),
  SG(187, "D3h^1", "P -6 2", <<"P", " ", "-", "6", " ", "2">>, "P -6 m 2", "P", "P -6 m 2", "P-6m2", "", "P", 26),
  SG(188, "D3h^2", "P -6c 2", <<"P", " ", "-", "6", "c", " ", "2">>, "P -6 c 2", "P", "P -6 c 2", "P-6c2", "", "P", 26),
  SG(189, "D3h^3", "P -6 -2", <<"P", " ", "-", "6", " ", "-", "2">>, "P -6 2 m", "P", "P -6 2 m", "P-62m", "", "P", 26),
  SG(190, "D3h^4", "P -6c -2c", <<"P", " ", "-", "6", "c", " ", "-", "2", "c">>, "P -6 2 c", "P", "P -6 2 c", "P-62c", "", "P", 26),
  SG(191, "D6h^1", "-P 6 2", <<"-", "P", " ", "6", " ", "2">>, "P 6/m m m", "P", "P 6/m 2/m 2/m", "P6/mmm", "", "P", 27),
  SG(192, "D6h^2", "-P 6 2c", <<"-", "P", " ", "6", " ", "2", "c">>, "P 6/m c c", "P", "P 6/m 2/c 2/c", "P6/mcc", "", "P", 27),
  SG(193, "D6h^3", "-P 6c 2", <<"-", "P", " ", "6", "c", " ", "2">>, "P 6_3/m c m", "P", "P 6_3/m 2/c 2/m", "P6_3/mcm", "", "P", 27),
  SG(194, "D6h^4", "-P 6c 2c", <<"-", "P", " ", "6", "c", " ", "2", "c">>, "P 6_3/m m c", "P", "P 6_3/m 2/m 2/c", "P6_3/mmc", "", "P", 27),
  SG(195, "T^1", "P 2 2 3", <<"P", " ", "2", " ", "2", " ", "3">>, "P 2 3", "P", "P 2 3", "P23", "", "P", 28),
  SG(196, "T^2", "F 2 2 3", <<"F", " ", "2", " ", "2", " ", "3">>, "F 2 3", "F", "F 2 3", "F23", "", "F", 28),
  SG(197, "T^3", "I 2 2 3", <<"I", " ", "2", " ", "2", " ", "3">>, "I 2 3", "I", "I 2 3", "I23", "", "I", 28),
  SG(198, "T^4", "P 2ac 2ab 3", <<"P", " ", "2", "a", "c", " ", "2", "a", "b", " ", "3">>, "P 2_1 3", "P", "P 2_1 3", "P2_13", "", "P", 28),
  SG(199, "T^5", "I 2b 2c 3", <<"I", " ", "2", "b", " ", "2", "c", " ", "3">>, "I 2_1 3", "I", "I 2_1 3", "I2_13", "", "I", 28),
  SG(200, "Th^1", "-P 2 2 3", <<"-", "P", " ", "2", " ", "2", " ", "3">>, "P m -3", "P", "P 2/m -3", "Pm-3", "", "P", 29),
  SG(201, "Th^2", "P 2 2 3 -1n", <<"P", " ", "2", " ", "2", " ", "3", " ", "-", "1", "n">>, "P n -3", "P", "P 2/n -3", "Pn-3", "1", "P", 29),
  SG(201, "Th^2", "-P 2ab 2bc 3", <<"-", "P", " ", "2", "a", "b", " ", "2", "b", "c", " ", "3">>, "P n -3", "P", "P 2/n -3", "Pn-3", "2", "P", 29),
  SG(202, "Th^3", "-F 2 2 3", <<"-", "F", " ", "2", " ", "2", " ", "3">>, "F m -3", "F", "F 2/m -3", "Fm-3", "", "F", 29),
  SG(203, "Th^4", "F 2 2 3 -1d", <<"F", " ", "2", " ", "2", " ", "3", " ", "-", "1", "d">>, "F d -3", "F", "F 2/d -3", "Fd-3", "1", "F", 29),
  SG(203, "Th^4", "-F 2uv 2vw 3", <<"-", "F", " ", "2", "u", "v", " ", "2", "v", "w", " ", "3">>, "F d -3", "F", "F 2/d -3", "Fd-3", "2", "F", 29),
  SG(204, "Th^5", "-I 2 2 3", <<"-", "I", " ", "2", " ", "2", " ", "3">>, "I m -3", "I", "I 2/m -3", "Im-3", "", "I", 29),
  SG(205, "Th^6", "-P 2ac 2ab 3", <<"-", "P", " ", "2", "a", "c", " ", "2", "a", "b", " ", "3">>, "P a -3", "P", "P 2_1/a -3", "Pa-3", "", "P", 29),
  SG(206, "Th^7", "-I 2b 2c 3", <<"-", "I", " ", "2", "b", " ", "2", "c", " ", "3">>, "I a -3", "I", "I 2_1/a -3", "Ia-3", "", "I", 29),
  SG(207, "O^1", "P 4 2 3", <<"P", " ", "4", " ", "2", " ", "3">>, "P 4 3 2", "P", "P 4 3 2", "P432", "", "P", 30),
  SG(208, "O^2", "P 4n 2 3", <<"P", " ", "4", "n", " ", "2", " ", "3">>, "P 4_2 3 2", "P", "P 4_2 3 2", "P4_232", "", "P", 30),
  SG(209, "O^3", "F 4 2 3", <<"F", " ", "4", " ", "2", " ", "3">>, "F 4 3 2", "F", "F 4 3 2", "F432", "", "F", 30),
  SG(210, "O^4", "F 4d 2 3", <<"F", " ", "4", "d", " ", "2", " ", "3">>, "F 4_1 3 2", "F", "F 4_1 3 2", "F4_132", "", "F", 30),
  SG(211, "O^5", "I 4 2 3", <<"I", " ", "4", " ", "2", " ", "3">>, "I 4 3 2", "I", "I 4 3 2", "I432", "", "I", 30),
  SG(212, "O^6", "P 4acd 2ab 3", <<"P", " ", "4", "a", "c", "d", " ", "2", "a", "b", " ", "3">>, "P 4_3 3 2", "P", "P 4_3 3 2", "P4_332", "", "P", 30),
  SG(213, "O^7", "P 4bd 2ab 3", <<"P", " ", "4", "b", "d", " ", "2", "a", "b", " ", "3">>, "P 4_1 3 2", "P", "P 4_1 3 2", "P4_132", "", "P", 30),
  SG(214, "O^8", "I 4bd 2c 3", <<"I", " ", "4", "b", "d", " ", "2", "c", " ", "3">>, "I 4_1 3 2", "I", "I 4_1 3 2", "I4_132", "", "I", 30),
  SG(215, "Td^1", "P -4 2 3", <<"P", " ", "-", "4", " ", "2", " ", "3">>, "P -4 3 m", "P", "P -4 3 m", "P-43m", "", "P", 31),
  SG(216, "Td^2", "F -4 2 3", <<"F", " ", "-", "4", " ", "2", " ", "3">>, "F -4 3 m", "F", "F -4 3 m", "F-43m", "", "F", 31),
  SG(217, "Td^3", "I -4 2 3", <<"I", " ", "-", "4", " ", "2", " ", "3">>, "I -4 3 m", "I", "I -4 3 m", "I-43m", "", "I", 31),
  SG(218, "Td^4", "P -4n 2 3", <<"P", " ", "-", "4", "n", " ", "2", " ", "3">>, "P -4 3 n", "P", "P -4 3 n", "P-43n", "", "P", 31),
  SG(219, "Td^5", "F -4c 2 3", <<"F", " ", "-", "4", "c", " ", "2", " ", "3">>, "F -4 3 c", "F", "F -4 3 c", "F-43c", "", "F", 31),
  SG(220, "Td^6", "I -4bd 2c 3", <<"I", " ", "-", "4", "b", "d", " ", "2", "c", " ", "3">>, "I -4 3 d", "I", "I -4 3 d", "I-43d", "", "I", 31),
  SG(221, "Oh^1", "-P 4 2 3", <<"-", "P", " ", "4", " ", "2", " ", "3">>, "P m -3 m", "P", "P 4/m -3 2/m", "Pm-3m", "", "P", 32),
  SG(222, "Oh^2", "P 4 2 3 -1n", <<"P", " ", "4", " ", "2", " ", "3", " ", "-", "1", "n">>, "P n -3 n", "P", "P 4/n -3 2/n", "Pn-3n", "1", "P", 32),
  SG(222, "Oh^2", "-P 4a 2bc 3", <<"-", "P", " ", "4", "a", " ", "2", "b", "c", " ", "3">>, "P n -3 n", "P", "P 4/n -3 2/n", "Pn-3n", "2", "P", 32),
  SG(223, "Oh^3", "-P 4n 2 3", <<"-", "P", " ", "4", "n", " ", "2", " ", "3">>, "P m -3 n", "P", "P 4_2/m -3 2/n", "Pm-3n", "", "P", 32),
  SG(224, "Oh^4", "P 4n 2 3 -1n", <<"P", " ", "4", "n", " ", "2", " ", "3", " ", "-", "1", "n">>, "P n -3 m", "P", "P 4_2/n -3 2/m", "Pn-3m", "1", "P", 32),
  SG(224, "Oh^4", "-P 4bc 2bc 3", <<"-", "P", " ", "4", "b", "c", " ", "2", "b", "c", " ", "3">>, "P n -3 m", "P", "P 4_2/n -3 2/m", "Pn-3m", "2", "P", 32),
  SG(225, "Oh^5", "-F 4 2 3", <<"-", "F", " ", "4", " ", "2", " ", "3">>, "F m -3 m", "F", "F 4/m -3 2/m", "Fm-3m", "", "F", 32),
  SG(226, "Oh^6", "-F 4c 2 3", <<"-", "F", " ", "4", "c", " ", "2", " ", "3">>, "F m -3 c", "F", "F 4/m -3 2/c", "Fm-3c", "", "F", 32),
  SG(227, "Oh^7", "F 4d 2 3 -1d", <<"F", " ", "4", "d", " ", "2", " ", "3", " ", "-", "1", "d">>, "F d -3 m", "F", "F 4_1/d -3 2/m", "Fd-3m", "1", "F", 32),
  SG(227, "Oh^7", "-F 4vw 2vw 3", <<"-", "F", " ", "4", "v", "w", " ", "2", "v", "w", " ", "3">>, "F d -3 m", "F", "F 4_1/d -3 2/m", "Fd-3m", "2", "F", 32),
  SG(228, "Oh^8", "F 4d 2 3 -1cd", <<"F", " ", "4", "d", " ", "2", " ", "3", " ", "-", "1", "c", "d">>, "F d -3 c", "F", "F 4_1/d -3 2/c", "Fd-3c", "1", "F", 32),
  SG(228, "Oh^8", "-F 4cvw 2vw 3", <<"-", "F", " ", "4", "c", "v", "w", " ", "2", "v", "w", " ", "3">>, "F d -3 c", "F", "F 4_1/d -3 2/c", "Fd-3c", "2", "F", 32),
  SG(229, "Oh^9", "-I 4 2 3", <<"-", "I", " ", "4", " ", "2", " ", "3">>, "I m -3 m", "I", "I 4/m -3 2/m", "Im-3m", "", "I", 32),
  SG(230, "Oh^10", "-I 4bd 2c 3", <<"-", "I", " ", "4", "b", "d", " ", "2", "c", " ", "3">>, "I a -3 d", "I", "I 4_1/a -3 2/d", "Ia-3d", "", "I", 32) >>
=============================================================================
