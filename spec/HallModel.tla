----------------------------- MODULE HallModel -----------------------------
(* The reader of Hall's symbols, from every short symbol: what was written is what is read, and what a symbol generates is a group. *)
EXTENDS Hall
CONSTANTS Wide
VARIABLES sym, pos, st
vars == <<sym, pos, st>>
S(n, a, t) == [n |-> n, axis |-> a, tran |-> t]
One == {S(n, <<>>, t) : n \in {1, -1, 2, -2, 3, -3, 4, -4, 6, -6}, t \in {<<>>}} \cup {S(4, <<>>, <<"1">>), S(6, <<>>, <<"1">>), S(3, <<>>, <<"2">>), S(2, <<"y">>, <<"b">>), S(-2, <<"x">>, <<"n">>), S(-4, <<>>, <<"a", "d">>)}
Two == {S(2, <<>>, <<>>), S(2, <<>>, <<"c">>), S(-2, <<>>, <<>>), S(2, <<"'">>, <<>>), S(-2, <<"\"">>, <<"n">>), S(2, <<"'", "'">>, <<>>), S(3, <<>>, <<>>), S(2, <<"y">>, <<"1">>), S(4, <<>>, <<>>), S(3, <<"x">>, <<>>), S(2, <<"x", "x">>, <<>>), S(2, <<>>, <<"2">>)}
Lists == {<<>>} \cup {<<a>> : a \in One} \cup {<<a, b>> : a \in One, b \in Two} \cup (IF Wide THEN {<<a, b, c>> : a \in {S(2, <<>>, <<>>), S(4, <<>>, <<"1">>)}, b \in Two, c \in Two} ELSE {})
Lats == IF Wide THEN Letters ELSE {"P", "F", "R"}
Init == \E L \in Lats, cs \in BOOLEAN, y \in Lists, t \in {Z3, <<0, -3, 11>>} :
    sym = [L |-> L, cs |-> cs, syms |-> y, shift |-> t] /\ pos = 1 /\ st = Begin(FALSE)
Text == Written(sym.L, sym.cs, sym.syms, sym.shift)
Next == /\ pos <= Len(Text)
        /\ st' = Read(st, Text[pos])
        /\ pos' = pos + 1
        /\ UNCHANGED sym
Spec == Init /\ [][Next]_vars
Read1 == pos > Len(Text) => LET t == Flush(st) IN t.ok /\ t.L = sym.L /\ t.cs = sym.cs /\ t.syms = sym.syms /\ (t.shift = sym.shift \/ (t.shift = <<>> /\ sym.shift = Z3))
Rots(G) == {g[1] : g \in G}
(* the closure is a group containing the centring; its order is that of its rotations times that of its pure translations *)
Grouped == pos > Len(Text) => LET d == Decode(Text) IN d.ok /\ ~d.vague =>
    LET G == ClosureTo(d.gens, 384)  T == {g \in G : g[1] = I3} IN
    G = {} \/
    /\ E \in G
    /\ \A g \in d.gens : \A x \in G : MMul(x, g) \in G
    /\ \A g \in G : MInv(g) \in G
    /\ Cardinality(G) = Cardinality(Rots(G)) * Cardinality(T)
    /\ {Trans(c) : c \in Centre(d.L)} \subseteq T
    /\ d.cs => M3 \in Rots(G)
    /\ \A g \in G : Iso(g[1]) # 0 \/ Cardinality(Rots(G)) > 48
=============================================================================
