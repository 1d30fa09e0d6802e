------------------------------- MODULE Arrays ------------------------------
(* Arrays which share storage.  mem is a store of cells; an array is a shape together with the cell of   *)
(* each of its elements, in row order of its subscripts.  A view, and a copy of the handle, name cells   *)
(* of their source; detaching operations name new cells.  Writing through any array changes its cells    *)
(* and so every array that names them, and nothing else.  buf says which allocation an array belongs to  *)
(* (an allocation may be shared by arrays that have no cell in common); mut: in-place arithmetic is      *)
(* allowed; zero: the view begins where its allocation begins; plain: row order without gaps.            *)
EXTENDS Subscript, TLC
CONSTANT Handles
VARIABLES mem, arr

NoArr == [live |-> FALSE, sh |-> <<>>, cells |-> <<>>, buf |-> 0, mut |-> FALSE, zero |-> TRUE, plain |-> TRUE]
AInit == mem = <<>> /\ arr = [h \in Handles |-> NoArr]

Subs(sh) == Enumeration(sh, NoFixed(sh))
At(sh, sub) == Dot(sub, RowStride(sh)) + 1                      \* where an element is in row order
Ids(n) == [k \in 1..n |-> Len(mem) + k]
Vals(h) == [k \in 1..Len(arr[h].cells) |-> mem[arr[h].cells[k]]]
ValAt(h, sub) == Vals(h)[At(arr[h].sh, sub)]
Live(h) == arr[h].live
Others(h) == {g \in Handles : g # h /\ Live(g)}
FreshBuf == CHOOSE b \in 1..(Cardinality(Handles) + 1) : \A g \in Handles : Live(g) => arr[g].buf # b

Put(h, r) == arr' = [arr EXCEPT ![h] = r]
Write(cells, vals) ==   \* in order: the last value written to a cell stays
    mem' = [c \in 1..Len(mem) |-> IF \E k \in 1..Len(cells) : cells[k] = c
                                  THEN vals[CHOOSE k \in 1..Len(cells) : cells[k] = c /\ \A m \in (k + 1)..Len(cells) : cells[m] # c]
                                  ELSE mem[c]]
(* a new array with cells of its own *)
Make(h, sh, vals, plain) ==
    /\ mem' = mem \o vals
    /\ Put(h, [live |-> TRUE, sh |-> sh, cells |-> Ids(Len(vals)), buf |-> FreshBuf, mut |-> TRUE, zero |-> TRUE, plain |-> plain])
Share(h, g, sh, cells, mut, zero, plain) ==
    /\ UNCHANGED mem
    /\ Put(h, [live |-> TRUE, sh |-> sh, cells |-> cells, buf |-> arr[g].buf, mut |-> mut, zero |-> zero, plain |-> plain])
Nothing == UNCHANGED <<mem, arr>>

(* ---- selections: which elements *)
SelectFrom(sh, newsh, Map(_)) == [k \in 1..Prod(newsh) |-> At(sh, Map(Unrank(newsh, NoFixed(newsh), k - 1, Len(newsh))))]
RowsOf(sh, idx) ==     \* the rows named by the sequence idx, in that order
    LET rl == Prod(Tail(sh)) IN [k \in 1..(Len(idx) * rl) |-> idx[((k - 1) \div rl) + 1] * rl + ((k - 1) % rl) + 1]
WithRows(sh, n) == <<n>> \o Tail(sh)
Pick(s, at) == [k \in 1..Len(at) |-> s[at[k]]]
Range(i, j) == [k \in 1..(j - i) |-> i + k - 1]
MaskIdx(m) == LET F[k \in 0..Len(m)] == IF k = 0 THEN <<>> ELSE IF m[k] THEN Append(F[k - 1], k - 1) ELSE F[k - 1] IN F[Len(m)]

Copy(h, g) == Share(h, g, arr[g].sh, arr[g].cells, arr[g].mut, arr[g].zero, arr[g].plain)
View(h, g, i) == IF i >= arr[g].sh[1] THEN Nothing
                 ELSE Share(h, g, WithRows(arr[g].sh, 1), Pick(arr[g].cells, RowsOf(arr[g].sh, <<i>>)), FALSE, arr[g].zero /\ i = 0, arr[g].plain)
ViewAll(h, g) == Share(h, g, arr[g].sh, arr[g].cells, FALSE, arr[g].zero, arr[g].plain)
ViewRange(h, g, i, j) ==       \* 0 <= i < j <= rows
    Share(h, g, WithRows(arr[g].sh, j - i), Pick(arr[g].cells, RowsOf(arr[g].sh, Range(i, j))), FALSE, arr[g].zero /\ i = 0, arr[g].plain)
ViewFrom(h, g, v) ==           \* from a corner to the end; subscripts outside the shape do not restrict
    LET sh == arr[g].sh  used == [d \in 1..Len(sh) |-> IF v[d] < sh[d] THEN v[d] ELSE 0]
        nsh == [d \in 1..Len(sh) |-> sh[d] - used[d]]
        Shift(s) == [d \in 1..Len(sh) |-> s[d] + used[d]]
    IN Share(h, g, nsh, Pick(arr[g].cells, SelectFrom(sh, nsh, Shift)), FALSE,
             arr[g].zero /\ \A d \in 1..Len(sh) : used[d] = 0, arr[g].plain /\ \A d \in 2..Len(sh) : used[d] = 0)
Slice(h, g, i) ==              \* one row without its first dimension
    LET sh == arr[g].sh  nsh == IF Len(sh) > 1 THEN Tail(sh) ELSE <<1>> IN
    Share(h, g, nsh, Pick(arr[g].cells, RowsOf(sh, <<i>>)), arr[g].mut, arr[g].zero /\ i = 0, arr[g].plain)
Squeeze(h, g) ==
    LET s == SelectSeq(arr[g].sh, LAMBDA n : n # 1) IN
    Share(h, g, IF s = <<>> THEN <<1>> ELSE s, arr[g].cells, arr[g].mut, arr[g].zero, arr[g].plain)
Extract(h, g, idx) == Make(h, WithRows(arr[g].sh, Len(idx)), Pick(Vals(g), RowsOf(arr[g].sh, idx)), TRUE)
ExtractOne(h, g, i) == Make(h, WithRows(arr[g].sh, 1), Pick(Vals(g), RowsOf(arr[g].sh, <<i>>)), arr[g].plain)
(* Detached from every other array; whether a sole owner hands over its own storage is left open.       *)
Decouple(h, g) == \/ Make(h, arr[g].sh, Vals(g), arr[g].plain)
                  \/ arr[g].mut /\ (\A o \in Others(g) \ {h} : arr[o].buf # arr[g].buf) /\ Copy(h, g)
(* The same elements in the same order; sharing is left open *)
Same(h, g, sh) == \/ Make(h, sh, Vals(g), arr[g].plain)
                  \/ Share(h, g, sh, arr[g].cells, arr[g].mut, arr[g].zero, arr[g].plain)
SameRow(h, g, sh) == \/ Make(h, sh, Vals(g), TRUE)
                     \/ Share(h, g, sh, arr[g].cells, arr[g].mut, arr[g].zero, TRUE)

(* ---- writes *)
Keep == UNCHANGED arr
SetRow(h, i, vals) == Keep /\ Write(Pick(arr[h].cells, RowsOf(arr[h].sh, <<i>>)), vals)
SetElem(h, sub, v) == Keep /\ Write(<<arr[h].cells[At(arr[h].sh, sub)]>>, <<v>>)
Do(op, x, y) == CASE op = "+" -> x + y [] op = "-" -> x - y [] op = "*" -> x * y
InPlace(h, op, ys) == Keep /\ Write(arr[h].cells, [k \in 1..Len(ys) |-> Do(op, Vals(h)[k], ys[k])])
Permute(h, p) == Keep /\ Write(arr[h].cells, Pick(Vals(h), RowsOf(arr[h].sh, p)))
SwapRows(h, a, b) == Permute(h, [k \in 1..arr[h].sh[1] |-> IF k - 1 = a THEN b ELSE IF k - 1 = b THEN a ELSE k - 1])
SwapIn(h, i, a, b) == LET sh == arr[h].sh IN
    Keep /\ Write(<<arr[h].cells[At(sh, <<i, a>>)], arr[h].cells[At(sh, <<i, b>>)]>>, <<ValAt(h, <<i, b>>), ValAt(h, <<i, a>>)>>)
Resizable(old, new) == (\A d \in 1..Len(old) : new[d] <= old[d]) \/ (\A d \in 1..Len(old) : new[d] >= old[d])
Resized(h, new, init) ==
    [k \in 1..Prod(new) |-> LET s == Unrank(new, NoFixed(new), k - 1, Len(new))
                            IN IF \A d \in 1..Len(new) : s[d] < arr[h].sh[d] THEN ValAt(h, s) ELSE init]
Resize(h, new, init) == Make(h, new, Resized(h, new, init), arr[h].plain)
Catable(a, b, d) == Len(a) = Len(b) /\ \A e \in 1..Len(a) : e = d \/ a[e] = b[e]
CatShape(a, b, d) == [e \in 1..Len(a) |-> IF e = d THEN a[e] + b[e] ELSE a[e]]
CatVals(g1, g2, d) ==      \* concatenation along dimension d (counted from 1)
    LET sh == CatShape(arr[g1].sh, arr[g2].sh, d)  n == arr[g1].sh[d] IN
    [k \in 1..Prod(sh) |-> LET s == Unrank(sh, NoFixed(sh), k - 1, Len(sh))
                           IN IF s[d] < n THEN ValAt(g1, s) ELSE ValAt(g2, [s EXCEPT ![d] = @ - n])]
Reshape(h, new) == UNCHANGED mem /\ Put(h, [arr[h] EXCEPT !.sh = new])
Drop(h) == UNCHANGED mem /\ Put(h, NoArr)

(* ---- answers *)
BroadVals(op, g1, g2) == LET t == Triples(arr[g1].sh, arr[g2].sh) IN
    [k \in 1..Len(t) |-> Do(op, ValAt(g1, t[k][2]), ValAt(g2, t[k][3]))]
RECURSIVE FoldSeq(_, _, _)
FoldSeq(f, z, s) == IF s = <<>> THEN z ELSE LET x == Head(s)  r == FoldSeq(f, z, Tail(s)) IN
    CASE f = "sum" -> x + r [] f = "prod" -> x * r [] f = "min" -> (IF Len(s) = 1 \/ x < r THEN x ELSE r)
      [] f = "max" -> (IF Len(s) = 1 \/ x > r THEN x ELSE r)
Along(h, d, f) == LET sh == arr[h].sh  o == [sh EXCEPT ![d] = 1] IN
    [k \in 1..Prod(o) |-> LET s == Unrank(o, NoFixed(o), k - 1, Len(o)) IN
        FoldSeq(f, IF f = "prod" THEN 1 ELSE 0, [i \in 1..sh[d] |-> ValAt(h, [s EXCEPT ![d] = i - 1])])]
Holds(c, x, y) == CASE c = "lt" -> x < y [] c = "gt" -> x > y [] c = "le" -> x <= y [] c = "ge" -> x >= y
                    [] c = "eq" -> x = y [] c = "neq" -> x # y
Row(h, i) == Pick(Vals(h), RowsOf(arr[h].sh, <<i>>))
Rows(h) == [i \in 1..arr[h].sh[1] |-> Row(h, i - 1)]
Positions(n, P(_)) == LET F[k \in 0..n] == IF k = 0 THEN <<>> ELSE IF P(k) THEN Append(F[k - 1], k - 1) ELSE F[k - 1] IN F[n]
FirstOf(s, none) == IF s = <<>> THEN none ELSE Head(s)
LastOf(s, none) == IF s = <<>> THEN none ELSE s[Len(s)]
FirstEqual(rows, i) == CHOOSE j \in 1..i : rows[j] = rows[i] /\ \A m \in 1..(j - 1) : rows[m] # rows[i]
IsPermutation(a, b) == \A x \in {a[i] : i \in 1..Len(a)} \cup {b[i] : i \in 1..Len(b)} :
    Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ IsPermutation(a, b)

(* ---- what must always be true of the store *)
Sound == \A h \in Handles : Live(h) =>
    /\ Len(arr[h].cells) = Prod(arr[h].sh)
    /\ \A k \in 1..Len(arr[h].cells) : arr[h].cells[k] \in 1..Len(mem)
    /\ \A k, m \in 1..Len(arr[h].cells) : k # m => arr[h].cells[k] # arr[h].cells[m]
    /\ \A g \in Others(h) : (\E k \in 1..Len(arr[h].cells), m \in 1..Len(arr[g].cells) : arr[h].cells[k] = arr[g].cells[m]) => arr[h].buf = arr[g].buf
=============================================================================
