---------------------------- MODULE ArraysTrace ----------------------------
EXTENDS Arrays, TraceBase
vars == <<mem, arr, l>>
ok == ~Ev.error
(* every live array, as read back through subscripts, iteration and pointers, is what the store says *)
Seen == /\ {Ev.live[k].h : k \in 1..Len(Ev.live)} = {h \in Handles : arr'[h].live}
        /\ \A k \in 1..Len(Ev.live) : LET e == Ev.live[k]  a == arr'[e.h] IN
             /\ e.sh = a.sh
             /\ e.v = [m \in 1..Len(a.cells) |-> mem'[a.cells[m]]]
             /\ e.same
Refused == Ev.error /\ Nothing
TNew == IsEvent("New") /\ ok /\ Make(Ev.h, Ev.sh, Ev.v, ~Ev.col \/ Prod(Ev.sh) <= 1) /\ Seen
TCopy == IsEvent("Copy") /\ ok /\ Copy(Ev.h, Ev.g) /\ Seen
TView == IsEvent("View") /\ (IF Ev.i >= arr[Ev.g].sh[1] THEN Refused ELSE ok /\ View(Ev.h, Ev.g, Ev.i)) /\ Seen
TViewAll == IsEvent("ViewAll") /\ ok /\ ViewAll(Ev.h, Ev.g) /\ Seen
TRange == IsEvent("Range") /\ (IF Ev.j > arr[Ev.g].sh[1] \/ Ev.i > Ev.j THEN Refused ELSE ok /\ ViewRange(Ev.h, Ev.g, Ev.i, Ev.j)) /\ Seen
TFrom == IsEvent("From") /\ ok /\ ViewFrom(Ev.h, Ev.g, Ev.v) /\ Seen
TSlice == IsEvent("Slice") /\ (IF Ev.i >= arr[Ev.g].sh[1] THEN Refused ELSE ok /\ Slice(Ev.h, Ev.g, Ev.i)) /\ Seen
TSqueeze == IsEvent("Squeeze") /\ ok /\ Squeeze(Ev.h, Ev.g) /\ Seen
TExtract == IsEvent("Extract") /\
    (IF \E k \in 1..Len(Ev.idx) : ~Inside(Ev.idx[k], arr[Ev.g].sh[1]) THEN Refused ELSE ok /\ Extract(Ev.h, Ev.g, Ev.idx)
    ) /\ Seen
TExtractOne == IsEvent("ExtractOne") /\
    (IF Ev.i >= arr[Ev.g].sh[1] THEN Refused ELSE ok /\ ExtractOne(Ev.h, Ev.g, Ev.i)
    ) /\ Seen
TMask == IsEvent("Mask") /\
    (IF Len(Ev.mask) > arr[Ev.g].sh[1] THEN Refused ELSE ok /\ Extract(Ev.h, Ev.g, MaskIdx(Ev.mask))
    ) /\ Seen
TDecouple == IsEvent("Decouple") /\ ok /\ Decouple(Ev.h, Ev.g) /\ Seen
(* arrays which have a dimension of one element need not know that they have no gaps *)
Thick(sh) == \A d \in 1..Len(sh) : sh[d] > 1
TContig == IsEvent("Contig") /\ ok /\ Same(Ev.h, Ev.g, arr[Ev.g].sh) /\ (Thick(arr[Ev.g].sh) => Ev.contiguous) /\ Seen
TRowContig == IsEvent("RowContig") /\ ok /\ SameRow(Ev.h, Ev.g, arr[Ev.g].sh) /\ (Thick(arr[Ev.g].sh) => Ev.contiguous) /\ Ev.row /\ Seen
TConv == IsEvent("Conv") /\ ok /\ Make(Ev.h, arr[Ev.g].sh, Vals(Ev.g), TRUE) /\ Seen
TTo2 == IsEvent("To2") /\ ok /\ SameRow(Ev.h, Ev.g, <<arr[Ev.g].sh[1], Prod(Tail(arr[Ev.g].sh))>>) /\ Seen
TToN == IsEvent("ToN") /\ ok /\ SameRow(Ev.h, Ev.g, Ev.sh) /\ Seen
TSetRow == IsEvent("SetRow") /\
    (IF Len(Ev.v) # Prod(Tail(arr[Ev.h].sh)) THEN Refused ELSE ok /\ SetRow(Ev.h, Ev.i, Ev.v)
    ) /\ Seen
(* a row given by another array: the first row of that array *)
TSetFrom == IsEvent("SetFrom") /\
    (IF Tail(arr[Ev.g].sh) # Tail(arr[Ev.h].sh) THEN Refused ELSE ok /\ SetRow(Ev.h, Ev.i, Row(Ev.g, 0))
    ) /\ Seen
TSetElem == IsEvent("SetElem") /\ ok /\ SetElem(Ev.h, Ev.sub, Ev.x) /\ Seen
TScalar == IsEvent("Scalar") /\
    (IF ~arr[Ev.h].mut THEN Refused ELSE ok /\ InPlace(Ev.h, Ev.op, [k \in 1..Len(arr[Ev.h].cells) |-> Ev.x])
    ) /\ Seen
TInPlace == IsEvent("InPlace") /\
    (IF ~arr[Ev.h].mut \/ ~Compatible(arr[Ev.h].sh, arr[Ev.g].sh) \/ Outer(arr[Ev.h].sh, arr[Ev.g].sh) # arr[Ev.h].sh THEN Refused
    ELSE ok /\ LET t == Triples(arr[Ev.h].sh, arr[Ev.g].sh) IN InPlace(Ev.h, Ev.op, [k \in 1..Len(t) |-> ValAt(Ev.g, t[k][3])])
    ) /\ Seen
TBin == IsEvent("Bin") /\
    (IF ~Compatible(arr[Ev.g].sh, arr[Ev.k].sh) THEN Refused
    ELSE ok /\ Make(Ev.h, Outer(arr[Ev.g].sh, arr[Ev.k].sh), BroadVals(Ev.op, Ev.g, Ev.k), TRUE)
    ) /\ Seen
TBinScalar == IsEvent("BinScalar") /\ ok /\
    (Make(Ev.h, arr[Ev.g].sh, [k \in 1..Len(arr[Ev.g].cells) |-> IF Ev.left THEN Do(Ev.op, Ev.x, Vals(Ev.g)[k]) ELSE Do(Ev.op, Vals(Ev.g)[k], Ev.x)], arr[Ev.g].plain)
    ) /\ Seen
TResize == IsEvent("Resize") /\
    (IF ~Resizable(arr[Ev.h].sh, Ev.sh) THEN Refused
    ELSE IF Ev.error THEN ~arr[Ev.h].zero /\ Nothing ELSE Resize(Ev.h, Ev.sh, Ev.x)
    ) /\ Seen
TAppend == IsEvent("Append") /\
    (IF ~Catable(arr[Ev.h].sh, arr[Ev.g].sh, Ev.d + 1) THEN Refused
    ELSE IF Ev.error THEN ~arr[Ev.h].zero /\ Nothing
    ELSE Make(Ev.h, CatShape(arr[Ev.h].sh, arr[Ev.g].sh, Ev.d + 1), CatVals(Ev.h, Ev.g, Ev.d + 1), arr[Ev.h].plain)
    ) /\ Seen
TCat == IsEvent("Cat") /\
    (IF ~Catable(arr[Ev.g].sh, arr[Ev.k].sh, Ev.d + 1) THEN Refused
    ELSE IF Ev.error THEN ~arr[Ev.g].zero /\ Nothing     \* only where the first part begins inside its allocation
    ELSE Make(Ev.h, CatShape(arr[Ev.g].sh, arr[Ev.k].sh, Ev.d + 1), CatVals(Ev.g, Ev.k, Ev.d + 1), arr[Ev.g].plain)
    ) /\ Seen
TReshape == IsEvent("Reshape") /\ ok /\ arr[Ev.h].plain /\ Reshape(Ev.h, Ev.sh) /\ Seen
(* the rows of a list are single elements: exchanging them may be refused *)
MayRefuse(h, A) == IF Ev.error THEN Len(arr[h].sh) = 1 /\ Nothing ELSE A
TPermute == IsEvent("Permute") /\ MayRefuse(Ev.h, Permute(Ev.h, Ev.p)) /\ Seen
TSwap == IsEvent("Swap") /\ MayRefuse(Ev.h, SwapRows(Ev.h, Ev.a, Ev.b)) /\ Seen
TSwapIn == IsEvent("SwapIn") /\ ok /\ SwapIn(Ev.h, Ev.i, Ev.a, Ev.b) /\ Seen
TDrop == IsEvent("Drop") /\ ok /\ Drop(Ev.h) /\ Seen

(* questions: the arrays are not changed by them *)
TAsk == IsEvent("Ask") /\ ok /\ Nothing /\ Seen /\
    LET h == Ev.h  sh == arr[h].sh  v == Vals(h)  n == Len(v) IN
    /\ \A d \in 1..Len(sh) : /\ Ev.sum[d] = Along(h, d, "sum") /\ Ev.prod[d] = Along(h, d, "prod")
                             /\ Ev.min[d] = Along(h, d, "min") /\ Ev.max[d] = Along(h, d, "max")
    /\ Ev.neg = [k \in 1..n |-> -v[k]]
    /\ Ev.round = v
    /\ Ev.is = [k \in 1..n |-> Holds(Ev.cmp, v[k], Ev.x)]
    /\ SameBag(Ev.lin, v) /\ (arr[h].plain => Ev.lin = v)
    /\ LET f == Positions(n, LAMBDA k : Holds(Ev.cmp, Ev.lin[k], Ev.x)) IN
         /\ Ev.find = f /\ Ev.first = FirstOf(f, n) /\ Ev.last = LastOf(f, n) /\ Ev.count = Len(f)
         /\ Ev.any = (f # <<>>) /\ Ev.all = (Len(f) = n)
    /\ LET f == Positions(n, LAMBDA k : Ev.lin[k] = Ev.x) IN
         /\ Ev.firstv = FirstOf(f, n) /\ Ev.lastv = LastOf(f, n) /\ Ev.countv = Len(f) /\ Ev.anyv = (f # <<>>) /\ Ev.allv = (Len(f) = n)
    /\ LET f == Positions(n, LAMBDA k : Ev.lin[k] # 0) IN
         /\ Ev.firstt = FirstOf(f, n) /\ Ev.lastt = LastOf(f, n) /\ Ev.countt = Len(f) /\ Ev.anyt = (f # <<>>) /\ Ev.allt = (Len(f) = n)
    /\ Ev.list = v
TAskRows == IsEvent("AskRows") /\ ok /\ Nothing /\ Seen /\    \* two-dimensional arrays
    LET h == Ev.h  r == Rows(h)  n == Len(r) IN
    /\ Ev.unique = [i \in 1..n |-> FirstEqual(r, i) = i]
    /\ Ev.uidx = [i \in 1..n |-> FirstEqual(r, i) - 1]
    /\ Ev.ushape = <<Cardinality({i \in 1..n : FirstEqual(r, i) = i}), arr[h].sh[2]>>
    /\ Ev.urows = LET F[i \in 0..n] == IF i = 0 THEN <<>> ELSE IF FirstEqual(r, i) = i THEN F[i - 1] \o r[i] ELSE F[i - 1] IN F[n]
    /\ Ev.sumall = FoldSeq("sum", 0, Vals(h)) /\ Ev.prodall = FoldSeq("prod", 1, Vals(h))
    /\ Ev.dots = [i \in 1..n |-> FoldSeq("sum", 0, [c \in 1..arr[h].sh[2] |-> r[1][c] * r[i][c]])]
    /\ Ev.rowis = [i \in 1..n |-> r[i] = Ev.row]
    /\ Ev.eachis = [k \in 1..Len(Vals(h)) |-> Holds(Ev.cmp, Vals(h)[k], Ev.each[k])]
    /\ \A i \in 1..n : Ev.matchplus[i] = (r[1] = [c \in 1..arr[h].sh[2] |-> r[i][c] + Ev.x])
TAskPair == IsEvent("AskPair") /\ Nothing /\ Seen /\
    LET h == Ev.h  g == Ev.g  r == Rows(h)  q == Rows(g) IN
    IF arr[h].sh[2] # arr[g].sh[2] \/ (arr[g].sh[1] # 1 /\ arr[g].sh[1] # arr[h].sh[1]) THEN Ev.error
    ELSE /\ ok
         /\ LET Other(i) == IF Len(q) = 1 THEN q[1] ELSE q[i]
                f == Positions(Len(r), LAMBDA i : r[i] = Other(i))
            IN /\ Ev.find = f /\ Ev.first = FirstOf(f, Len(r)) /\ Ev.last = LastOf(f, Len(r)) /\ Ev.count = Len(f)
               /\ Ev.rowis = [i \in 1..Len(r) |-> r[i] = Other(i)]
               /\ Ev.is = [k \in 1..Len(Vals(h)) |-> Holds(Ev.cmp, Vals(h)[k], Other(((k - 1) \div arr[h].sh[2]) + 1)[((k - 1) % arr[h].sh[2]) + 1])]
               /\ Ev.equal = (Len(f) = Len(r))
         /\ arr[h].sh = arr[g].sh =>
              /\ Ev.isperm = IsPermutation(r, q)
              /\ Ev.differ = (r # q)
              /\ IsPermutation(r, q) => /\ {Ev.perm[i] : i \in 1..Len(r)} = 0..(Len(r) - 1)
                                        /\ \A i \in 1..Len(r) : q[Ev.perm[i] + 1] = r[i]
TReset == IsEvent("Reset") /\ mem' = <<>> /\ arr' = [h \in Handles |-> NoArr]
TInit == AInit /\ TraceBaseInit
TSpec == TInit /\ [][TReset \/ TNew \/ TCopy \/ TView \/ TViewAll \/ TRange \/ TFrom \/ TSlice \/ TSqueeze \/ TExtract \/ TExtractOne \/ TMask
    \/ TDecouple \/ TContig \/ TRowContig \/ TConv \/ TTo2 \/ TToN \/ TSetRow \/ TSetFrom \/ TSetElem \/ TScalar \/ TInPlace \/ TBin
    \/ TBinScalar \/ TResize \/ TAppend \/ TCat \/ TReshape \/ TPermute \/ TSwap \/ TSwapIn \/ TDrop \/ TAsk \/ TAskRows \/ TAskPair]_vars
=============================================================================
