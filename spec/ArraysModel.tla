---------------------------- MODULE ArraysModel ----------------------------
EXTENDS Arrays
CONSTANTS MaxCells, MaxSteps
VARIABLES steps, wrote
Small == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
Init == AInit /\ steps = 0 /\ wrote = <<>>
Fits(n) == Len(mem) + n <= MaxCells
Idle(h) == ~Live(h)
Act(w) == steps < MaxSteps /\ steps' = steps + 1 /\ wrote' = w
New == \E h \in Handles, sh \in Small : Idle(h) /\ Fits(Prod(sh)) /\ Make(h, sh, [k \in 1..Prod(sh) |-> k % 2], TRUE) /\ Act(<<>>)
Alias == \E h, g \in Handles : Idle(h) /\ Live(g) /\ Copy(h, g) /\ Act(<<>>)
OneRow == \E h, g \in Handles, i \in 0..1 : Idle(h) /\ Live(g) /\ i < arr[g].sh[1] /\ View(h, g, i) /\ Act(<<>>)
Corner == \E h, g \in Handles, v \in {<<0, 1>>, <<1, 0>>, <<1, 1>>} : Idle(h) /\ Live(g) /\ ViewFrom(h, g, v) /\ Act(<<>>)
Apart == \E h, g \in Handles : Idle(h) /\ Live(g) /\ Fits(Len(arr[g].cells)) /\ Decouple(h, g) /\ Act(<<>>)
Rowwise == \E h, g \in Handles, idx \in {<<0>>, <<1, 0>>, <<0, 0>>} :
    Idle(h) /\ Live(g) /\ (\A k \in 1..Len(idx) : idx[k] < arr[g].sh[1]) /\ Fits(Len(idx) * arr[g].sh[2]) /\ Extract(h, g, idx) /\ Act(<<>>)
Poke == \E h \in Handles : Live(h) /\ \E s \in {Subs(arr[h].sh)[k] : k \in 1..Prod(arr[h].sh)} :
    /\ SetElem(h, s, 1 - ValAt(h, s))
    /\ Act(<<arr[h].cells[At(arr[h].sh, s)]>>)
Swap == \E h \in Handles : Live(h) /\ arr[h].sh[1] = 2 /\ SwapRows(h, 0, 1) /\ Act(arr[h].cells)
Grow == \E h \in Handles, sh \in Small : Live(h) /\ Resizable(arr[h].sh, sh) /\ Fits(Prod(sh)) /\ Resize(h, sh, 1) /\ Act(<<>>)
Forget == \E h \in Handles : Live(h) /\ Drop(h) /\ Act(<<>>)
Next == New \/ Alias \/ OneRow \/ Corner \/ Apart \/ Rowwise \/ Poke \/ Swap \/ Grow \/ Forget
Spec == Init /\ [][Next]_<<mem, arr, steps, wrote>>
(* an array changes its values only by a write through one of its cells, or by its own replacement *)
Isolated == [][\A h \in Handles :
    (Live(h) /\ arr'[h] = arr[h] /\ \A k \in 1..Len(arr[h].cells) : \A m \in 1..Len(wrote') : wrote'[m] # arr[h].cells[k])
      => \A k \in 1..Len(arr[h].cells) : mem'[arr[h].cells[k]] = mem[arr[h].cells[k]]]_<<mem, arr, steps, wrote>>
(* whoever shares a cell sees the same value through it: Vals are read from the one store *)
Detached == [][\A h, g \in Handles : (Live(g) /\ ~Live(h) /\ arr'[h].live /\ arr'[h].buf # arr'[g].buf /\ arr'[g] = arr[g])
      => \A k \in 1..Len(arr'[h].cells), m \in 1..Len(arr[g].cells) : arr'[h].cells[k] # arr[g].cells[m]]_<<mem, arr, steps, wrote>>
=============================================================================
