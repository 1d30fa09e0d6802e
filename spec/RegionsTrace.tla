---------------------------- MODULE RegionsTrace ----------------------------
(* Work done again and again by different numbers of threads: what came out the first time, with one thread, comes out   *)
(* every time, up to the rounding of sums.  Interpolation gives three lists: values, vectors, and what remains of both    *)
(* when the order of the modes and the phases of the vectors are forgotten.  On one grid all three are the same; on       *)
(* another grid built in the same way, the points of which may be numbered otherwise, the last is.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceBase
VARIABLES known
vars == <<l, known>>
TInit == TraceBaseInit /\ known = <<>>
TReset == IsEvent("Reset") /\ known' = <<>>
Diff(a, b) == IF a > b THEN a - b ELSE b - a
NearSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Diff(a[k], b[k]) <= 2
Near(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : NearSeq(a[k], b[k])
Last(a) == IF a = <<>> THEN <<>> ELSE SubSeq(a, Len(a), Len(a))
Agrees(e, k) ==
    IF e.res = k.res THEN TRUE ELSE
    IF ~e.near THEN FALSE ELSE
    IF e.grid = k.grid THEN Near(e.res, k.res) ELSE Near(Last(e.res), Last(k.res))
Run ==
    /\ IsEvent("Run")
    /\ TRUE = (\A x \in 1..Len(known) : (known[x].what = Ev.what => (Ev.threw = known[x].threw /\ Agrees(Ev, known[x]))))
    /\ known' = IF \E x \in 1..Len(known) : known[x].what = Ev.what /\ known[x].grid = Ev.grid THEN known
                ELSE Append(known, [what |-> Ev.what, res |-> Ev.res, threw |-> Ev.threw, near |-> Ev.near, grid |-> Ev.grid])
TNext == TReset \/ Run
TSpec == TInit /\ [][TNext]_vars
=============================================================================
