--------------------------- MODULE PermTableTrace --------------------------
EXTENDS PermTable, TLC, TraceBase
ToSet(s) == {s[i] : i \in 1..Len(s)}
PairSet(s) == {<<x[1], x[2]>> : x \in ToSet(s)}
P == <<Ev.i, Ev.j>>
TInit == /\ TraceBaseInit /\ size = 2 /\ br = 1 /\ tab = <<>> /\ handle = [x \in {0} |-> Id(1)] /\ reply = NoReply
(* the state the implementation reports: for every ordered pair, has / needed / permutation *)
Observed ==
    /\ \A k \in 1..Len(Ev.obs) :
         LET o == Ev.obs[k]  p == <<o.i, o.j>>  known == p \in DOMAIN tab' IN
         IF p[1] = p[2] THEN o.get = Id(br')
         ELSE /\ o.has = (IF known THEN tab'[p] # Reserved ELSE FALSE)
              /\ o.needed = (IF known THEN tab'[p] = Reserved ELSE FALSE)
              /\ o.get = (IF known THEN IF tab'[p] # Reserved THEN tab'[p] ELSE Id(br') ELSE Id(br'))
    /\ ToSet(Ev.keys) \ {0} = {p[1] * size' + p[2] : p \in DOMAIN tab'}
    /\ ~Ev.copydiffers
TStep ==
    \/ IsEvent("New") /\ New(Ev.n, Ev.b, PairSet(Ev.pairs)) /\ Observed
    \/ IsEvent("Set") /\ Set(P, Ev.v, Ev.idx) /\ Observed
    \/ IsEvent("Replace") /\ Replace(P, Ev.v, Ev.idx) /\ (reply' = <<"error">>) = Ev.error /\ Observed
    \/ IsEvent("ReplaceIndex") /\ ReplaceByIndex(P, Ev.idx) /\ (reply' = <<"error">>) = Ev.error /\ Observed
    \/ IsEvent("Reserve") /\ Reserve(PairSet(Ev.pairs)) /\ Observed
    \/ IsEvent("Refresh") /\ Refresh(Ev.n, Ev.b) /\ reply' = <<"bool", Ev.inval>> /\ Observed
    \* building keys from a list of points: every ordered pair of distinct entries, nothing else
    \/ /\ IsEvent("KeysFrom")
       /\ ToSet(Ev.keys) = {a * Ev.n + b : <<a, b>> \in {x \in ToSet(Ev.list) \X ToSet(Ev.list) : x[1] # x[2]}}
       /\ UNCHANGED vars
    \* inequality of two tables is inequality of what they hold
    \/ IsEvent("Differs") /\ (Ev.same => ~Ev.differs) /\ UNCHANGED vars
TReset == IsEvent("Reset") /\ size' = 2 /\ br' = 1 /\ tab' = <<>> /\ handle' = [x \in {0} |-> Id(1)] /\ reply' = NoReply
TSpec == TInit /\ [][TReset \/ TStep]_<<vars, l>>
=============================================================================
