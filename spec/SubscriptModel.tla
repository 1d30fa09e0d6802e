--------------------------- MODULE SubscriptModel --------------------------
(* The stepping iterator against the definition, for every shape of up to MaxDim dimensions, every      *)
(* choice of fixed subscripts.                                                                         *)
EXTENDS Subscript
CONSTANTS MaxDim, MaxSize
VARIABLES shape, given, cur, seen, done
vars == <<shape, given, cur, seen, done>>
Shapes == UNION {[1..n -> 0..MaxSize] : n \in 1..MaxDim}
Init == /\ shape \in Shapes
        /\ given \in [1..Len(shape) -> {-1} \cup 0..(MaxSize - 1)]
        /\ FixedOf(shape, given) # 1..Len(shape)
        /\ cur = [d \in 1..Len(shape) |-> IF Inside(given[d], shape[d]) THEN given[d] ELSE 0]
        /\ seen = <<>>
        /\ done = (\E d \in 1..Len(shape) : shape[d] = 0)
First == CHOOSE d \in Free(shape, FixedOf(shape, given)) : \A e \in Free(shape, FixedOf(shape, given)) : d <= e
RECURSIVE Advance(_, _)
Advance(s, d) == \* carry from dimension d towards the first free one
    IF d \in FixedOf(shape, given) THEN Advance(s, d - 1)
    ELSE IF d > First /\ s[d] + 1 = shape[d] THEN Advance([s EXCEPT ![d] = 0], d - 1)
    ELSE [s EXCEPT ![d] = @ + 1]
Step == /\ ~done
        /\ seen' = Append(seen, cur)
        /\ cur' = Advance(cur, Len(shape))
        /\ done' = (cur'[First] = shape[First])
        /\ UNCHANGED <<shape, given>>
Next == Step
Spec == Init /\ [][Next]_vars
(* what has been seen is ordered and is, at the end, every index once *)
Ordered == \A i, j \in 1..Len(seen) : i < j => Less(seen[i], seen[j])
Complete == done => /\ {seen[k] : k \in 1..Len(seen)} = Indices(shape, given)
                    /\ seen = Enumeration(shape, given)
(* broadcasting is symmetric and total on compatible shapes; conversions are mutually inverse *)
Laws == done => LET T == Triples(shape, shape) IN
          /\ \A k \in 1..Len(T) : T[k][1] = T[k][2] /\ T[k][2] = T[k][3]
          /\ \A s \in Indices(shape, NoFixed(shape)) :
               /\ Dot(s, RowStride(shape)) \in 0..(Prod(shape) - 1)
               /\ Enumeration(shape, NoFixed(shape))[Dot(s, RowStride(shape)) + 1] = s
               /\ \A t \in Indices(shape, NoFixed(shape)) : Dot(s, ColStride(shape)) = Dot(t, ColStride(shape)) => s = t
=============================================================================
