------------------------------ MODULE Subscript ----------------------------
(* Iterating over the subscripts of a shape, with chosen subscripts held fixed, and broadcasting.      *)
(* The model: an iterator holds a position (or is past the end) and a step moves it in row order.      *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Inside(i, n) == i >= 0 /\ i < n
(* positions that are held fixed: those whose given subscript is a valid one *)
FixedOf(shape, given) == {d \in 1..Len(shape) : Inside(given[d], shape[d])}
Free(shape, fixed) == (1..Len(shape)) \ fixed
Indices(shape, given) ==
    {s \in [1..Len(shape) -> 0..9] : \A d \in 1..Len(shape) :
        IF Inside(given[d], shape[d]) THEN s[d] = given[d] ELSE s[d] < shape[d]}
(* lexicographic order, first subscript slowest *)
Less(a, b) == \E d \in 1..Len(a) : a[d] < b[d] /\ \A e \in 1..(d - 1) : a[e] = b[e]

(* ---- by construction: the k-th subscript in row order *)
RECURSIVE Unrank(_, _, _, _)
Unrank(shape, given, k, d) ==     \* subscripts of dimensions 1..d
    IF d = 0 THEN <<>>
    ELSE IF Inside(given[d], shape[d]) THEN Append(Unrank(shape, given, k, d - 1), given[d])
    ELSE Append(Unrank(shape, given, k \div shape[d], d - 1), k % shape[d])
RECURSIVE Count(_, _, _)
Count(shape, given, d) == IF d = 0 THEN 1 ELSE Count(shape, given, d - 1) * (IF Inside(given[d], shape[d]) THEN 1 ELSE shape[d])
Enumeration(shape, given) == [k \in 1..Count(shape, given, Len(shape)) |-> Unrank(shape, given, k - 1, Len(shape))]

(* ---- broadcasting *)
Compatible(a, b) == Len(a) = Len(b) /\ \A d \in 1..Len(a) : a[d] = b[d] \/ a[d] = 1 \/ b[d] = 1
Outer(a, b) == [d \in 1..Len(a) |-> IF a[d] = 1 THEN b[d] ELSE a[d]]
Into(sub, shape) == [d \in 1..Len(sub) |-> IF shape[d] = 1 THEN 0 ELSE sub[d]]
NoFixed(shape) == [d \in 1..Len(shape) |-> -1]
Triples(a, b) == LET o == Outer(a, b)  e == Enumeration(o, NoFixed(o))
                 IN [k \in 1..Len(e) |-> <<e[k], Into(e[k], a), Into(e[k], b)>>]

(* ---- linear positions *)
RowStride(shape) == [d \in 1..Len(shape) |-> Prod(SubSeq(shape, d + 1, Len(shape)))]
ColStride(shape) == [d \in 1..Len(shape) |-> Prod(SubSeq(shape, 1, d - 1))]
RECURSIVE Dot(_, _)
Dot(s, t) == IF s = <<>> THEN 0 ELSE Head(s) * Head(t) + Dot(Tail(s), Tail(t))
=============================================================================
