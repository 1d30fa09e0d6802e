SPECIFICATION Spec
CONSTANTS
  Low = 1
  High = 2
INVARIANTS Duality CrossTriple Primitive Spans Phase
CHECK_DEADLOCK FALSE
