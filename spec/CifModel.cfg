SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Associative Inverses Unit Acts Same Understood
