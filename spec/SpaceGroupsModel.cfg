SPECIFICATION Spec
INVARIANTS Entry Same Exact
CHECK_DEADLOCK FALSE
