SPECIFICATION Spec
INVARIANTS Same
CHECK_DEADLOCK FALSE
