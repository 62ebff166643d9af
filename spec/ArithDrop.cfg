SPECIFICATION Spec
CONSTANTS H = 3
Flaw = "drop"
INVARIANTS Exact Sane
CHECK_DEADLOCK FALSE
