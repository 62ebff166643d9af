SPECIFICATION Spec
CONSTANTS H = 3
Flaw = "none"
INVARIANTS Exact Sane
CHECK_DEADLOCK FALSE
