SPECIFICATION Spec
CONSTANTS H = 4
Flaw = "none"
INVARIANTS Exact Sane
CHECK_DEADLOCK FALSE
