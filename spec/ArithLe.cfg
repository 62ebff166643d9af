SPECIFICATION Spec
CONSTANTS H = 3
Flaw = "le"
INVARIANTS Exact Sane
CHECK_DEADLOCK FALSE
