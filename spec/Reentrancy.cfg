SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ResultsRight InputKept NothingKept
