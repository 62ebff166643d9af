SPECIFICATION Spec
INVARIANT Agrees
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
