SPECIFICATION Spec
INVARIANT AgreesWithPublished
CHECK_DEADLOCK FALSE
POSTCONDITION Visited
