SPECIFICATION Spec
INVARIANT LengthCounts
CHECK_DEADLOCK FALSE
