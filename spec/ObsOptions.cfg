SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Post
