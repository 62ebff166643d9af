SPECIFICATION Spec
CONSTANTS
  Types = {"u64", "u32", "char"}
  ReadAs = "u64"
  MaxLen = 6
INVARIANT Faithful
CHECK_DEADLOCK FALSE
