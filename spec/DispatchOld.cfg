SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  HasProxy = FALSE
INVARIANT ProbeIsRight
INVARIANT ResolveIsChoice
INVARIANT CallsAreRight
INVARIANT NeverUnsupported
INVARIANT SameFunction
INVARIANT TableSane
CHECK_DEADLOCK FALSE
