SPECIFICATION Spec
CONSTANTS
  Page = 32
  MaxLen = 41
  Modes = {"unable", "slow", "efficient"}
  OneShots = {TRUE, FALSE}
  Wides = {TRUE, FALSE}
  X86s = {TRUE, FALSE}
  FixOneShot = FALSE
  FixAlign = TRUE
  FixPairs = TRUE
INVARIANT InPages
INVARIANT Exact
INVARIANT NoForeign
INVARIANT AllRead
INVARIANT Aligned
INVARIANT Pairs
CHECK_DEADLOCK FALSE
