SPECIFICATION Spec
CONSTANTS
  Ctx = {1, 2}
  Seeds = {1, 2}
  MaxLen = 4
  Lens = {0, 1, 2, 3, 4}
  Flavours = {1, 2}
  Block = 2
  Pad = 1
INVARIANT ContentInv
PROPERTY Refines
CHECK_DEADLOCK FALSE
