SPECIFICATION Spec
CONSTANTS
  Ctx = {1}
  Seeds = {1, 2}
  MaxLen = 26
  Lens = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26}
  Flavours = {1}
  Block = 8
  Pad = 2
INVARIANT ContentInv
PROPERTY Refines
CHECK_DEADLOCK FALSE
