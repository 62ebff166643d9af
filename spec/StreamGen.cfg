SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3, 4}
  Depth = 30
  Big = {100, 127, 128, 129, 255, 256, 257, 300}
CHECK_DEADLOCK FALSE
