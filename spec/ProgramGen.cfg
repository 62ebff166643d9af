SPECIFICATION Spec
CONSTANTS
  Types <- MCTypes
  SizeOf <- MCSizeOf
  Fns <- MCFns
  Depth = 12
  MaxSize = 88
  Shapes <- Free
CHECK_DEADLOCK FALSE
