SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  Seeks = {0, 1, 2, 3, 9}
  Depth = 7
VIEW View
INVARIANTS TypeOK SeekIsRead Emit
PROPERTY InOrder
CHECK_DEADLOCK FALSE
