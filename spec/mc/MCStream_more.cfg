SPECIFICATION Spec
CONSTANTS
  MaxFrames = 4
  Depth = 7
  Seeks = {0, 1, 2, 3, 5}
INVARIANTS Right Exhausted Agree Emit
VIEW View
CHECK_DEADLOCK FALSE
