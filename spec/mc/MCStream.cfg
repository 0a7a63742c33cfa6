SPECIFICATION Spec
CONSTANTS
  MaxFrames = 3
  Depth = 5
  Seeks = {0, 1, 2, 4}
INVARIANTS Right Exhausted Agree Emit
VIEW View
CHECK_DEADLOCK FALSE
