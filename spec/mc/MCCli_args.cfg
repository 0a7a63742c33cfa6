SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Group = "args"
  Letters = {"v", "m", "t", "R", "r", "x", "f", "o", "n", "p", "h", "V", "z"}
  Images <- MCImages
  Files <- MCFiles
INVARIANTS Right FramesCounted Independent Emit
CHECK_DEADLOCK FALSE
