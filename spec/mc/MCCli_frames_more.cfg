SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Group = "frames"
  Letters = {"v", "m", "o", "n", "p"}
  Images <- MCImages
  Files <- MCFiles
INVARIANTS Right FramesCounted Independent Emit
CHECK_DEADLOCK FALSE
