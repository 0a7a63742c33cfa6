SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Group = "visual"
  Images <- MCImages
  Files <- MCFiles
INVARIANTS RightVisual Emit
CHECK_DEADLOCK FALSE
