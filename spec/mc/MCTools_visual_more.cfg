SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Group = "visual"
  Images <- MCImages
  Files <- MCFiles
INVARIANTS RightVisual Emit
CHECK_DEADLOCK FALSE
