SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Group = "profile"
  Images <- MCImages
  Files <- MCFiles
INVARIANTS RightProfile Emit
CHECK_DEADLOCK FALSE
