SPECIFICATION Spec
CONSTANTS
  Group = "file"
  M0 = {"mag"}
  M1 = {}
  N0 = 1
  N1 = 0
  P1 = FALSE
  Ranges = {1}
  Thrs = {"zero", "over"}
  Images <- MCImages
  Files <- MCFiles
INVARIANTS TypeOK Emit
VIEW View
CHECK_DEADLOCK FALSE
