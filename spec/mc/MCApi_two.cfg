SPECIFICATION Spec
CONSTANTS
  Group = "two"
  M0 = {"sign"}
  M1 = {"zerox"}
  N0 = 2
  N1 = 1
  P1 = FALSE
  Ranges = {2}
  Thrs = {"half", "neg"}
  Images <- MCImages
  Files <- MCFiles
INVARIANTS TypeOK Emit
VIEW View
CHECK_DEADLOCK FALSE
