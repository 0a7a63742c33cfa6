SPECIFICATION Spec
CONSTANTS
  MaxDev = 3
  Fmts = {"PGM", "PFM", "Y4M"}
INVARIANTS FramesInside UsualAccepted Truncation OneFormat Emit
CHECK_DEADLOCK FALSE
