SPECIFICATION Spec
CONSTANTS
  MaxDev = 2
  Fmts = {"PGM", "PFM", "Y4M"}
INVARIANTS FramesInside UsualAccepted Truncation OneFormat Emit
CHECK_DEADLOCK FALSE
