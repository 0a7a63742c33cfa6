SPECIFICATION Spec
CONSTANTS
  Shapes <- Shapes2
  Printing = TRUE
INVARIANTS Emit Bounds Room Scale Transpose Mirror Weaker Odd Tolerance List
CHECK_DEADLOCK FALSE
