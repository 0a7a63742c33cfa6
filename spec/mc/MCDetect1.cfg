SPECIFICATION Spec
CONSTANTS
  Shapes <- Shapes1
  Printing = TRUE
INVARIANTS Emit Bounds Room Scale Transpose Mirror Weaker Odd Tolerance List
CHECK_DEADLOCK FALSE
