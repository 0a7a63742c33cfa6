SPECIFICATION Spec
CONSTANTS
  MaxFrames = 3
  MaxLimit = 3
  MaxFault = 12
INVARIANTS Right Within Limited Released Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
