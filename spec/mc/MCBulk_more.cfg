SPECIFICATION Spec
CONSTANTS
  MaxFrames = 5
  MaxLimit = 5
  MaxFault = 16
INVARIANTS Right Within Limited Released Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
