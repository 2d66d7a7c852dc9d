SPECIFICATION Spec
CONSTANTS
  N = 3
  W = 1
  Slots = 2
  Buf = 1
  Bug = 0
  Cancels = TRUE
INVARIANT Inv
PROPERTIES Ends Settles
CHECK_DEADLOCK FALSE
