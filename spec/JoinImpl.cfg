SPECIFICATION Spec
CONSTANTS
  Big = 0
  Bug = 0
INVARIANT Inv
PROPERTY Done
CHECK_DEADLOCK FALSE
