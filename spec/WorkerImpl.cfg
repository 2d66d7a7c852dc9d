SPECIFICATION Spec
CONSTANTS
  N = 3
  Size = 1
  Bug = 0
INVARIANT Inv
PROPERTY Done
CHECK_DEADLOCK FALSE
