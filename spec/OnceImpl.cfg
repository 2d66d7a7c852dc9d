SPECIFICATION Spec
CONSTANTS
  Writers = {1, 2, 3}
  Readers = {1, 2}
  Bug = 0
INVARIANT Inv
PROPERTY Done
CHECK_DEADLOCK FALSE
