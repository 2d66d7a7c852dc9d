SPECIFICATION Spec
CONSTANTS
  Writers = {1, 2}
  Readers = {1}
  NOps = 2
  Cap = 1
  Bug = 0
INVARIANT Inv
PROPERTY Back
CHECK_DEADLOCK FALSE
