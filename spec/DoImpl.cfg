SPECIFICATION Spec
CONSTANTS
  N = 2
  Bug = 0
INVARIANTS Inv Prompt
PROPERTIES Returns Gone
CHECK_DEADLOCK FALSE
