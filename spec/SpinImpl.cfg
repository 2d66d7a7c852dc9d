SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Rounds = 2
  MaxBack = 2
  Bug = 0
INVARIANT Inv
PROPERTY Done
CHECK_DEADLOCK FALSE
