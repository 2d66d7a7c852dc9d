SPECIFICATION Spec
CONSTANTS
  Users = {1, 2}
  Caps = {1, 2, 3}
  MaxBlocks = 2
  Bug = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
