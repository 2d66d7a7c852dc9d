SPECIFICATION Spec
CONSTANTS
  Users = {1, 2}
  Sizes = {16, 32}
  MaxObj = 3
  Rounds = 2
  Bug = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
