SPECIFICATION Spec
CONSTANTS
  Cap = 2
  Adders = {1, 2}
  NAdds = 2
  Takers = {1, 2}
  Bug = 0
INVARIANT Inv
PROPERTY Done
CHECK_DEADLOCK FALSE
