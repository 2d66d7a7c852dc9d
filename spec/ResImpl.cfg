SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Keys = {1}
  NOps = 2
  Bug = 0
INVARIANTS Allowed Same AtRest
