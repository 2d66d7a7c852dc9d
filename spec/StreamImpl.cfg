SPECIFICATION Spec
CONSTANTS
  N = 3
  Kinds = {"skip", "limit", "tail", "filter", "twice", "walk"}
  Stages = 2
  Workers = 2
  Bug = 0
INVARIANTS Result Workload
PROPERTY Settles
CHECK_DEADLOCK FALSE
