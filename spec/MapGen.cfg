SPECIFICATION GSpec
CONSTANTS
  Procs = {1}
  Keys = {1, 2}
  Meths = {"Load", "Store", "LoadAndDelete", "Clear", "Range"}
  NOps = 14
  Bug = 0
  Booms = FALSE
VIEW GView
INVARIANT Emit
CHECK_DEADLOCK FALSE
