SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Keys = {1, 2}
  Meths = {"Load", "Store", "LoadOrStore", "LoadAndDelete", "CIA", "CIP", "Clear", "Range"}
  NOps = 1
  Bug = 0
  Booms = TRUE
INVARIANTS Explained FromCallback Shaped AtRest
