SPECIFICATION Spec
CONSTANTS
  MaxSet = 1
  Unpinned = {}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
