SPECIFICATION Spec
CONSTANTS
  MaxSet = 1
  Unpinned = {}
INVARIANTS Independent
CHECK_DEADLOCK FALSE
