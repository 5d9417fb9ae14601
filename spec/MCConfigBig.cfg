SPECIFICATION Spec
CONSTANTS
  MaxSet = 2
  Unpinned = {}
INVARIANTS Independent
CHECK_DEADLOCK FALSE
