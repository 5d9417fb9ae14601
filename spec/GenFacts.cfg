INIT Init
NEXT Ask
CONSTANTS
  Mutant = ""
  Paths = {1}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
