INIT Init
NEXT Stop
CONSTANTS
  MaxLen = 2
  Texts = {1, 2, 3}
  Mutant = ""
INVARIANTS Emit
CHECK_DEADLOCK FALSE
