SPECIFICATION Spec
CONSTANTS
  MaxKids = 2
  Mutant = ""
INVARIANTS Emit
CHECK_DEADLOCK FALSE
