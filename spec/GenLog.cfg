SPECIFICATION Spec
CONSTANTS
  Tokens <- Hostile
  MaxOld = 1
  MaxNew = 2
  Mutant = "none"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
