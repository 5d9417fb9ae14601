SPECIFICATION Spec
CONSTANTS
  Tokens <- Hostile
  MaxOld = 1
  MaxNew = 2
  Mutant = "none"
INVARIANTS ReadIsWritten
CHECK_DEADLOCK FALSE
