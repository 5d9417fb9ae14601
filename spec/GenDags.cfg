INIT Init
NEXT AddCommit
CONSTANTS
  N = 4
  MaxPar = 2
  Rev = FALSE
  Mutant = ""
INVARIANTS Emit
CHECK_DEADLOCK FALSE
