SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxPar = 2
  MaxRuns = 2
  AnyOrder = FALSE
  Mutant = "none"
  Window <- W1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
