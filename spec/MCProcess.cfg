SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxPar = 2
  MaxRuns = 2
  AnyOrder = TRUE
  Mutant = "none"
  Window <- W1
INVARIANTS EndsRight OrderHolds FullKeepsNeeded
VIEW View
CHECK_DEADLOCK FALSE
