SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxPar = 2
  MaxRuns = 3
  AnyOrder = TRUE
  Mutant = "none"
  Window <- W2
INVARIANTS EndsRight OrderHolds FullKeepsNeeded
VIEW View
CHECK_DEADLOCK FALSE
