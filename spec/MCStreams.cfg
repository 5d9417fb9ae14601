SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxFiles = 2
  MaxBuf = 1
  Mutant = "none"
INVARIANTS NoPanic Complete
PROPERTIES Refines Ends
CHECK_DEADLOCK TRUE
