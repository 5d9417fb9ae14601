SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxFiles = 2
  MaxBuf = 2
  Mutant = "none"
INVARIANTS NoPanic Complete
PROPERTIES Refines Ends
CHECK_DEADLOCK TRUE
