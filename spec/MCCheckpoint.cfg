SPECIFICATION Spec
CONSTANTS
  Parts <- P2
  MaxRuns = 3
  Start = {"none", "old"}
  Mutant = "none"
INVARIANTS Safe Complete GoesOn KeptUntil
VIEW View
CHECK_DEADLOCK FALSE
