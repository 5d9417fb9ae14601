SPECIFICATION Spec
CONSTANTS
  Parts <- P4
  MaxRuns = 4
  Start = {"none", "old"}
  Mutant = "none"
INVARIANTS Safe Complete GoesOn KeptUntil
VIEW View
CHECK_DEADLOCK FALSE
