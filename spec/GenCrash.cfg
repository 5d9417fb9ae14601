SPECIFICATION Spec
CONSTANTS
  Parts <- P4
  MaxRuns = 2
  Start = {"none", "old"}
  Mutant = "none"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
