SPECIFICATION Spec
CONSTANTS
  MaxKids = 3
  Mutant = ""
INVARIANTS EachOnce OnlyFound Status
CHECK_DEADLOCK FALSE
