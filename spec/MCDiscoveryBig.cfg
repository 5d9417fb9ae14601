SPECIFICATION Spec
CONSTANTS
  MaxKids = 4
  Mutant = ""
INVARIANTS EachOnce OnlyFound Status
CHECK_DEADLOCK FALSE
