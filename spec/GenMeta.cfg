SPECIFICATION Spec
CONSTANTS
  Names <- All
  MaxChanges = 2
  Mutant = ""
INVARIANTS Emit
CHECK_DEADLOCK FALSE
