SPECIFICATION Spec
CONSTANTS
  MaxLen = 1
  Texts = {1, 2, 3}
  Mutant = ""
INVARIANTS RoundTrip Once
CHECK_DEADLOCK FALSE
