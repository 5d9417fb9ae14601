SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Texts = {1, 2, 3, 4}
  Mutant = ""
INVARIANTS RoundTrip Once
CHECK_DEADLOCK FALSE
