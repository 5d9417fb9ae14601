SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxLines = 2
  Texts = {"a", "b"}
  Mutant = "none"
INVARIANTS Held Stored
CHECK_DEADLOCK FALSE
