SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxLines = 2
  Texts = {"a", "b"}
  Mutant = "none"
INVARIANTS Held Stored
CHECK_DEADLOCK FALSE
