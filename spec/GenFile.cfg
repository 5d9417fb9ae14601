SPECIFICATION Spec
CONSTANTS
  Shape <- Diamond
  Alphabet = {1, 2}
  MaxLines = 2
  Kinds = {"absent", "bin"}
  OneAlignment = TRUE
  Mutant = "none"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
