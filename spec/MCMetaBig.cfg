SPECIFICATION Spec
CONSTANTS
  Names <- Core
  MaxChanges = 3
  Mutant = ""
INVARIANTS RightPaths MergesToo
CHECK_DEADLOCK FALSE
