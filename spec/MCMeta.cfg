SPECIFICATION Spec
CONSTANTS
  Names <- All
  MaxChanges = 2
  Mutant = ""
INVARIANTS RightPaths MergesToo
CHECK_DEADLOCK FALSE
