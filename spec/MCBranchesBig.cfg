SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxPar = 3
  Rev = TRUE
  Mutant = ""
INVARIANTS ListIsDeclared OrderHolds PointsAreDeclared FirstExists PointIffShared Sides MergeIsOnDefault Stable
CHECK_DEADLOCK FALSE
