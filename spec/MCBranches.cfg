SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxPar = 2
  Rev = FALSE
  Mutant = ""
INVARIANTS ListIsDeclared OrderHolds PointsAreDeclared FirstExists PointIffShared Sides MergeIsOnDefault Stable
CHECK_DEADLOCK FALSE
