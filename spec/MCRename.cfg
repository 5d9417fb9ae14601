SPECIFICATION Spec
CONSTANTS
  Shape <- Line2
  Paths = {1, 2}
  Contents_ = {2, 3, 4}
  Mutant = "none"
INVARIANTS TreesHold ReportsHold MergeReportsHold RenamesHold
CHECK_DEADLOCK FALSE
