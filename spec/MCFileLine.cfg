SPECIFICATION Spec
CONSTANTS
  Shape <- Line3
  Alphabet = {1, 2}
  MaxLines = 2
  Kinds = {"absent"}
  OneAlignment = FALSE
  Mutant = "none"
INVARIANTS ContentHolds RegularReports MergeReports AttributionHolds AttributedToPast
CHECK_DEADLOCK FALSE
