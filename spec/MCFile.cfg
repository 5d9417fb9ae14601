SPECIFICATION Spec
CONSTANTS
  Shape <- Diamond
  Alphabet = {1, 2}
  MaxLines = 2
  Kinds = {"absent", "bin"}
  OneAlignment = FALSE
  Mutant = "none"
INVARIANTS ContentHolds RegularReports MergeReports AttributionHolds AttributedToPast
CHECK_DEADLOCK FALSE
