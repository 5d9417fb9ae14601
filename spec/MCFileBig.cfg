SPECIFICATION Spec
CONSTANTS
  Shape <- DiamondTail
  Alphabet = {1, 2}
  MaxLines = 1
  Kinds = {"absent", "bin", "exec", "link"}
  OneAlignment = FALSE
  Mutant = "none"
INVARIANTS ContentHolds RegularReports MergeReports AttributionHolds AttributedToPast
CHECK_DEADLOCK FALSE
